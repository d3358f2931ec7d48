package router

import (
	"fmt"
	"net/http"
	"strings"
	"testing"

	"github.com/wujiu2020/strip"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
)

// decl is one declared (template, method) pair.
type decl struct {
	tp     template
	method string
	id     string
}

func segString(ss template) string { return strings.TrimPrefix(ss.String(), "/") }

// spellTable declares the same table in one random way: grouped or flat,
// methods of one path together or apart, siblings in any order, in one or
// several Routers calls.
// between is told, before each Routers call but the first, what is declared
// so far.
func spellTable(t *rapid.T, sp *strip.Strip, ds []decl, out *[]seen, between func(ts []template, ds []decl, spelled string)) string {
	var paths []template // of all routers so far
	declared := map[string]bool{}
	for _, d := range ds {
		declared[d.tp.String()] = true
	}
	perm := rapid.Permutation(ds).Draw(t, "order")
	var desc strings.Builder
	var build func(prefix template, ds []decl) []strip.Handler
	build = func(prefix template, ds []decl) (hs []strip.Handler) {
		// own methods first or last
		var own, rest []decl
		for _, d := range ds {
			if len(d.tp) == len(prefix) {
				own = append(own, d)
			} else {
				rest = append(rest, d)
			}
		}
		add := func() {
			for _, d := range own {
				hs = append(hs, register[d.method](probe(d.id, out)))
				fmt.Fprintf(&desc, " %s", d.method)
			}
		}
		last := h.Pct(t, 30, "methods last")
		if !last {
			add()
		}
		for len(rest) > 0 {
			d := rest[0]
			// group at a declared proper prefix of the template, if any
			var cuts []int
			for k := len(prefix) + 1; k <= len(d.tp); k++ {
				if declared[d.tp[:k].String()] {
					cuts = append(cuts, k)
				}
			}
			cut := rapid.SampledFrom(cuts).Draw(t, "cut")
			group := d.tp[:cut]
			var in, out2 []decl
			for i, e := range rest {
				// others below the group may join it or be declared apart
				if len(e.tp) >= cut && e.tp[:cut].String() == group.String() && (i == 0 || h.Pct(t, 70, "join")) {
					in = append(in, e)
				} else {
					out2 = append(out2, e)
				}
			}
			p := segString(d.tp[len(prefix):cut])
			p = h.Pick(t, "lead", "/", "", "//") + p + h.Pick(t, "trail", "", "/")
			fmt.Fprintf(&desc, " Router(%q", p)
			paths = append(paths, group)
			sub := build(group, in)
			desc.WriteString(")")
			hs = append(hs, strip.Router(p, sub...))
			rest = out2
		}
		if last {
			add()
		}
		return hs
	}
	all := perm
	for len(perm) > 0 {
		n := len(perm)
		if len(perm) < len(all) {
			ts := []template{}
			have := map[string]bool{}
			for _, d := range all[:len(all)-len(perm)] {
				if len(d.tp) == 0 && !have[d.tp.String()] {
					have[d.tp.String()] = true
					ts = append(ts, d.tp)
				}
			}
			for _, tp := range paths {
				if !have[tp.String()] {
					have[tp.String()] = true
					ts = append(ts, tp)
				}
			}
			between(ts, all[:len(all)-len(perm)], desc.String())
		}
		if h.Pct(t, 40, "several calls") {
			n = rapid.IntRange(1, len(perm)).Draw(t, "chunk")
		}
		desc.WriteString(" Routers{")
		sp.Routers(build(nil, perm[:n])...)
		desc.WriteString("}")
		perm = perm[n:]
	}
	return desc.String()
}

func genDecls(t *rapid.T) (ts []template, ds []decl) {
	ts = genTable(t, 7, 4)
	if h.Pct(t, 40, "root") {
		ts = append(ts, template{})
	}
	for i, tp := range ts {
		ms := h.Pick(t, "methods", []string{"GET", "POST", "PUT", "DELETE"}, []string{"GET", "POST", "PUT", "HEAD", "DELETE", "OPTIONS", "PATCH", "TRACE", "CONNECT", "All", "Any"}, []string{"Any"}, []string{"GET"}, []string{"GET", "HEAD"}, []string{"POST", "All"}, []string{"GET", "PUT", "Any"}, []string{"HEAD", "All", "Any"})
		for _, m := range ms {
			ds = append(ds, decl{tp, m, fmt.Sprintf("%d.%s", i, m)})
		}
	}
	return
}

type request struct{ method, raw string }

func TestR03(t *testing.T) {
	h.Check(t, h.Spec{ID: "R03", Quick: 2500, Thorough: 40000,
		Rule: "a valid table (templates x methods) declared in two random spellings (nesting, order, splitting over Router and Routers calls, requests in between answered by what is declared so far); both must accept it and answer 8 requests as the flat reference model says. Non-trivial: the table has at least 3 declarations and the spellings differ."},
		func(c *h.C) {
			ts, ds := genDecls(c.T)
			var apps [2]*strip.Strip
			var outs [2][]seen
			var spelling [2]string
			var nf [2]int
			var asked []request
			check := func(i int, ts []template, ds []decl, spelling string, r request) {
				want := wantOf(ts, ds, clean(r.raw), r.method)
				outs[i], nf[i] = nil, 0
				h.Do(apps[i], h.Req(r.method, r.raw))
				if want == nil {
					if len(outs[i]) != 0 || nf[i] != 1 {
						c.Fatalf("%v\n%s\n%s %q: want not found, saw %v (not found %d)", ts, spelling, r.method, r.raw, outs[i], nf[i])
					}
				} else if len(outs[i]) != 1 || outs[i][0].String() != want.String() {
					c.Fatalf("%v\n%s\n%s %q: want %v, saw %v (not found %d)", ts, spelling, r.method, r.raw, want, outs[i], nf[i])
				}
				c.Label("found %v", want != nil)
			}
			ask := func() request {
				return request{h.Pick(c.T, "method", "GET", "HEAD", "POST", "PUT", "PATCH"), spell(c.T, genPath(c.T, ts))}
			}
			for i := range apps {
				i := i
				apps[i], _ = h.App()
				apps[i].NotFound(func(rw http.ResponseWriter) { nf[i]++; rw.WriteHeader(404) })
				var rs []request
				between := func(ts []template, ds []decl, spelled string) {
					for k := 0; k < 3; k++ {
						r := ask()
						rs = append(rs, r)
						check(i, ts, ds, spelled, r)
					}
					c.Label("requests between declarations")
				}
				if p := h.Try(func() { spelling[i] = spellTable(c.T, apps[i], ds, &outs[i], between) }); p != nil {
					c.Fatalf("valid table %v rejected: %v", ts, p)
				}
				asked = append(asked, rs...)
			}
			for k := 0; k < 8; k++ {
				r := ask()
				if k < len(asked) && h.Pct(c.T, 60, "again") {
					// asked before all was declared
					r = asked[k]
				}
				for i := range apps {
					check(i, ts, ds, spelling[i], r)
				}
			}
			if len(ds) >= 3 && spelling[0] != spelling[1] {
				c.NonTrivial(spelling[0] + "  ==  " + spelling[1])
			}
		})
}

func wantOf(ts []template, ds []decl, path []string, m string) *seen {
	best, caps := -1, []string(nil)
	if len(path) == 0 {
		for i, tp := range ts {
			if len(tp) == 0 {
				best = i
			}
		}
	} else {
		best, caps, _ = choose(ts, path)
	}
	if best < 0 {
		return nil
	}
	regs := map[string]string{}
	for _, d := range ds {
		if d.tp.String() == ts[best].String() {
			regs[d.method] = d.id
		}
	}
	id, ok := regs[m]
	if !ok && m == "HEAD" {
		id, ok = regs["GET"]
	}
	if !ok {
		id, ok = regs["All"]
	}
	if !ok {
		id, ok = regs["Any"]
	}
	if !ok {
		return nil
	}
	return &seen{id: id, path: ts[best].String(), keys: ts[best].names(), vals: caps}
}

// ---- rejected declarations -------------------------------------------------

type noAction struct{}

func (noAction) Other() {}

func TestR03_rejects(t *testing.T) {
	h.Check(t, h.Spec{ID: "R03", Quick: 6000, Thorough: 60000,
		Rule: "a valid table with one impossible declaration inserted at a random place; registration must panic, and must not without it. Non-trivial: every case."},
		func(c *h.C) {
			ts := genTable(c.T, 5, 4)
			var out []seen
			mk := func(extra strip.Handler, at int) interface{} {
				sp, _ := h.App()
				return h.Try(func() {
					var hs []strip.Handler
					for i, tp := range ts {
						if i == at && extra != nil {
							hs = append(hs, extra)
						}
						hs = append(hs, strip.Router(tp.String(), strip.Get(probe("x", &out))))
					}
					if at >= len(ts) && extra != nil {
						hs = append(hs, extra)
					}
					sp.Routers(hs...)
				})
			}
			if p := mk(nil, 0); p != nil {
				c.Fatalf("valid table %v rejected: %v", ts, p)
			}
			fn := func() {}
			at := rapid.IntRange(0, len(ts)).Draw(c.T, "at")
			kind := h.Pick(c.T, "defect", "param name", "param name", "wild name", "wild inside", "missing action", "missing named action", "bad controller", "function with action", "any without Any")
			var p interface{}
			desc := kind
			switch kind {
			case "param name", "wild name":
				// rename one parameter of an existing template
				var cands [][2]int
				for i, tp := range ts {
					for k, s := range tp {
						if (kind == "wild name") == (s.kind == kWild) && s.kind != kStatic {
							cands = append(cands, [2]int{i, k})
						}
					}
				}
				if len(cands) == 0 {
					c.Label("no parameter to rename")
					return
				}
				x := rapid.SampledFrom(cands).Draw(c.T, "where")
				tp := append(template{}, ts[x[0]][:x[1]+1]...)
				s := tp[x[1]]
				switch up := strings.ToUpper(s.name); h.Pick(c.T, "rename", "longer", "case", "shorter") {
				case "case":
					if up == s.name {
						up = strings.ToLower(up)
					}
					if up != s.name {
						s.name = up
						break
					}
					fallthrough
				case "longer":
					s.name += "x"
				default:
					if s.name = s.name[:len(s.name)-1]; s.name == "" {
						s.name = "zz"
					}
				}
				if s.kind != kWild {
					s.kind, s.verb = kParam, ""
					if h.Pct(c.T, 40, "verb") {
						s.kind, s.verb = kVerb, ":go"
					}
				}
				tp[x[1]] = s
				desc = tp.String()
				p = mk(strip.Router(tp.String(), strip.Get(fn)), at)
			case "wild inside":
				tp := genTemplate(c.T, 2)
				if tp[len(tp)-1].kind != kWild {
					tp = append(tp, seg{kind: kWild, name: nameAt(tp, kWild)})
				}
				desc = tp.String() + "/tail"
				if h.Pct(c.T, 50, "twice") {
					desc += "/more"
				}
				p = mk(strip.Router(desc, strip.Get(fn)), at)
			case "missing action":
				m := h.Pick(c.T, "m", "GET", "POST", "PUT", "HEAD", "DELETE", "OPTIONS", "PATCH", "TRACE", "CONNECT")
				ctl := h.Pick(c.T, "ctl", interface{}(noAction{}), interface{}(&noAction{}))
				p = h.Try(func() {
					if q := mk(strip.Router("/zz", register[m](ctl)), at); q != nil {
						panic(q)
					}
				})
			case "any without Any":
				p = mk(strip.Router("/zz", strip.Any(h.Pick(c.T, "ctl", interface{}(noAction{}), interface{}(&noAction{})))), at)
			case "missing named action":
				m := h.Pick(c.T, "m", "GET", "POST", "All", "Any")
				p = h.Try(func() { register[m](&noAction{}).Action("Nope") })
			case "bad controller":
				x := 3
				bad := h.Pick(c.T, "bad", interface{}(1), interface{}("s"), interface{}(map[string]int{}), interface{}(&x), interface{}([]int{}))
				m := h.Pick(c.T, "m", "GET", "POST", "All", "Any")
				desc = fmt.Sprintf("%s(%T)", m, bad)
				p = h.Try(func() { register[m](bad) })
			case "function with action":
				p = h.Try(func() { strip.Get(fn).Action("Get") })
			}
			if p == nil {
				c.Fatalf("table %v accepts %s", ts, desc)
			}
			c.Label(kind)
			c.NonTrivial(fmt.Sprintf("%v + %s at %d: %v", ts, desc, at, p))
		})
	for _, bad := range []string{"", "/", " "} {
		if h.Try(func() { strip.Router(bad) }) == nil {
			t.Fatalf("Router(%q) accepted", bad)
		}
	}
}
