package router

import (
	"fmt"
	"net/http"
	"strings"
	"testing"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/inject"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
)

// a small pool of filters with fixed identities
type filterPool struct {
	fs    []interface{}
	trace []string
	many  bool // lists of many filters
}

func newPool(t *rapid.T, n int) *filterPool {
	p := &filterPool{}
	for i := 0; i < n; i++ {
		id := fmt.Sprint("f", i)
		plain := func() { p.trace = append(p.trace, id) }
		switch h.Pick(t, "form", "plain", "plain", "ctx", "factory") {
		case "ctx":
			p.fs = append(p.fs, func(ctx strip.Context) { p.trace = append(p.trace, id) })
		case "factory":
			p.fs = append(p.fs, func() inject.Provider { return plain })
		default:
			p.fs = append(p.fs, plain)
		}
	}
	return p
}

func (p *filterPool) draw(t *rapid.T, label string, max int) []int {
	min := 0
	if p.many {
		max *= 20
		min = rapid.IntRange(0, max).Draw(t, label+" least")
	}
	return rapid.SliceOfN(rapid.IntRange(0, len(p.fs)-1), min, max).Draw(t, label)
}

func (p *filterPool) vals(ix []int) (vs []interface{}) {
	for _, i := range ix {
		vs = append(vs, p.fs[i])
	}
	return
}

type fMethod struct {
	method  string
	filters []int
	exempts []int
}

type fChild struct {
	seg  string
	node *fNode
}

type fNode struct {
	filters  []int
	exempts  []int
	methods  []fMethod
	children []fChild
}

func (n *fNode) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "+%v -%v {", n.filters, n.exempts)
	for _, m := range n.methods {
		fmt.Fprintf(&b, " %s+%v-%v", m.method, m.filters, m.exempts)
	}
	for _, c := range n.children {
		b.WriteString(" " + c.seg + " " + c.node.String())
	}
	b.WriteString("}")
	return b.String()
}

func addIDs(have, add []int) []int {
	out := append([]int{}, have...)
outer:
	for _, a := range add {
		for _, x := range out {
			if x == a {
				continue outer
			}
		}
		out = append(out, a)
	}
	return out
}

func dropIDs(have, drop []int) (out []int) {
	for _, x := range have {
		keep := true
		for _, d := range drop {
			keep = keep && d != x
		}
		if keep {
			out = append(out, x)
		}
	}
	return
}

// chunks writes a list of filters as one or more Filter/Exempt handlers.
func chunks(t *rapid.T, p *filterPool, ix []int, mk func(...interface{}) strip.Handler) (hs []strip.Handler) {
	for len(ix) > 0 {
		n := len(ix)
		if h.Pct(t, 30, "split list") {
			n = rapid.IntRange(1, len(ix)).Draw(t, "chunk")
		}
		hs = append(hs, mk(p.vals(ix[:n])...))
		ix = ix[n:]
	}
	return
}

// eval writes down the trace every route of the tree must leave.
func (n *fNode) eval(prefix string, app, inherited []int, want map[string]string) (interesting bool) {
	all := addIDs(inherited, n.filters)
	eff := dropIDs(all, n.exempts)
	interesting = len(eff) != len(all) || len(all) != len(inherited)+len(n.filters)
	path := prefix
	if path == "" {
		path = "/"
	}
	for _, m := range n.methods {
		mall := addIDs(eff, m.filters)
		meff := dropIDs(mall, m.exempts)
		interesting = interesting || len(meff) != len(eff)+len(m.filters)
		var tr []string
		for _, x := range append(addIDs(nil, app), meff...) {
			tr = append(tr, fmt.Sprint("f", x))
		}
		want[m.method+" "+path] = strings.Join(append(tr, "h:"+m.method+path), ",")
	}
	for _, c := range n.children {
		interesting = c.node.eval(prefix+c.seg, app, eff, want) || interesting
	}
	return
}

// a method handler others are derived from
type fBase struct {
	mh strip.MethodHandler
	fMethod
}

func TestF01(t *testing.T) {
	h.Check(t, h.Spec{ID: "F01", Quick: 8000, Thorough: 50000,
		Rule: "a random router tree (depth 0-4, up to 12 routers, some paths declared in several places) over a pool of 6 filters with Filter/Exempt at application, router and method level in any order; some method handlers are derived from one shared handler by further Filter/Exempt calls and some routers are mounted at several places; the trace of every (path, method) is compared with the list model. Non-trivial: some route had a filter exempted or deduplicated."},
		func(c *h.C) {
			p := newPool(c.T, 6)
			if h.Pct(c.T, 3, "many filters") {
				p = newPool(c.T, 60)
				p.many = true
			}
			sp, _ := h.App()
			app := p.draw(c.T, "app filters", 3)
			declared := map[string]bool{} // "METHOD /path"
			left := 12
			bases := map[string][]fBase{}
			type part struct {
				node  *fNode
				value strip.Handler
				seg   string
			}
			var parts []part
			mounts := 0
			derive := func(b fBase) fBase {
				fs, es := p.draw(c.T, "method filters", 2), p.draw(c.T, "method exempts", 2)
				b.filters = append(append([]int{}, b.filters...), fs...)
				b.exempts = append(append([]int{}, b.exempts...), es...)
				if h.Pct(c.T, 50, "one by one") {
					for _, f := range fs {
						b.mh = b.mh.Filter(p.vals([]int{f})...)
					}
				} else if len(fs) > 0 {
					b.mh = b.mh.Filter(p.vals(fs)...)
				}
				if len(es) > 0 {
					b.mh = b.mh.Exempt(p.vals(es)...)
				}
				return b
			}
			var gen func(depth int, prefix string) (*fNode, []strip.Handler)
			gen = func(depth int, prefix string) (*fNode, []strip.Handler) {
				n := &fNode{filters: p.draw(c.T, "filters", 3), exempts: p.draw(c.T, "exempts", 2)}
				var hs []strip.Handler
				hs = append(hs, chunks(c.T, p, n.filters, func(v ...interface{}) strip.Handler { return strip.Filter(v...) })...)
				hs = append(hs, chunks(c.T, p, n.exempts, func(v ...interface{}) strip.Handler { return strip.Exempt(v...) })...)
				for _, m := range []string{"GET", "POST", "All", "Any"} {
					m := m
					if !h.Pct(c.T, 50, "method "+m) {
						continue
					}
					if declared[m+" "+prefix] {
						continue // declared elsewhere
					}
					declared[m+" "+prefix] = true
					var b fBase
					if k := len(bases[m]); k > 0 && h.Pct(c.T, 40, "derived") {
						b = bases[m][rapid.IntRange(0, k-1).Draw(c.T, "base")]
					} else {
						b.method = m
						b.mh = register[m](func(req *http.Request) { p.trace = append(p.trace, "h:"+m+req.URL.Path) })
					}
					b = derive(b)
					bases[m] = append(bases[m], b)
					hs = append(hs, b.mh)
					n.methods = append(n.methods, b.fMethod)
				}
				if depth > 0 {
					for i := rapid.IntRange(0, 3).Draw(c.T, "children"); i > 0 && left > 0; i-- {
						left--
						if len(parts) > 0 && h.Pct(c.T, 15, "mount again") {
							// a router which is in use somewhere else
							q := parts[rapid.IntRange(0, len(parts)-1).Draw(c.T, "part")]
							mounts++
							seg := fmt.Sprint("/m", mounts)
							n.children = append(n.children, fChild{seg, &fNode{children: []fChild{{q.seg, q.node}}}})
							hs = append(hs, strip.Router(seg, q.value))
							continue
						}
						seg := h.Pick(c.T, "seg", "/a", "/b", "/c", "/a/b")
						cn, chs := gen(depth-1, prefix+seg)
						n.children = append(n.children, fChild{seg, cn})
						v := strip.Router(seg, chs...)
						parts = append(parts, part{cn, v, seg})
						hs = append(hs, v)
					}
				}
				// handlers of a router may come in any order; the relative
				// order of filters matters, so only move groups around
				if h.Pct(c.T, 30, "filters last") {
					k := 0
					for k < len(hs) {
						if strings.Contains(fmt.Sprintf("%T", hs[k]), "Filter") {
							k++
							continue
						}
						break
					}
					hs = append(append([]strip.Handler{}, hs[k:]...), hs[:k]...)
				}
				return n, hs
			}
			tree, hs := gen(rapid.IntRange(0, 4).Draw(c.T, "depth"), "")
			want := map[string]string{} // "METHOD /path" -> trace
			interesting := tree.eval("", app, nil, want)
			appIn := app
			for len(appIn) > 0 {
				n := rapid.IntRange(1, len(appIn)).Draw(c.T, "app chunk")
				sp.Filter(p.vals(appIn[:n])...)
				appIn = appIn[n:]
			}
			sp.Routers(hs...)

			desc := fmt.Sprintf("app %v %v", app, tree)
			for _, k := range h.Keys(want) {
				mp := strings.SplitN(k, " ", 2)
				path := mp[1]
				var try []string
				switch mp[0] {
				case "GET":
					try = []string{"GET", "HEAD"}
				case "POST":
					try = []string{"POST"}
				case "All":
					try = []string{"PUT", "PATCH"}
				case "Any":
					if _, ok := want["All "+mp[1]]; ok {
						continue
					}
					try = []string{"DELETE"}
				}
				for _, m := range try {
					p.trace = nil
					h.Do(sp, h.Req(m, path))
					if got := strings.Join(p.trace, ","); got != want[k] {
						c.Fatalf("%s\n%s %s ran %s\nwant %s", desc, m, path, got, want[k])
					}
				}
			}
			c.Label("routes %d", min(len(want), 9))
			if mounts > 0 {
				c.Label("router mounted again")
			}
			if interesting && len(want) > 0 {
				c.NonTrivial(desc)
			}
		})
}

// TestF01_replace has applications take over each other's filters and get
// more of their own.
func TestF01_replace(t *testing.T) {
	h.Check(t, h.Spec{ID: "F01", Quick: 2000, Thorough: 60000,
		Rule: "2-3 applications over a pool of 6 filters, 2-12 steps of adding filters to one or having one take over another's, each application asked at the end and now and then between. Non-trivial: filters were added after filters were taken over.",
	}, func(c *h.C) {
		p := newPool(c.T, 6)
		n := rapid.IntRange(2, 3).Draw(c.T, "applications")
		var apps []*strip.Strip
		have := make([][]int, n)
		for i := 0; i < n; i++ {
			sp, _ := h.App()
			sp.Routers(strip.Get(func(rw http.ResponseWriter) { rw.WriteHeader(200) }))
			apps = append(apps, sp)
		}
		var log []string
		ask := func(i int) {
			p.trace = nil
			h.Do(apps[i], h.Req("GET", "/"))
			var want []string
			for _, f := range have[i] {
				want = append(want, fmt.Sprint("f", f))
			}
			if strings.Join(p.trace, " ") != strings.Join(want, " ") {
				c.Fatalf("after %s: application %d runs %v, want %v", strings.Join(log, ", "), i, p.trace, want)
			}
		}
		took, after := false, false
		for k := rapid.IntRange(2, 12).Draw(c.T, "steps"); k > 0; k-- {
			i := rapid.IntRange(0, n-1).Draw(c.T, "application")
			if h.Pct(c.T, 30, "take over") {
				j := rapid.IntRange(0, n-1).Draw(c.T, "from")
				strip.ReplaceFilters(apps[i], apps[j])
				have[i] = append([]int{}, have[j]...)
				log = append(log, fmt.Sprintf("%d takes %d's", i, j))
				took = true
			} else {
				add := p.draw(c.T, "add", 3)
				apps[i].Filter(p.vals(add)...)
				have[i] = addIDs(append([]int{}, have[i]...), add)
				log = append(log, fmt.Sprintf("%d gets %v", i, add))
				after = after || took && len(add) > 0
			}
			if h.Pct(c.T, 20, "ask") {
				ask(i)
			}
		}
		for i := range apps {
			ask(i)
		}
		if after {
			c.NonTrivial(strings.Join(log, ", "))
		}
	})
}
