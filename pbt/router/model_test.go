package router

import (
	"fmt"
	"strings"

	"github.com/wujiu2020/strip"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
)

// ---- reference model of a route table -------------------------------------

const (
	kStatic = iota
	kVerb
	kParam
	kWild
)

type seg struct {
	kind int
	text string // static text
	name string // parameter name
	verb string // with the colon
}

func (s seg) String() string {
	switch s.kind {
	case kVerb:
		return ":" + s.name + s.verb
	case kParam:
		return ":" + s.name
	case kWild:
		return "*:" + s.name
	}
	return s.text
}

type template []seg

func (t template) String() string {
	if len(t) == 0 {
		return "/"
	}
	var b strings.Builder
	for _, s := range t {
		b.WriteString("/" + s.String())
	}
	return b.String()
}

// match gives the captures in order and the rank vector.
func (t template) match(path []string) (caps []string, rank []int, ok bool) {
	for i, s := range t {
		if s.kind == kWild {
			if i >= len(path) {
				return nil, nil, false
			}
			return append(caps, strings.Join(path[i:], "/")), append(rank, kWild*1000), true
		}
		if i >= len(path) {
			return nil, nil, false
		}
		p := path[i]
		switch s.kind {
		case kStatic:
			if p != s.text {
				return nil, nil, false
			}
		case kVerb:
			if len(p) < len(s.verb) || p[len(p)-len(s.verb):] != s.verb {
				return nil, nil, false
			}
			caps = append(caps, p[:len(p)-len(s.verb)])
		case kParam:
			caps = append(caps, p)
		}
		rank = append(rank, s.kind*1000-len(s.verb)) // the longer verb is the more specific
	}
	return caps, rank, len(path) == len(t)
}

func (t template) names() (ns []string) {
	for _, s := range t {
		if s.kind != kStatic {
			ns = append(ns, s.name)
		}
	}
	return
}

// choose picks the most specific matching template.
func choose(ts []template, path []string) (best int, caps []string, matching int) {
	best = -1
	var br []int
	for i, t := range ts {
		c, r, ok := t.match(path)
		if !ok {
			continue
		}
		matching++
		if best < 0 || less(r, br) {
			best, br, caps = i, r, c
		}
	}
	return
}

func less(a, b []int) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

// clean is the documented meaning of a request path, written independently.
func clean(p string) []string {
	var out []string
	for _, s := range strings.Split(p, "/") {
		switch s {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, s)
		}
	}
	return out
}

// ---- generators ------------------------------------------------------------

var statics = []string{"a", "b", "ab", "c", "user", "a:go", "x.y", "*", "é", "10%", "a;b"}
var verbs = []string{":go", ":undo", ":x1", ":a:b", ":b"}

// nameAt fixes one parameter name per position of the tree, so that tables
// are valid by construction.
func nameAt(prefix template, kind int) string {
	h := 0
	for _, c := range prefix.String() {
		h = (h*31 + int(c)) % 97
	}
	n := fmt.Sprintf("p%d%c", len(prefix), 'a'+rune(h%3))
	if kind == kWild {
		n = "w" + n
	}
	return n
}

// genTemplate draws a template; few literals, so that templates collide.
func genTemplate(t *rapid.T, maxDepth int) template {
	n := rapid.IntRange(1, maxDepth).Draw(t, "depth")
	tp := template{}
	for i := 0; i < n; i++ {
		k := h.Pick(t, "kind", kStatic, kStatic, kStatic, kParam, kParam, kVerb, kWild)
		if k == kWild && i != n-1 {
			if h.Pct(t, 60, "wild ends early") {
				tp = append(tp, seg{kind: kWild, name: nameAt(tp, kWild)})
				return tp
			}
			k = kStatic
		}
		s := seg{kind: k}
		switch k {
		case kStatic:
			s.text = genStatic(t)
		case kVerb:
			s.name, s.verb = nameAt(tp, kParam), rapid.SampledFrom(verbs).Draw(t, "verb")
		default:
			s.name = nameAt(tp, k)
		}
		tp = append(tp, s)
	}
	return tp
}

func genStatic(t *rapid.T) string {
	if h.Pct(t, 80, "common literal") {
		return rapid.SampledFrom(statics[:3]).Draw(t, "lit")
	}
	return rapid.SampledFrom(statics).Draw(t, "lit")
}

func genTable(t *rapid.T, max, depth int) []template {
	n := rapid.IntRange(1, max).Draw(t, "routes")
	var ts []template
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		var tp template
		if len(ts) > 0 && h.Pct(t, 50, "derive") {
			// vary an existing template at one position, keeping the rest
			// valid: re-generate the tail from that position on
			src := rapid.SampledFrom(ts).Draw(t, "from")
			cut := rapid.IntRange(0, len(src)).Draw(t, "cut")
			if cut > 0 && src[cut-1].kind == kWild {
				cut--
			}
			tp = append(template{}, src[:cut]...)
			tp = extend(t, tp, depth)
		} else {
			tp = genTemplate(t, depth)
		}
		if len(tp) == 0 || seen[tp.String()] {
			continue
		}
		seen[tp.String()] = true
		ts = append(ts, tp)
	}
	return ts
}

func extend(t *rapid.T, tp template, depth int) template {
	for len(tp) < depth {
		k := h.Pick(t, "kind", kStatic, kStatic, kParam, kParam, kVerb, kWild, -1)
		if k == -1 {
			break
		}
		s := seg{kind: k}
		switch k {
		case kStatic:
			s.text = genStatic(t)
		case kVerb:
			s.name, s.verb = nameAt(tp, kParam), rapid.SampledFrom(verbs).Draw(t, "verb")
		default:
			s.name = nameAt(tp, k)
		}
		tp = append(tp, s)
		if k == kWild {
			break
		}
	}
	return tp
}

var values = []string{"a", "b", "ab", "c", "10", "user", "x.y", "é", "a:go", "10:undo", "b:x1", "x:a:b", ":go", "z z", "a:", ":", "x::", "...", "*", "10%", ":p0a", "*:wp0a", "%2F", "a;b", ";", "a=b", "a+b", "a,b", "~", "a&b", "@"}

// genPath draws a request path near the table; the segments and one raw
// spelling of it.
func genPath(t *rapid.T, ts []template) (segs []string) {
	if len(ts) > 0 && h.Pct(t, 85, "near") {
		tp := rapid.SampledFrom(ts).Draw(t, "like")
		for _, s := range tp {
			switch s.kind {
			case kStatic:
				segs = append(segs, s.text)
			case kVerb:
				v := ""
				if h.Pct(t, 90, "value") {
					v = rapid.SampledFrom(values).Draw(t, "v")
				}
				segs = append(segs, v+s.verb)
			case kParam:
				segs = append(segs, genValue(t, ts))
			case kWild:
				tail := rapid.IntRange(1, 3).Draw(t, "tail")
				if h.Pct(t, 2, "deep") {
					tail = rapid.IntRange(20, 200).Draw(t, "deep tail")
				}
				for i := tail; i > 0; i-- {
					segs = append(segs, genValue(t, ts))
				}
			}
		}
		// mutate
		mut := h.Pick(t, "mutation", "no", "no", "no", "replace", "drop", "add", "case")
		if len(segs) == 0 {
			mut = "no"
		}
		switch mut {
		case "replace":
			segs[rapid.IntRange(0, len(segs)-1).Draw(t, "at")] = genValue(t, ts)
		case "case":
			i := rapid.IntRange(0, len(segs)-1).Draw(t, "at")
			if up := strings.ToUpper(segs[i]); up != segs[i] {
				segs[i] = up
			} else {
				segs[i] = strings.ToLower(segs[i])
			}
		case "drop":
			segs = segs[:len(segs)-1]
		case "add":
			segs = append(segs, genValue(t, ts))
		}
		return
	}
	for i := rapid.IntRange(0, 5).Draw(t, "len"); i > 0; i-- {
		segs = append(segs, genValue(t, ts))
	}
	return
}

func genValue(t *rapid.T, ts []template) string {
	if h.Pct(t, 15, "free") {
		s := rapid.StringMatching(`[a-c:.\-_ é]{1,6}`).Draw(t, "val")
		if s == "." || s == ".." || strings.TrimSpace(s) != s {
			return "q"
		}
		return s
	}
	return rapid.SampledFrom(values).Draw(t, "val")
}

// spell writes the segments in one of the spellings that clean to them.
func spell(t *rapid.T, segs []string) string {
	if h.Pct(t, 60, "plain") {
		return "/" + strings.Join(segs, "/")
	}
	var b strings.Builder
	for _, s := range segs {
		switch h.Pick(t, "noise", "", "", "/", "/.", "/zz/..", "//./") {
		case "/":
			b.WriteString("/")
		case "/.":
			b.WriteString("/.")
		case "/zz/..":
			b.WriteString("/zz/..")
		case "//./":
			b.WriteString("//.")
		}
		b.WriteString("/" + s)
	}
	b.WriteString(h.Pick(t, "end", "", "/", "//", "/."))
	if b.Len() == 0 {
		return "/"
	}
	return b.String()
}

// escape writes a path with some of its bytes, slashes too, percent-encoded.
func escape(t *rapid.T, p string) string {
	pct := h.Pick(t, "escapes", 5, 30, 100)
	var b strings.Builder
	for i := 0; i < len(p); i++ {
		ch := p[i]
		plain := ch >= 'a' && ch <= 'z' || ch >= '0' && ch <= '9' || ch == '/'
		if !plain || i > 0 && h.Pct(t, pct, "esc") {
			fmt.Fprintf(&b, "%%%02X", ch)
		} else {
			b.WriteByte(ch)
		}
	}
	return b.String()
}

// seen is what a handler notes about its request.
type seen struct {
	id   string
	path string
	keys []string
	vals []string
}

func (s seen) String() string {
	return fmt.Sprintf("%s path=%s keys=%q vals=%q", s.id, s.path, s.keys, s.vals)
}

// probe is a handler that notes what it sees.
func probe(id string, out *[]seen) func(*strip.RouteInfo) {
	return func(i *strip.RouteInfo) {
		s := seen{id: id, path: i.Path, keys: append([]string{}, i.Keys...)}
		for _, k := range i.Keys {
			s.vals = append(s.vals, strings.Join(i.Values[k], "|"))
		}
		if len(i.Values) != len(i.Keys) {
			s.id += fmt.Sprintf(" (values %v, keys %v)", i.Values, i.Keys)
		}
		*out = append(*out, s)
	}
}
