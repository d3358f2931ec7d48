package injectx

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/wujiu2020/strip/inject"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
)

// TestI02 decides success by looking at the graph only.
func TestI02(t *testing.T) {
	h.Check(t, h.Spec{ID: "I02", Quick: 6000, Thorough: 150000,
		Rule: "random dependency graphs of up to 14 constructors and values over types and names, spread over an injector and up to two parents, resolved in a generated order; success is predicted from missing nodes, panicking nodes and cycles reachable from the request. Non-trivial: the reachable part has three constructors."},
		func(c *h.C) {
			w := &world{c: c}
			w.add(-1)
			depth := rapid.IntRange(0, 2).Draw(c.T, "depth")
			for i := 0; i < depth; i++ {
				w.add(i)
			}
			leaf := depth
			n, most := rapid.IntRange(2, 14).Draw(c.T, "nodes"), 3
			if h.Pct(c.T, 4, "large") {
				n, most = rapid.IntRange(15, 90).Draw(c.T, "nodes"), 9
			}
			from := seq(8)
			if h.Pct(c.T, 30, "interfaces") {
				from = nil
				for i, b := range bases {
					if b.typ.Kind() == reflect.Interface || i < 2 && h.Pct(c.T, 50, "a struct too") {
						from = append(from, i)
					}
				}
			}
			var keys []key
			for i := 0; i < n; i++ {
				// structs and interfaces only: everything is assignable
				keys = append(keys, key{from[i%len(from)], strings.Repeat("x", i/len(from))})
			}
			backPct := h.Pick(c.T, "back edges", 0, 0, 5, 30)
			missPct := h.Pick(c.T, "missing", 0, 0, 5, 15)
			deps := map[key][]key{}
			missing, panics, value := map[key]bool{}, map[key]bool{}, map[key]bool{}
			for _, i := range rapid.Permutation(seq(n)).Draw(c.T, "order") {
				k := keys[i]
				if h.Pct(c.T, missPct, "miss") {
					missing[k] = true
					continue
				}
				at := rapid.IntRange(0, leaf).Draw(c.T, "at")
				if h.Pct(c.T, 10, "value") {
					value[k] = true
					w.provideValue(at, k)
					continue
				}
				var ws []want
				for d := rapid.IntRange(0, most).Draw(c.T, "deps"); d > 0; d-- {
					var j int
					if h.Pct(c.T, backPct, "back") {
						j = rapid.IntRange(0, i).Draw(c.T, "dep")
					} else if i+1 < n {
						j = rapid.IntRange(i+1, n-1).Draw(c.T, "dep")
					} else {
						continue
					}
					deps[k] = append(deps[k], keys[j])
					ws = append(ws, want{keys[j], bases[keys[j].base].typ})
				}
				w.provideCtor(at, k, ws)
				if w.mods[at].provs[k].panics {
					panics[k] = true
				}
			}
			// decide a request by the graph
			const white, grey, black = 0, 1, 2
			predict := func(start []key) (ok bool, ctors int, why map[string]bool) {
				color := map[key]int{}
				why = map[string]bool{}
				var visit func(k key)
				visit = func(k key) {
					if missing[k] {
						why["missing"] = true
						return
					}
					if value[k] {
						return
					}
					switch color[k] {
					case grey:
						why["cycle"] = true
						return
					case black:
						return
					}
					color[k] = grey
					ctors++
					if panics[k] {
						why["panic"] = true
					}
					for _, d := range deps[k] {
						visit(d)
					}
					color[k] = black
				}
				for _, s := range start {
					visit(s)
				}
				return len(why) == 0, ctors, why
			}
			big := false
			runs := map[string]int{}
			for r := rapid.IntRange(1, 4).Draw(c.T, "requests"); r > 0; r-- {
				var ks []key
				var ws []want
				kind := h.Pick(c.T, "request", "find", "invoke")
				m := 1
				if kind == "invoke" {
					m = rapid.IntRange(1, 3).Draw(c.T, "params")
				}
				for ; m > 0; m-- {
					k := rapid.SampledFrom(keys).Draw(c.T, "key")
					ks = append(ks, k)
					ws = append(ws, want{k, bases[k.base].typ})
				}
				ok, ctors, why := predict(ks)
				big = big || ctors >= 3
				var err error
				var p interface{}
				ran := false
				w.runs = nil
				h.Within("resolving", func() {
					p = h.Try(func() {
						if kind == "find" {
							dst := newOf(ws[0])
							err = w.injs[leaf].Find(dst, ks[0].name)
						} else {
							_, err = w.injs[leaf].Invoke(w.function(ws, nil, func([]int) []rv { ran = true; return nil }))
						}
					})
				})
				w.log = append(w.log, fmt.Sprintf("%s %v", kind, ws))
				if p != nil {
					if !why["panic"] {
						c.Fatalf("%s\npanicked: %v", w, p)
					}
				} else if (err == nil) != ok {
					c.Fatalf("%s\nerror %v; the graph says %v", w, err, why)
				}
				if kind == "invoke" && ran != (err == nil && p == nil) {
					c.Fatalf("%s\ncalled %v with error %v", w, ran, err)
				}
				for _, x := range w.runs {
					x = x[:strings.Index(x, "[")]
					runs[x]++
					if runs[x] > 1 && p == nil && len(panics) == 0 {
						c.Fatalf("%s\n%s ran %d times", w, x, runs[x])
					}
				}
				for y := range why {
					c.Label("%s", y)
				}
				if ok {
					c.Label("complete")
				}
			}
			// the injector stays usable
			k := key{10, "fresh"}
			w.provideValue(leaf, k)
			if err := w.injs[leaf].Find(newOf(want{k, bases[10].typ}), "fresh"); err != nil {
				c.Fatalf("%s\nafterwards: %v", w, err)
			}
			if big {
				c.NonTrivial(w.String())
			}
		})
}

// TestI02_chain resolves long chains through many injectors.
func TestI02_chain(t *testing.T) {
	h.Check(t, h.Spec{ID: "I02", Quick: 300, Thorough: 4000,
		Rule: "a chain of 10-300 constructors, each of an array type of its own length and asking for the next one, dealt to up to 40 nested injectors, ending in a value, nothing or one of the chain. Non-trivial: every case."},
		func(c *h.C) {
			n := rapid.IntRange(10, h.Pick(c.T, "up to", 20, 40, 300)).Draw(c.T, "length")
			levels := rapid.IntRange(1, h.Pick(c.T, "levels up to", 1, 4, 40)).Draw(c.T, "levels")
			injs := []inject.Injector{inject.New()}
			for len(injs) < levels {
				injs = append(injs, inject.New().SetParent(injs[len(injs)-1]).(inject.Injector))
			}
			leaf := injs[levels-1]
			typ := func(i int) reflect.Type { return reflect.PtrTo(reflect.ArrayOf(i+1, reflect.TypeOf(0))) }
			at := func() inject.Injector { return injs[rapid.IntRange(0, levels-1).Draw(c.T, "at")] }
			runs := make([]int, n)
			end := h.Pick(c.T, "end", "value", "nothing", "cycle")
			for i := range runs {
				i := i
				next := i + 1
				if next == n && end == "cycle" {
					next = rapid.IntRange(0, n-1).Draw(c.T, "back to")
				}
				at().Provide(reflect.MakeFunc(reflect.FuncOf([]reflect.Type{typ(next)}, []reflect.Type{typ(i)}, false), func(in []reflect.Value) []reflect.Value {
					runs[i]++
					out := reflect.New(typ(i).Elem())
					out.Elem().Index(0).SetInt(in[0].Elem().Index(0).Int() + 1)
					return []reflect.Value{out}
				}).Interface())
			}
			if end == "value" {
				v := reflect.New(typ(n).Elem())
				v.Elem().Index(0).SetInt(1000)
				at().Provide(v.Interface())
			}
			from := rapid.IntRange(0, n/2).Draw(c.T, "from")
			what := fmt.Sprintf("chain of %d from %d through %d injectors ending in %s", n, from, levels, end)
			for k := 0; k < 2; k++ {
				dst := reflect.New(typ(from))
				var err error
				h.Within(what, func() { err = leaf.Find(dst.Interface()) })
				if (err == nil) != (end == "value") {
					c.Fatalf("%s: %v", what, err)
				}
				for i, r := range runs {
					if end != "value" && r > 0 || i >= from && end == "value" && r != 1 || i < from && r != 0 {
						c.Fatalf("%s: constructor %d ran %d times", what, i, r)
					}
				}
				if err == nil {
					if got := dst.Elem().Elem().Index(0).Int(); got != int64(1000+n-from) {
						c.Fatalf("%s: value %d", what, got)
					}
				}
			}
			c.Label("%s", end)
			c.NonTrivial(what)
		})
}

func seq(n int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = i
	}
	return s
}

// TestI02_reprovide looks for cycles made by providing again what had been
// resolved, asked for through a fresh child.
func TestI02_reprovide(t *testing.T) {
	h.Check(t, h.Spec{ID: "I02", Quick: 3000, Thorough: 60000,
		Rule: "rounds of providing constructors over few types again after they had been resolved, each followed by requests through new child injectors, compared with the reference model. Non-trivial: a request that worked before fails by a new cycle or the reverse."},
		func(c *h.C) {
			w := &world{c: c}
			w.add(-1)
			n := rapid.IntRange(2, 4).Draw(c.T, "types")
			last := map[key]bool{}
			flip := false
			for r := rapid.IntRange(2, 6).Draw(c.T, "rounds"); r > 0; r-- {
				for p := rapid.IntRange(1, n).Draw(c.T, "provide"); p > 0; p-- {
					k := key{rapid.IntRange(0, n-1).Draw(c.T, "k"), ""}
					if h.Pct(c.T, 30, "value") {
						w.provideValue(0, k)
						continue
					}
					var ws []want
					for d := rapid.IntRange(0, 2).Draw(c.T, "deps"); d > 0; d-- {
						ws = append(ws, genWant(c.T, key{rapid.IntRange(0, n-1).Draw(c.T, "dep"), ""}))
					}
					w.provideCtor(0, k, ws)
				}
				at := 0
				if h.Pct(c.T, 80, "child") {
					w.add(0)
					at = len(w.injs) - 1
				}
				k := key{rapid.IntRange(0, n-1).Draw(c.T, "ask"), ""}
				before := w.errs
				w.find(at, want{k, bases[k.base].typ})
				ok := w.errs == before
				if l, had := last[k]; had && l != ok {
					flip = true
				}
				last[k] = ok
			}
			c.Label("flip %v", flip)
			if flip {
				c.NonTrivial(w.String())
			}
		})
}
