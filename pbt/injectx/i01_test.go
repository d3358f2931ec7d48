package injectx

import (
	"testing"

	"github.com/wujiu2020/strip/inject"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
)

func TestI01(t *testing.T) {
	h.Check(t, h.Spec{ID: "I01", Quick: 6000, Thorough: 150000, Steps: 25,
		Rule: "histories of providing values and constructors (named and unnamed, as interfaces, as plain values or pointers, constructors with dependencies that panic or give nil) in a tree of injectors, and of Find, Exists and Invoke; every result, every constructor run with its arguments and every panic is compared with a reference model. Non-trivial: a request ran more than one constructor."},
		func(c *h.C) {
			w := &world{c: c}
			w.add(-1)
			pool := rapid.IntRange(2, nBases).Draw(c.T, "pool")
			// a pool of similar types anywhere in the list
			from := rapid.IntRange(0, nBases-pool).Draw(c.T, "from")
			gk := func() key { k := genKey(c.T, pool); k.base += from; return k }
			pick := func() int { return rapid.IntRange(0, len(w.injs)-1).Draw(c.T, "injector") }
			wants := func(max int) []want {
				var ws []want
				if h.Pct(c.T, 4, "many") {
					max = 9
				}
				for n := rapid.IntRange(0, max).Draw(c.T, "n"); n > 0; n-- {
					ws = append(ws, genWant(c.T, gk()))
				}
				return ws
			}
			c.Repeat(map[string]func(*rapid.T){
				"child": func(*rapid.T) {
					if len(w.injs) < 5 {
						w.log = append(w.log, "child")
						w.add(pick())
					}
				},
				"value":   func(*rapid.T) { w.provideValue(pick(), gk()) },
				"ctor":    func(*rapid.T) { w.provideCtor(pick(), gk(), wants(2)) },
				"ctor2":   func(*rapid.T) { w.provideCtor(pick(), gk(), wants(3)) },
				"find":    func(*rapid.T) { w.find(pick(), genWant(c.T, gk())) },
				"find2":   func(*rapid.T) { w.find(pick(), genWant(c.T, gk())) },
				"exists":  func(*rapid.T) { w.exists(pick(), gk()) },
				"invoke":  func(*rapid.T) { w.invoke(pick(), wants(3), wants(2)) },
				"invoke2": func(*rapid.T) { w.invoke(pick(), wants(1), wants(2)) },
			})
			c.Label("errors %v nested %v", w.errs > 0, w.nested > 0)
			if w.nested > 0 {
				c.NonTrivial(w.String())
			}
		})

	h.Example(t, "I01", "pointer forms", func(t *testing.T) {
		// a pointer to an interface value provides the interface
		inj := inject.New()
		var j J0 = &Impl{3}
		inj.Provide(&j)
		n := 0
		if _, err := inj.Invoke(func(j J0) { n = j.J0() }); err != nil || n != 3 {
			t.Fatal(n, err)
		}
	})
}
