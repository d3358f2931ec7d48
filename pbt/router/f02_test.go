package router

import (
	"context"
	"fmt"
	"net/http"
	"strings"
	"testing"

	"github.com/wujiu2020/strip"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
)

// step is what one filter or handler does.
type step struct {
	id     string
	before string // what it answers before Next: "", "status", "body", "empty"
	next   int    // how often it calls Next
	after  string // what it answers after Next
}

func (s step) String() string {
	return fmt.Sprintf("%s(%s,%d,%s)", s.id, s.before, s.next, s.after)
}

type chainRun struct {
	trace []string
}

func (r *chainRun) answer(rw http.ResponseWriter, how string) {
	switch how {
	case "status":
		rw.WriteHeader(202)
	case "body":
		rw.Write([]byte("x"))
	case "empty":
		rw.Write(nil)
	}
}

func (r *chainRun) filter(s step) interface{} {
	return func(ctx strip.Context, rw http.ResponseWriter) {
		r.trace = append(r.trace, "+"+s.id)
		r.answer(rw, s.before)
		for i := 0; i < s.next && !ctx.Written(); i++ {
			ctx.Next()
			r.trace = append(r.trace, fmt.Sprintf("~%s:%v", s.id, ctx.Written()))
		}
		r.answer(rw, s.after)
		r.trace = append(r.trace, "-"+s.id)
	}
}

// model runs the same chain by the rules of the property.
type chainModel struct {
	trace   []string
	written bool
}

// run executes chain[i:] and then, if unanswered, tail (the route's chain).
func (m *chainModel) run(chain []step, tail func()) {
	i := 0
	var rest func()
	rest = func() {
		for i < len(chain) {
			if m.written {
				return
			}
			s := chain[i]
			i++
			m.trace = append(m.trace, "+"+s.id)
			if s.before != "" {
				m.written = true
			}
			for k := 0; k < s.next && !m.written; k++ {
				rest()
				m.trace = append(m.trace, fmt.Sprintf("~%s:%v", s.id, m.written))
			}
			if s.after != "" {
				m.written = true
			}
			m.trace = append(m.trace, "-"+s.id)
		}
		if i == len(chain) && !m.written && tail != nil {
			i++
			tail()
		}
	}
	rest()
}

func genStep(t *rapid.T, id string, handler bool) step {
	s := step{id: id}
	s.before = h.Pick(t, "before", "", "", "", "", "", "status", "body", "empty")
	if !handler {
		s.next = h.Pick(t, "next", 0, 0, 1, 1, 1, 2)
	}
	s.after = h.Pick(t, "after", "", "", "", "", "", "status", "body")
	return s
}

func TestF02(t *testing.T) {
	h.Check(t, h.Spec{ID: "F02", Quick: 15000, Thorough: 200000,
		Rule: "0-4 application filters, 0-4 route filters (application, group and method level) and a handler or 1-3 not-found handlers, each with a random plan of answering and calling Next; the enter/exit trace is compared with an interpreter of the rules. Non-trivial: Next was called somewhere and something answered before the end of the chain."},
		func(c *h.C) {
			run := new(chainRun)
			sp, _ := h.App()
			mk := func(kind string, max int) (ss []step) {
				for i := rapid.IntRange(0, max).Draw(c.T, kind); i > 0; i-- {
					s := genStep(c.T, fmt.Sprintf("%s%d", kind, len(ss)), false)
					ss = append(ss, s)
				}
				return
			}
			by := 1
			if h.Pct(c.T, 2, "long chains") {
				by = 30
			}
			app, group, meth := mk("app", 4*by), mk("group", 2*by), mk("meth", 2*by)
			nf := mk("nf", 3*by)
			handler := genStep(c.T, "handler", true)
			vals := func(ss []step) (vs []interface{}) {
				for _, s := range ss {
					vs = append(vs, run.filter(s))
				}
				return
			}
			sp.Filter(vals(app)...)
			sp.NotFound(vals(nf)...)
			mh := strip.Get(run.filter(handler))
			if len(meth) > 0 {
				mh = mh.Filter(vals(meth)...)
			}
			sp.Routers(strip.Router("/g", strip.Filter(vals(group)...), strip.Router("/r", mh)))

			for i := 0; i < 2; i++ {
				found := h.Pct(c.T, 70, "found")
				path, routeChain := "/g/r", append(append(append([]step{}, group...), meth...), handler)
				if !found {
					path, routeChain = h.Pick(c.T, "missing", "/", "/g", "/g/r/x", "/g/x"), nf
				}
				method := "GET"
				if found && h.Pct(c.T, 10, "method not found") {
					method, routeChain = "POST", nf
				}
				m := new(chainModel)
				m.run(app, func() { m.run(routeChain, nil) })
				run.trace = nil
				req := h.Req(method, path)
				if h.Pct(c.T, 15, "client gone") {
					// that is for the handlers to look after
					gone, cancel := context.WithCancel(req.Context())
					cancel()
					req = req.WithContext(gone)
				}
				rec := h.Do(sp, req)
				got, want := strings.Join(run.trace, " "), strings.Join(m.trace, " ")
				desc := fmt.Sprintf("%s: app %v, chain %v", path, app, routeChain)
				if got != want {
					c.Fatalf("%s\n got  %s\n want %s", desc, got, want)
				}
				if rec.Commits != 1 || len(rec.Late) != 0 {
					c.Fatalf("%s: %d commits, %v", desc, rec.Commits, rec.Late)
				}
				c.Label("found %v answered %v", found, m.written)
				if strings.Contains(want, "~") && m.written && len(m.trace) < 2*(len(app)+len(routeChain)) {
					c.NonTrivial(desc)
				}
			}
		})
}
