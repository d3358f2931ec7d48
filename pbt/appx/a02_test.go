package appx

import (
	"context"
	"errors"
	"fmt"
	"log"
	"net/http"
	"strings"
	"testing"
	"time"

	"github.com/wujiu2020/strip"
	reqlogger "github.com/wujiu2020/strip/request-logger"
	"github.com/wujiu2020/strip/utils"
	"github.com/wujiu2020/strip/utils/helpers"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
)

// node is what the model knows of one context.
type node struct {
	parent *node
	ref    **node      // stands for whatever that cell holds at the moment
	key    interface{} // value node: the key, or the sample of the attached type
	val    interface{}
	cancel context.CancelFunc // cancellable node
	can    bool
	up     *node // nearest cancellable ancestor when it was made
	err    error
	dead   time.Time
}

func (n *node) next() *node {
	if n.ref != nil {
		return *n.ref
	}
	return n.parent
}

func (n *node) value(k interface{}) interface{} {
	for ; n != nil; n = n.next() {
		if n.key == k {
			return n.val
		}
	}
	return nil
}

func (n *node) canceller() *node {
	for ; n != nil; n = n.next() {
		if n.can {
			return n
		}
	}
	return nil
}

func (n *node) error() error {
	if m := n.canceller(); m != nil {
		return m.err
	}
	return nil
}

func (n *node) deadline() (d time.Time, ok bool) {
	for ; n != nil; n = n.next() {
		if !n.dead.IsZero() {
			return n.dead, true
		}
	}
	return
}

type plainKey string
type otherKey string

// typed values, found by type
type tagA struct{ s string }
type tagB struct{ s string }

// ctxRun is one request.
type ctxRun struct {
	all   []*node // cancellable nodes, in order of making
	g     *node   // the application's chain
	n     *node   // the route's chain
	inN   bool
	r     *node // of the injected request
	count int
	trace []string
	bad   string
	done  map[string]bool // participants that ran
	logs  map[*node]strip.Logger
}

func (x *ctxRun) note(f string, a ...interface{}) { x.trace = append(x.trace, fmt.Sprintf(f, a...)) }

func (x *ctxRun) fail(f string, a ...interface{}) {
	if x.bad == "" {
		x.bad = fmt.Sprintf(f, a...)
	}
}

func (x *ctxRun) stop(n *node, err error) {
	for _, d := range x.all {
		for p := d; p != nil; p = p.up {
			if p == n && d.err == nil {
				d.err = err
			}
		}
	}
}

var keys = []interface{}{plainKey("a"), plainKey("b"), otherKey("a"), "a", 7}
var typedKeys = []string{"tagA", "tagB", "tagB/x"}

// extend makes one more layer over a Go context and its model.
func (x *ctxRun) extend(op string, i int, gc context.Context, n *node) (context.Context, *node) {
	x.count++
	v := fmt.Sprintf("v%d", x.count)
	switch op {
	case "value":
		k := keys[i%len(keys)]
		return context.WithValue(gc, k, v), &node{parent: n, key: k, val: v}
	case "typed":
		switch k := typedKeys[i%len(typedKeys)]; k {
		case "tagA":
			return utils.CtxWithValue(gc, &tagA{v}), &node{parent: n, key: k, val: v}
		case "tagB":
			return utils.CtxWithValue(gc, &tagB{v}), &node{parent: n, key: k, val: v}
		default:
			return utils.CtxWithValue(gc, &tagB{v}, "x"), &node{parent: n, key: k, val: v}
		}
	case "cancellable":
		c, cancel := context.WithCancel(gc)
		m := &node{parent: n, can: true, cancel: cancel, up: n.canceller(), err: n.error()}
		x.all = append(x.all, m)
		return c, m
	case "deadline":
		d := time.Now().Add(time.Hour + time.Duration(i)*time.Minute)
		if i%5 == 0 {
			d = time.Now().Add(-time.Minute)
		}
		c, cancel := context.WithDeadline(gc, d)
		m := &node{parent: n, can: true, cancel: cancel, up: n.canceller(), err: n.error(), dead: d}
		if pd, ok := n.deadline(); ok && pd.Before(d) {
			m.dead = time.Time{}
		}
		if i%5 == 0 && m.err == nil {
			m.err = context.DeadlineExceeded
		}
		x.all = append(x.all, m)
		return c, m
	case "logger":
		l := strip.NewLogger(log.New(new(h.Sink), v, 0))
		m := &node{parent: n, key: "logger", val: strip.Logger(l)}
		return helpers.WithLogger(gc, l), m
	case "fresh":
		return context.Background(), nil
	}
	panic(op)
}

// check compares everything a context can be asked.
func (x *ctxRun) check(where string, gc context.Context, n *node) {
	for _, k := range keys {
		if got, want := gc.Value(k), n.value(k); got != want {
			x.fail("%s: value of %T %v is %v, want %v", where, k, k, got, want)
		}
	}
	var a tagA
	var b, bx tagB
	for i, e := range []error{utils.CtxFindValue(gc, &a), utils.CtxFindValue(gc, &b), utils.CtxFindValue(gc, &bx, "x")} {
		got, want := []string{a.s, b.s, bx.s}[i], n.value(typedKeys[i])
		if want == nil && e == nil || want != nil && (e != nil || got != want) {
			x.fail("%s: %s is %q (%v), want %v", where, typedKeys[i], got, e, want)
		}
	}
	want := n.error()
	if got := gc.Err(); !errors.Is(got, want) {
		x.fail("%s: Err is %v, want %v", where, got, want)
	}
	select {
	case <-gc.Done():
		if want == nil {
			x.fail("%s: is done, and should not be", where)
		}
	default:
		if want != nil {
			x.fail("%s: is not done, want %v", where, want)
		}
	}
	d, ok := gc.Deadline()
	if wd, wok := n.deadline(); ok != wok || !d.Equal(wd) {
		x.fail("%s: deadline %v %v, want %v %v", where, d, ok, wd, wok)
	}
	wl := n.value("logger")
	if wl == nil {
		wl = helpers.X
	}
	if got := helpers.GetLogger(gc); got != wl {
		if _, any := wl.(anyLogger); !any || got == strip.Logger(helpers.X) {
			x.fail("%s: GetLogger gives %v, want %v", where, got, wl)
		}
	}
	// a child made of it
	sub, cancel := context.WithCancel(gc)
	if want != nil {
		select {
		case <-sub.Done():
		case <-time.After(20 * time.Second):
			x.fail("%s: a context derived from it is not done", where)
		}
	} else if sub.Err() != nil {
		x.fail("%s: a context derived from it is done: %v", where, sub.Err())
	}
	cancel()
}

// anyLogger stands for the logger a request logger filter made.
type anyLogger struct{}

type ctxOp struct {
	op string
	i  int
}

type part struct {
	id     string
	before []ctxOp
	next   bool
	after  []ctxOp
}

func (p part) String() string { return fmt.Sprintf("%s%v next=%v %v", p.id, p.before, p.next, p.after) }

func (x *ctxRun) do(p part, ops []ctxOp, ctx strip.Context, req *http.Request, inN bool) *http.Request {
	cell := &x.g
	if inN {
		cell = &x.n
	}
	for _, o := range ops {
		x.note("%s %s %d", p.id, o.op, o.i)
		switch o.op {
		case "check":
			x.check(p.id+" ctx", ctx, *cell)
			if gc := ctx.GetContext(); gc != nil {
				x.check(p.id+" GetContext", gc, *cell)
			}
			var fresh *http.Request
			if err := ctx.Find(&fresh); err != nil {
				x.fail("%s: no request: %v", p.id, err)
			} else {
				x.check(p.id+" request", fresh.Context(), x.r)
			}
			var app strip.Context
			if err := utils.CtxFindValue(req.Context(), &app); err == nil {
				x.check(p.id+" application context of the request", app, x.g)
			} else if x.r.value("app") != nil {
				x.fail("%s: the request's context does not lead to the application's: %v", p.id, err)
			}
		case "cancel":
			// something cancellable that exists, the incoming request included
			if len(x.all) > 0 {
				m := x.all[o.i%len(x.all)]
				m.cancel()
				x.stop(m, context.Canceled)
			}
		case "request":
			// the request goes on with what the context knows
			gc, m := x.extend("value", o.i, ctx, &node{ref: cell})
			req = req.WithContext(gc)
			ctx.Provide(req)
			x.r = m
		case "request+":
			// the request gets one more value of its own
			gc, m := x.extend("typed", o.i, req.Context(), x.r)
			req = req.WithContext(gc)
			ctx.Provide(req)
			x.r = m
		default:
			gc, m := x.extend(o.op, o.i, ctx.GetContext(), *cell)
			ctx.ReplaceContext(gc)
			*cell = m
		}
	}
	return req
}

func (x *ctxRun) serve(p part, inN bool, ctx strip.Context, req *http.Request) {
	if x.done[p.id] {
		x.fail("%s runs twice", p.id)
	}
	x.done[p.id] = true
	if inN && !x.inN {
		x.inN, x.n = true, &node{ref: &x.g}
	}
	req = x.do(p, p.before, ctx, req, inN)
	if p.next && !ctx.Written() {
		ctx.Next()
		// the request may be another by now
		ctx.Find(&req)
		x.do(p, p.after, ctx, req, inN)
	}
}

type ctlA02 struct {
	Ctx strip.Context `inject`
	Req *http.Request `inject`
	X   *ctxRun       `inject`
	P   *part         `inject`
}

func (c *ctlA02) Get() { c.X.serve(*c.P, true, c.Ctx, c.Req) }

func genOps(t *rapid.T, label string) []ctxOp {
	ops := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) ctxOp {
		return ctxOp{h.Pick(t, "op", "value", "value", "typed", "typed", "cancellable", "deadline", "logger", "fresh", "cancel", "request", "request+", "check"), rapid.IntRange(0, 9).Draw(t, "i")}
	}), 0, 4).Draw(t, label)
	return append(ops, ctxOp{op: "check"})
}

func genPart(t *rapid.T, id string) part {
	p := part{id: id, before: genOps(t, "before "+id), next: h.Pct(t, 40, "next "+id)}
	if p.next {
		p.after = genOps(t, "after "+id)
	}
	return p
}

func TestA02(t *testing.T) {
	h.Check(t, h.Spec{ID: "A02", Quick: 6000, Thorough: 200000,
		Rule: "1-2 requests whose own context has values, a deadline or is cancelled at some point, served by 0-3 application filters, 0-2 route filters, a function or controller (or not-found handlers), the request logger somewhere among them or not, the application possibly mounted in another one; everyone extends, replaces and cancels the context and the request and looks at all keys, types, logger, deadline and cancellation through the context, the request and the application context; compared with a linked-list model. Non-trivial: somebody else's change is visible to a later participant.",
	}, func(c *h.C) {
		mount := h.Pct(c.T, 20, "mounted")
		kind := h.Pick(c.T, "kind", "func", "func", "struct", "missing")
		var app, route []part
		for i := rapid.IntRange(0, 3).Draw(c.T, "app filters"); i > 0; i-- {
			app = append(app, genPart(c.T, fmt.Sprintf("app%d", len(app))))
		}
		for i := rapid.IntRange(0, 2).Draw(c.T, "route filters"); i > 0; i-- {
			route = append(route, genPart(c.T, fmt.Sprintf("route%d", len(route))))
		}
		last := genPart(c.T, "last")
		last.next = false
		logAt := -1
		if h.Pct(c.T, 40, "request logger") {
			logAt = rapid.IntRange(0, len(app)).Draw(c.T, "logger at")
		}
		n := rapid.IntRange(1, 2).Draw(c.T, "requests")
		base := make([][]ctxOp, n)
		for i := range base {
			base[i] = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) ctxOp {
				return ctxOp{h.Pick(t, "op", "value", "typed", "cancellable", "deadline", "logger"), rapid.IntRange(0, 9).Draw(t, "i")}
			}), 0, 3).Draw(c.T, "base")
		}

		var x *ctxRun
		mk := func(p part, inN bool) interface{} {
			return func(ctx strip.Context, req *http.Request) { x.serve(p, inN, ctx, req) }
		}
		sp, _ := h.App()
		logger := func() {
			sp.Filter(reqlogger.ReqLoggerFilter(log.New(new(h.Sink), "", 0)))
			sp.Filter(func(ctx strip.Context) {
				// what the request logger leaves behind
				x.g = &node{parent: x.g, key: "logger", val: anyLogger{}}
				x.r = &node{parent: x.r, key: "logger", val: anyLogger{}}
			})
		}
		for i, p := range app {
			if i == logAt {
				logger()
			}
			sp.Filter(mk(p, false))
		}
		if logAt == len(app) {
			logger()
		}
		sp.Provide(&last)
		var hd interface{} = mk(last, true)
		if kind == "struct" {
			hd = ctlA02{}
		}
		m := strip.Get(hd)
		for _, p := range route {
			m = m.Filter(mk(p, true))
		}
		sp.Routers(strip.Router("/r", m))
		sp.NotFound(mk(part{id: "nf0", before: []ctxOp{{op: "check"}, {op: "value", i: 1}}}, true), mk(last, true))
		sp.Filter(func(ctx strip.Context) { ctx.Provide(x) })

		var srv http.Handler = sp
		if mount {
			outer, _ := h.App()
			outer.Filter(func(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
				gc, nn := x.extend("value", 3, req.Context(), x.g)
				x.g, x.r = nn, nn
				sp.ServeHTTP(rw, req.WithContext(gc))
			})
			srv = outer
		}
		desc := fmt.Sprintf("%s mounted %v, logger at %d, filters %v %v, handler %v, incoming %v", kind, mount, logAt, app, route, last, base)
		changes := 0
		for i := 0; i < n; i++ {
			x = &ctxRun{done: map[string]bool{}}
			gc, root := context.Background(), (*node)(nil)
			for _, o := range base[i] {
				gc, root = x.extend(o.op, o.i, gc, root)
			}
			// from here on the request leads to the application
			x.g = &node{parent: root, key: "app", val: true}
			x.r = x.g
			req := h.Req("GET", "/"+strings.ReplaceAll(map[bool]string{true: "nowhere", false: "r"}[kind == "missing"], " ", "")).WithContext(gc)
			var e interface{}
			h.Within(desc, func() { e = h.Try(func() { h.Do(srv, req) }) })
			for _, a := range x.all {
				a.cancel()
			}
			if e != nil {
				c.Fatalf("%s: request %d panics: %v after %q", desc, i, e, x.trace)
			}
			if x.bad != "" {
				c.Fatalf("%s: request %d: %s\nafter %q", desc, i, x.bad, x.trace)
			}
			if !x.done["last"] {
				c.Fatalf("%s: request %d: the handler did not run", desc, i)
			}
			changes += x.count
		}
		c.Label("%s", kind)
		c.Label("logger %v", logAt >= 0)
		if changes > 0 && len(app)+len(route) > 0 {
			c.NonTrivial(desc)
		}
	})
}
