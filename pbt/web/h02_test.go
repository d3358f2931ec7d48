package web

import (
	"errors"
	"fmt"
	"net/http"
	"strings"
	"testing"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/inject"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
)

type oddErr struct{ A, B string }

func (e oddErr) Error() string { return e.A + "%d<" + e.B }

type dep struct{ v int }

// bomb says where and with what a request panics.
type bomb struct {
	where  string // app filter, route filter, handler, provider, after next, not found, none
	state  string // what was answered before: nothing, status, body, flushed
	value  string
	marker string
	next   bool // whether the filters call Next
	code   int  // the status answered
	ctype  bool // a content type is set before
	noLog  bool // the logger of the request cannot be made
}

func (b bomb) String() string {
	return fmt.Sprintf("panic(%s) in %s after %s (next %v, code %d, content type %v, no logger %v)", b.value, b.where, b.state, b.next, b.code, b.ctype, b.noLog)
}

func (b bomb) answer(rw http.ResponseWriter) {
	if b.ctype {
		rw.Header().Set("Content-Type", "application/json")
	}
	switch b.state {
	case "status":
		rw.WriteHeader(b.code)
	case "body":
		rw.WriteHeader(b.code)
		rw.Write([]byte("partial"))
	case "flushed":
		rw.WriteHeader(b.code)
		rw.(http.Flusher).Flush()
	}
}

func (b bomb) explode() {
	switch b.value {
	case "string":
		panic(b.marker)
	case "error":
		panic(errors.New(b.marker))
	case "struct":
		panic(oddErr{b.marker, "%!s"})
	case "pointer":
		panic(&dep{7})
	case "int":
		panic(42)
	case "nil map":
		var m map[string]int
		m["x"] = 1
	case "index":
		var s []int
		_ = s[len(b.marker)]
	case "nil":
		panic(nil)
	case "abort":
		panic(http.ErrAbortHandler)
	case "func":
		panic(func() {})
	}
}

func TestH02(t *testing.T) {
	h.Check(t, h.Spec{ID: "H02", Quick: 1200, Thorough: 15000,
		Rule: "1-6 requests to an application with the recovery filter, each panicking (or not) with one of ten kinds of values at one of seven places after answering nothing, a status, a body or a flush, in dev, test or prod mode. Non-trivial: at least one panic followed by another request."},
		func(c *h.C) {
			sp, sink := h.App()
			mode := h.Pick(c.T, "mode", strip.Mode("prod"), strip.Mode("dev"), strip.Mode("test"), strip.Mode(""))
			sp.Config.RunMode = mode
			outer := rapid.IntRange(0, 2).Draw(c.T, "filters before")
			outerSaw := 0
			for i := 0; i < outer; i++ {
				id := i
				sp.Filter(func(ctx strip.Context) { _ = id; ctx.Next(); outerSaw++ })
			}
			if h.Pct(c.T, 30, "out filter outside") {
				sp.Filter(strip.GenericOutFilter())
			}
			sp.Filter(strip.RecoveryFilter())
			if h.Pct(c.T, 30, "out filter inside") {
				sp.Filter(strip.GenericOutFilter())
			}
			var cur bomb
			step := func(name string) func(ctx strip.Context, rw http.ResponseWriter) {
				return func(ctx strip.Context, rw http.ResponseWriter) {
					if cur.where == name {
						cur.answer(rw)
						cur.explode()
					}
					if cur.next {
						ctx.Next()
					}
					if cur.where == name+" after next" {
						// the rest of the chain has answered unless nothing did
						cur.explode()
					}
				}
			}
			type missing struct{}
			sp.Filter(func(ctx strip.Context) {
				if cur.noLog {
					ctx.ProvideAs(func(*missing) strip.Logger { return nil }, (*strip.Logger)(nil))
				}
			})
			sp.Filter(step("app filter"))
			sp.ProvideAs(inject.Provide{func() *dep {
				if cur.where == "provider" {
					cur.explode()
				}
				return &dep{1}
			}}, (*dep)(nil))
			sp.NotFound(func(rw http.ResponseWriter) {
				if cur.where == "not found" {
					cur.answer(rw)
					cur.explode()
				}
				rw.WriteHeader(404)
			})
			sp.Routers(strip.Router("/r", strip.Filter(step("route filter")),
				strip.Get(func(rw http.ResponseWriter, d *dep) string {
					if cur.where == "handler" {
						cur.answer(rw)
						cur.explode()
					}
					rw.Write([]byte(fmt.Sprint("fine", d.v)))
					return "ignored"
				})))
			var desc []string
			n := rapid.IntRange(1, 6).Draw(c.T, "requests")
			for i := 0; i < n; i++ {
				cur = bomb{
					where:  h.Pick(c.T, "where", "app filter", "route filter", "handler", "provider", "not found", "app filter after next", "route filter after next", "none"),
					state:  h.Pick(c.T, "state", "nothing", "nothing", "status", "body", "flushed"),
					value:  h.Pick(c.T, "value", "string", "error", "struct", "pointer", "int", "nil map", "index", "nil", "abort", "func"),
					next:   h.Pct(c.T, 50, "next"),
					marker: fmt.Sprintf("marker%d_%s", i, rapid.StringMatching(`[a-z]{3}`).Draw(c.T, "marker")),
				}
				cur.code = h.Pick(c.T, "code", 200, 201, 203, 302, 400, 404, 500, 503)
				cur.ctype = h.Pct(c.T, 30, "content type")
				cur.noLog = h.Pct(c.T, 10, "no logger")
				if strings.HasSuffix(cur.where, "after next") {
					cur.next = true
				}
				path := "/r"
				if cur.where == "not found" {
					path = "/missing"
				}
				if h.Pct(c.T, 15, "other mode") {
					mode = h.Pick(c.T, "new mode", strip.Mode("prod"), strip.Mode("dev"), strip.Mode("test"))
					sp.Config.RunMode = mode
				}
				desc = append(desc, fmt.Sprintf("%q: %v", mode, cur))
				sink.Take()
				outerSaw = 0
				var rec *h.Recorder
				if p := h.Try(func() { rec = h.Do(sp, h.Req("GET", path)) }); p != nil {
					c.Fatalf("%v: panic %v reached the server", desc, p)
				}
				logs := strings.Join(sink.Take(), "\n")
				// reference
				code, body := 200, "fine1"
				answered := cur.code
				if cur.state == "nothing" {
					answered = 0
				}
				panics := cur.where != "none"
				switch {
				case cur.where == "none" || strings.HasSuffix(cur.where, "after next"):
					// the handler had answered
				case cur.where == "provider" || answered == 0:
					code, body = 500, ""
					if mode == "dev" {
						body = "html"
					}
				default:
					code, body = answered, ""
					if cur.state == "body" {
						body = "partial"
					}
				}
				got := rec.Body.String()
				if body == "html" {
					if !strings.Contains(got, "<html>") || !strings.Contains(got, "PANIC") || !strings.HasPrefix(rec.Sent.Get("Content-Type"), "text/html") {
						c.Fatalf("%v: no development page but %q %q", desc, rec.Sent.Get("Content-Type"), got)
					}
					if cur.value == "string" && !strings.Contains(got, cur.marker) {
						c.Fatalf("%v: development page does not show %q", desc, cur.marker)
					}
				} else if got != body {
					c.Fatalf("%v: body %q, want %q", desc, got, body)
				}
				if rec.Code != code || rec.Commits != 1 || len(rec.Late) > 0 {
					c.Fatalf("%v: status %d (%d status lines %v), want %d", desc, rec.Code, rec.Commits, rec.Late, code)
				}
				if cur.noLog {
					c.Label("no logger")
				} else if panics {
					if !strings.Contains(logs, "PANIC") {
						c.Fatalf("%v: panic not logged: %q", desc, logs)
					}
					switch cur.value {
					case "string", "error", "struct":
						if !strings.Contains(logs, cur.marker) {
							c.Fatalf("%v: log does not show the panic value: %q", desc, logs)
						}
					}
				} else if strings.Contains(logs, "PANIC") {
					c.Fatalf("%v: panic logged: %q", desc, logs)
				}
				if outerSaw != outer {
					c.Fatalf("%v: %d of %d filters outside the recovery saw the end of the request", desc, outerSaw, outer)
				}
				c.Label("%s", cur.where)
				if panics && i < n-1 {
					c.NonTrivial(strings.Join(desc, "; "))
				}
			}
		})
}
