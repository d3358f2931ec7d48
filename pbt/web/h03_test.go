package web

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"reflect"
	"strings"
	"testing"

	"github.com/wujiu2020/strip"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
)

// body is a result value of one of the supported (and other) kinds.
type result struct {
	desc   string
	typ    reflect.Type // declared result type
	val    reflect.Value
	sent   string    // body expected
	status int       // status the value itself sets, 0 for none
	header [2]string // header the value itself sets
	closes *int      // Close calls, nil if it cannot be closed
	wantC  int
}

type closer struct {
	io.Reader
	n *int
}

func (c *closer) Close() error { *c.n++; return nil }

// lateErr is a reader that fails after its data.
type lateErr struct{ r io.Reader }

func (l *lateErr) Read(p []byte) (int, error) {
	n, err := l.r.Read(p)
	if err == io.EOF {
		err = errors.New("read failed")
	}
	return n, err
}

// bombReader panics after its data.
type bombReader struct{ r io.Reader }

func (b *bombReader) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if n == 0 && err != nil {
		panic("read")
	}
	return n, nil
}

type actionRes struct {
	body   string
	status int
}

func (a actionRes) Write(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
	rw.Header().Set("X-Act", req.URL.Path)
	if a.status != 0 {
		rw.WriteHeader(a.status)
	}
	rw.Write([]byte(a.body))
}

// actionAnd are results that could be sent in other ways as well.
type actionHandler struct{ actionRes }

func (a actionHandler) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
	rw.Header().Set("X-Act", "as a handler")
	rw.Write([]byte("as a handler"))
}

type actionReader struct {
	actionRes
	*strings.Reader
}

func (a actionReader) Write(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
	a.actionRes.Write(ctx, rw, req)
}

type MyString string
type MyInt int

var (
	tReader     = reflect.TypeOf((*io.Reader)(nil)).Elem()
	tReadCloser = reflect.TypeOf((*io.ReadCloser)(nil)).Elem()
	tAny        = reflect.TypeOf((*interface{})(nil)).Elem()
	tHandler    = reflect.TypeOf((*http.Handler)(nil)).Elem()
	tAction     = reflect.TypeOf((*strip.ActionResult)(nil)).Elem()
	tError      = reflect.TypeOf((*error)(nil)).Elem()
)

func asType(v interface{}, typ reflect.Type) reflect.Value {
	x := reflect.New(typ).Elem()
	if v != nil {
		x.Set(reflect.ValueOf(v))
	}
	return x
}

func genResult(t *rapid.T) result {
	s := rapid.StringN(0, 20, 40).Draw(t, "content")
	if h.Pct(t, 5, "big") {
		s = h.Text(h.Pick(t, "big size", 4095, 4097, 32769, 65537, 300000, 1<<20+5))
	}
	iface := h.Pct(t, 30, "declared as interface{}")
	decl := func(own reflect.Type) reflect.Type {
		if iface {
			return tAny
		}
		return own
	}
	k := h.Pick(t, "result", "string", "bytes", "reader", "reader", "odd reader", "odd closer", "closer", "bad reader", "failing reader", "bomb", "action", "action ptr", "action handler", "action reader", "handler", "handlerfunc",
		"nil reader", "nil bytes", "nil action", "nil any", "nil ptr", "nil error", "map", "struct", "float", "bool", "int64", "error", "mystring", "slice")
	r := result{desc: k}
	set := func(v interface{}, own reflect.Type) {
		r.typ = decl(own)
		r.val = asType(v, r.typ)
	}
	switch k {
	case "string":
		set(s, reflect.TypeOf(s))
		r.sent = s
	case "bytes":
		set([]byte(s), reflect.TypeOf([]byte{}))
		r.sent = s
	case "reader":
		set(strings.NewReader(s), h.Pick(t, "decl", tReader, reflect.TypeOf(&strings.Reader{})))
		r.sent = s
	case "closer":
		r.closes, r.wantC = new(int), 1
		set(&closer{bytes.NewBufferString(s), r.closes}, h.Pick(t, "decl", tReader, tReadCloser, reflect.TypeOf(&closer{})))
		r.sent = s
	case "failing reader":
		// what came before it fails is sent
		set(&lateErr{strings.NewReader(s)}, tReader)
		r.sent = s
	case "odd reader":
		set(h.Odd(t, s), tReader)
		r.sent = s
	case "odd closer":
		r.closes, r.wantC = new(int), 1
		set(&closer{h.Odd(t, s), r.closes}, h.Pick(t, "decl", tReader, tReadCloser))
		r.sent = s
	case "bad reader":
		r.closes, r.wantC = new(int), 1
		set(&closer{&lateErr{strings.NewReader(s)}, r.closes}, tReadCloser)
		r.sent = s
	case "bomb":
		r.closes, r.wantC = new(int), 1
		set(&closer{&bombReader{strings.NewReader(s)}, r.closes}, h.Pick(t, "decl", tReader, tReadCloser))
	case "action", "action ptr", "action handler", "action reader":
		a := actionRes{body: s}
		r.header = [2]string{"X-Act", "/r"}
		if h.Pct(t, 50, "own status") {
			a.status = h.Pick(t, "action status", 201, 403)
			r.status = a.status
		}
		r.sent = s
		if k == "action handler" {
			set(actionHandler{a}, h.Pick(t, "decl", tAction, tHandler, reflect.TypeOf(actionHandler{})))
		} else if k == "action reader" {
			set(&actionReader{a, strings.NewReader("as a reader")}, h.Pick(t, "decl", tAction, tReader, reflect.TypeOf(&actionReader{})))
		} else if k == "action" {
			set(a, h.Pick(t, "decl", tAction, reflect.TypeOf(a)))
		} else {
			set(&a, h.Pick(t, "decl", tAction, reflect.TypeOf(&a)))
		}
	case "handler", "handlerfunc":
		f := http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
			w.Header().Set("X-Hand", q.Method)
			w.Write([]byte(s))
		})
		r.header = [2]string{"X-Hand", "GET"}
		r.sent = s
		if k == "handlerfunc" {
			set(f, reflect.TypeOf(f))
		} else {
			mux := http.NewServeMux()
			mux.Handle("/", f)
			set(mux, h.Pick(t, "decl", tHandler, reflect.TypeOf(mux)))
		}
	case "nil reader":
		r.typ = tReader
	case "nil bytes":
		r.typ = reflect.TypeOf([]byte{})
	case "nil action":
		r.typ = h.Pick(t, "decl", tAction, reflect.TypeOf(&actionRes{}))
	case "nil any":
		r.typ = tAny
	case "nil ptr":
		r.typ = reflect.TypeOf(&struct{ A int }{})
	case "nil error":
		r.typ = tError
	case "map":
		set(map[string]int{"a": 1}, reflect.TypeOf(map[string]int{}))
	case "struct":
		set(struct{ A string }{s}, reflect.TypeOf(struct{ A string }{}))
	case "float":
		set(1.5, reflect.TypeOf(1.5))
	case "bool":
		set(true, reflect.TypeOf(true))
	case "int64":
		set(int64(404), reflect.TypeOf(int64(1)))
	case "error":
		set(errors.New(s), tError)
	case "mystring":
		set(MyString(s), reflect.TypeOf(MyString("")))
	case "slice":
		set([]string{s}, reflect.TypeOf([]string{}))
	}
	if !r.val.IsValid() {
		r.val = reflect.Zero(r.typ)
	}
	return r
}

func TestH03(t *testing.T) {
	h.Check(t, h.Spec{ID: "H03", Quick: 8000, Thorough: 150000,
		Rule: "a handler whose signature (0-2 further results, a body of one of 30 kinds declared concretely or as an interface, an optional trailing int) and values are generated, requested with GET or HEAD; status, headers, body and Close calls compared with the rules. Non-trivial: the handler returned a body that must be sent or a status."},
		func(c *h.C) {
			r := genResult(c.T)
			status := 0
			var types []reflect.Type
			var vals []reflect.Value
			shape := h.Pick(c.T, "shape", "body", "body", "body+status", "body+status", "status", "nothing", "extra+body", "extra+body+status")
			if strings.HasPrefix(shape, "extra") {
				types = append(types, reflect.TypeOf(""))
				vals = append(vals, reflect.ValueOf("NOT THE BODY"))
			}
			if strings.Contains(shape, "body") {
				types = append(types, r.typ)
				vals = append(vals, r.val)
			} else {
				r = result{desc: shape}
			}
			if strings.Contains(shape, "status") {
				status = h.Pick(c.T, "status", 200, 201, 204, 302, 404, 418, 500, 599, 600, 799, 999)
				if h.Pct(c.T, 20, "named int") {
					types = append(types, reflect.TypeOf(MyInt(0)))
					vals = append(vals, reflect.ValueOf(MyInt(status)))
				} else {
					types = append(types, reflect.TypeOf(0))
					vals = append(vals, reflect.ValueOf(status))
				}
			}
			own := h.Pick(c.T, "own answer", "", "", "", "", "status", "body")
			in := []reflect.Type{reflect.TypeOf((*http.ResponseWriter)(nil)).Elem()}
			fn := reflect.MakeFunc(reflect.FuncOf(in, types, false), func(args []reflect.Value) []reflect.Value {
				rw := args[0].Interface().(http.ResponseWriter)
				switch own {
				case "status":
					rw.WriteHeader(203)
				case "body":
					rw.Write([]byte("own"))
				}
				return vals
			})
			sp, _ := h.App()
			level := h.Pick(c.T, "filter at", "app", "route", "method")
			if level == "app" {
				sp.Filter(strip.GenericOutFilter())
			}
			if h.Pct(c.T, 30, "another filter") {
				sp.Filter(func(ctx strip.Context) { ctx.Next() })
			}
			get := strip.Get(fn.Interface())
			switch level {
			case "app":
				sp.Routers(strip.Router("/r", get))
			case "route":
				sp.Routers(strip.Filter(strip.GenericOutFilter()), strip.Router("/r", get))
			case "method":
				sp.Routers(strip.Router("/r", get.Filter(strip.GenericOutFilter())))
			}
			desc := fmt.Sprintf("%s %s (%v) status %d own %q at %s", shape, r.desc, fn.Type(), status, own, level)
			method := h.Pick(c.T, "method", "GET", "GET", "GET", "HEAD")
			desc = method + " " + desc
			if r.header[1] == "GET" {
				r.header[1] = method
			}
			var rec *h.Recorder
			if p := h.Try(func() { rec = h.Do(sp, h.Req(method, "/r")) }); p != nil {
				if r.desc == "bomb" && own == "" {
					if *r.closes != 1 {
						c.Fatalf("%s: the reader panics and is closed %d times", desc, *r.closes)
					}
					c.Label("bomb")
					return
				}
				c.Fatalf("%s: panic %v", desc, p)
			}
			code, body := 200, r.sent
			if status != 0 {
				code = status
			}
			if r.status != 0 {
				code = r.status
			}
			switch own {
			case "status":
				code, body = 203, ""
			case "body":
				code, body = 200, "own"
			}
			if method == "HEAD" && rec.Body.Len() == 0 {
				// the server drops it anyway
				body = ""
			}
			if rec.Code != code || rec.Body.String() != body || rec.Commits != 1 || len(rec.Late) > 0 {
				c.Fatalf("%s: sent %d %q (%d status lines), want %d %q", desc, rec.Code, clip(rec.Body.String()), rec.Commits, code, clip(body))
			}
			if own == "" {
				if r.header[0] != "" && rec.Sent.Get(r.header[0]) != r.header[1] {
					c.Fatalf("%s: header %s is %q", desc, r.header[0], rec.Sent.Get(r.header[0]))
				}
				if r.closes != nil && *r.closes != r.wantC {
					c.Fatalf("%s: closed %d times", desc, *r.closes)
				}
				c.Label("%s", r.desc)
				if r.sent != "" || status != 0 {
					c.NonTrivial(desc + " " + clip(r.sent))
				}
			}
			// an application without the filter sends nothing of it, and a
			// request without a handler has no result
			rec = h.Do(sp, h.Req("GET", "/missing"))
			if rec.Code != 404 {
				c.Fatalf("%s: then a missing path gave %d", desc, rec.Code)
			}
		})
}

type resultCtl struct {
	Body string
	Code int
}

func (r *resultCtl) Get() (string, int) { return r.Body, r.Code }
func (r resultCtl) Post() io.Reader     { return strings.NewReader(r.Body) }
func (r *resultCtl) Put() int           { return r.Code }

func TestH03_controller(t *testing.T) {
	h.Check(t, h.Spec{ID: "H03", Quick: 1000, Thorough: 20000,
		Rule: "a controller returning generated body and status from three methods. Non-trivial: every case."},
		func(c *h.C) {
			r := resultCtl{rapid.StringN(0, 20, 40).Draw(c.T, "body"), rapid.IntRange(200, 599).Draw(c.T, "code")}
			sp, _ := h.App()
			sp.Filter(strip.GenericOutFilter())
			sp.Routers(strip.Get(r), strip.Post(&r), strip.All(r))
			for _, x := range []struct {
				m    string
				code int
				body string
			}{{"GET", r.Code, r.Body}, {"POST", 200, r.Body}, {"PUT", r.Code, ""}, {"HEAD", r.Code, r.Body}, {"PATCH", 404, "404 Not Found"}} {
				rec := h.Do(sp, h.Req(x.m, "/"))
				if rec.Code != x.code || rec.Body.String() != x.body {
					c.Fatalf("%v %s: sent %d %q, want %d %q", r, x.m, rec.Code, rec.Body.String(), x.code, x.body)
				}
			}
			c.NonTrivial(fmt.Sprint(r))
		})
}

func clip(s string) string {
	if len(s) > 80 {
		return s[:80] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}
