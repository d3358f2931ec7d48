package router

import (
	"fmt"
	"net/http"
	"reflect"
	"strings"
	"testing"

	"github.com/wujiu2020/strip"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
)

// controllers with different method sets; every action notes its own name.

type CtlGet struct {
	Out *[]string `inject:"trace"`
}

func (c *CtlGet) Get()     { *c.Out = append(*c.Out, "CtlGet.Get") }
func (c *CtlGet) Post()    { *c.Out = append(*c.Out, "CtlGet.Post") }
func (c CtlGet) Custom()   { *c.Out = append(*c.Out, "CtlGet.Custom") }
func (c *CtlGet) Options() { *c.Out = append(*c.Out, "CtlGet.Options") }

type CtlAll struct {
	Out *[]string `inject:"trace"`
}

func (c *CtlAll) All()   { *c.Out = append(*c.Out, "CtlAll.All") }
func (c *CtlAll) Head()  { *c.Out = append(*c.Out, "CtlAll.Head") }
func (c *CtlAll) Put()   { *c.Out = append(*c.Out, "CtlAll.Put") }
func (c CtlAll) Patch()  { *c.Out = append(*c.Out, "CtlAll.Patch") }
func (c *CtlAll) Trace() { *c.Out = append(*c.Out, "CtlAll.Trace") }

type CtlAny struct {
	Out *[]string `inject:"trace"`
}

func (c *CtlAny) Any()      { *c.Out = append(*c.Out, "CtlAny.Any") }
func (c *CtlAny) Theany()   { *c.Out = append(*c.Out, "CtlAny.Theany") }
func (c *CtlAny) Delete()   { *c.Out = append(*c.Out, "CtlAny.Delete") }
func (c *CtlAny) Propfind() { *c.Out = append(*c.Out, "CtlAny.Propfind") }
func (c *CtlAny) Connect()  { *c.Out = append(*c.Out, "CtlAny.Connect") }

type CtlBoth struct {
	Out *[]string `inject:"trace"`
}

func (c *CtlBoth) All()        { *c.Out = append(*c.Out, "CtlBoth.All") }
func (c *CtlBoth) Any()        { *c.Out = append(*c.Out, "CtlBoth.Any") }
func (c *CtlBoth) Get()        { *c.Out = append(*c.Out, "CtlBoth.Get") }
func (c *CtlBoth) Mkcalendar() { *c.Out = append(*c.Out, "CtlBoth.Mkcalendar") }
func (c *CtlBoth) Search()     { *c.Out = append(*c.Out, "CtlBoth.Search") }

var ctlProtos = []interface{}{&CtlGet{}, CtlGet{}, &CtlAll{}, CtlAll{}, &CtlAny{}, CtlAny{}, &CtlBoth{}, CtlBoth{}}

var stdMethods = []string{"GET", "POST", "PUT", "HEAD", "DELETE", "OPTIONS", "PATCH", "TRACE", "CONNECT"}

var register = map[string]func(strip.Handler) strip.MethodHandler{
	"GET": strip.Get, "POST": strip.Post, "PUT": strip.Put, "HEAD": strip.Head, "DELETE": strip.Delete,
	"OPTIONS": strip.Options, "PATCH": strip.Patch, "TRACE": strip.Trace, "CONNECT": strip.Connect,
	"All": strip.All, "Any": strip.Any,
}

func actionsOf(proto interface{}) map[string]bool {
	typ := reflect.TypeOf(proto)
	for typ.Kind() == reflect.Ptr {
		typ = typ.Elem()
	}
	m := map[string]bool{}
	pt := reflect.PointerTo(typ)
	for i := 0; i < pt.NumMethod(); i++ {
		m[pt.Method(i).Name] = true
	}
	return m
}

func typeName(proto interface{}) string {
	typ := reflect.TypeOf(proto)
	for typ.Kind() == reflect.Ptr {
		typ = typ.Elem()
	}
	return typ.Name()
}

func titled(m string) string { return m[:1] + strings.ToLower(m[1:]) }

// reg is one registration on the route.
type reg struct {
	method string // standard method, All or Any
	fn     string // id of a function handler
	ctl    interface{}
	action string // explicit action
}

func (r reg) String() string {
	if r.ctl == nil {
		return r.method + "(func " + r.fn + ")"
	}
	s := fmt.Sprintf("%s(%T)", r.method, r.ctl)
	if r.action != "" {
		s += ".Action(" + r.action + ")"
	}
	return s
}

func (r reg) handler(out *[]string) strip.Handler {
	if r.ctl == nil {
		id := r.fn
		return register[r.method](func() { *out = append(*out, id) })
	}
	m := register[r.method](r.ctl)
	if r.action != "" {
		m = m.Action(r.action)
	}
	return m
}

func genReg(t *rapid.T, method string) reg {
	r := reg{method: method, fn: "func-" + method}
	if h.Pct(t, 35, "controller") {
		r.ctl = rapid.SampledFrom(ctlProtos).Draw(t, "ctl")
		acts := actionsOf(r.ctl)
		def := titled(method)
		switch {
		case method == "All" || acts[def]:
			if h.Pct(t, 50, "explicit action") {
				r.action = rapid.SampledFrom(h.Keys(acts)).Draw(t, "action")
			}
		default:
			r.action = rapid.SampledFrom(h.Keys(acts)).Draw(t, "action")
		}
	}
	return r
}

// selects is the reference: the name noted for a request, "" for not found.
func selects(regs map[string]reg, m string) string {
	m = strings.ToUpper(m)
	run := func(r reg, def string) string {
		if r.ctl == nil {
			return r.fn
		}
		a := r.action
		if a == "" {
			a = def
		}
		return typeName(r.ctl) + "." + a
	}
	if r, ok := regs[m]; ok && m != "All" && m != "Any" {
		return run(r, titled(m))
	}
	if r, ok := regs["GET"]; ok && m == "HEAD" {
		return run(r, "Get")
	}
	if r, ok := regs["All"]; ok {
		if r.ctl == nil {
			return r.fn
		}
		acts := actionsOf(r.ctl)
		if acts[titled(m)] {
			return typeName(r.ctl) + "." + titled(m)
		}
		if r.action != "" {
			return run(r, "")
		}
		if acts["All"] {
			return typeName(r.ctl) + ".All"
		}
	}
	if r, ok := regs["Any"]; ok {
		return run(r, "Any")
	}
	return ""
}

func TestR02(t *testing.T) {
	h.Check(t, h.Spec{ID: "R02", Quick: 12000, Thorough: 150000,
		Rule: "a route with a random subset of per-method, All and Any registrations (functions, controllers with default or named actions, optionally split over two declarations of the path, and replacing earlier registrations for the same method) and requests with every standard and several other methods in random case, compared with the stated fall-back order. Non-trivial: at least two of explicit, All and Any are registered."},
		func(c *h.C) {
			regs := map[string]reg{}
			for i := rapid.IntRange(0, 3).Draw(c.T, "n"); i > 0; i-- {
				m := rapid.SampledFrom(stdMethods).Draw(c.T, "method")
				if h.Pct(c.T, 35, "get/head") {
					m = h.Pick(c.T, "gh", "GET", "HEAD")
				}
				regs[m] = genReg(c.T, m)
			}
			if h.Pct(c.T, 50, "all") {
				regs["All"] = genReg(c.T, "All")
			}
			if h.Pct(c.T, 40, "any") {
				regs["Any"] = genReg(c.T, "Any")
			}
			path := h.Pick(c.T, "path", "/r", "/r/:p", "/*:w", "/")
			var got []string
			notFound := 0
			sp, _ := h.App()
			sp.ProvideAs(&got, (*[]string)(nil), "trace")
			sp.NotFound(func(rw http.ResponseWriter) { notFound++; rw.WriteHeader(404) })
			var a, b, old []strip.Handler
			// what was registered before for the same method is replaced
			was := map[string]reg{}
			if h.Pct(c.T, 30, "registered before") {
				for _, m := range h.Keys(regs) {
					if h.Pct(c.T, 50, "was "+m) {
						r := genReg(c.T, m)
						r.fn = "old-" + r.fn
						was[m] = r
						old = append(old, r.handler(&got))
					}
				}
			}
			for _, m := range h.Keys(regs) {
				hd := regs[m].handler(&got)
				// the HEAD fall-back looks at one declaration at a time, so
				// GET and HEAD may come from different ones
				if h.Pct(c.T, 30, "split") {
					b = append(b, hd)
				} else {
					a = append(a, hd)
				}
			}
			if path == "/" {
				if len(old) > 0 {
					sp.Routers(old...)
				}
				sp.Routers(a...)
				if len(b) > 0 {
					sp.Routers(b...)
				}
			} else {
				sp.Routers(strip.Router(path, old...), strip.Router(path, a...), strip.Router(path, b...))
			}
			url := map[string]string{"/r": "/r", "/r/:p": "/r/x", "/*:w": "/r/x", "/": "/"}[path]

			ms := append([]string{}, stdMethods...)
			ms = append(ms, "CUSTOM", "ALL", "ANY", "THEANY", "SEARCH", "NOSUCH", "M-SEARCH", "X", "PROPFIND", "PROPPATCH", "MKCALENDAR", "VERSION-CONTROL")
			for _, m := range ms {
				// other spellings of the same method
				switch h.Pick(c.T, "case", "upper", "upper", "lower", "title", "swap") {
				case "lower":
					m = strings.ToLower(m)
				case "title":
					m = titled(m)
				case "swap":
					m = strings.ToLower(m[:1]) + m[1:]
				}
				want := selects(regs, m)
				got, notFound = nil, 0
				rec := h.Do(sp, h.Req(m, url))
				if want == "" {
					c.Label("not found")
					if len(got) != 0 || notFound != 1 || rec.Code != 404 {
						c.Fatalf("%v after %v: %s: want not found, ran %q, notFound ran %d times", regs, was, m, got, notFound)
					}
				} else if len(got) != 1 || got[0] != want || notFound != 0 {
					c.Fatalf("%v after %v: %s: want %q, ran %q, notFound ran %d times", regs, was, m, want, got, notFound)
				} else if strings.HasPrefix(want, "func") {
					c.Label("function")
				} else {
					c.Label("controller")
				}
			}
			_, hasAll := regs["All"]
			_, hasAny := regs["Any"]
			n := len(regs)
			if (hasAll && n > 1) || (hasAny && n > 1) {
				c.NonTrivial(fmt.Sprintf("%s %v after %v", path, regs, was))
			}
		})
}
