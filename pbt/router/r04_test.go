package router

import (
	"fmt"
	"math"
	"net/http"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/wujiu2020/strip"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
)

type MyInt int32
type MyStr string
type MyBool bool
type MyList []string
type MyBytes []byte

// Args is a controller whose methods cover the argument kinds; each notes the
// arguments it got and what its own fields were, then scribbles on all of it.
type Args struct {
	Name  string
	Count int
	List  [3]int
	Sub   struct{ X, Y string }
	own   int

	Req  *http.Request       `inject`
	Rw   http.ResponseWriter `inject`
	Info *strip.RouteInfo    `inject`
	Note *argTrace           `inject`
	Tok  *token              `inject:"tok"`
	Skip *token              `inject:"-"`
}

type token struct{ v string }

type argTrace struct {
	method string
	args   []interface{}
	state  string
	req    *http.Request
	info   string
	rw     http.ResponseWriter
	tok    string
}

func (a *Args) rec(method string, args ...interface{}) {
	n := a.Note
	n.method, n.args = method, keep(args)
	n.state = state(*a)
	n.req, n.rw, n.info = a.Req, a.Rw, a.Info.Path
	if a.Tok != nil {
		n.tok = a.Tok.v
	}
	if a.Skip != nil {
		n.state += " SKIPPED FIELD SET"
	}
	a.Name += "!" + method
	a.Count += 1000
	a.List[1]++
	a.Sub.Y = a.Name
	a.own++
	a.Skip = &token{}
}

// keep copies the arguments and scribbles on what they point to.
func keep(args []interface{}) (kept []interface{}) {
	for _, a := range args {
		v := reflect.ValueOf(a)
		switch {
		case !v.IsValid():
		case v.Kind() == reflect.Slice && v.Len() > 0:
			n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
			reflect.Copy(n, v)
			a = n.Interface()
			v.Index(0).Set(reflect.Zero(v.Type().Elem()))
		case v.Kind() == reflect.Ptr && !v.IsNil():
			// the last one of a chain of pointers
			n := reflect.New(v.Type().Elem())
			a = n.Interface()
			for v = v.Elem(); v.Kind() == reflect.Ptr && !v.IsNil(); v = v.Elem() {
				n.Elem().Set(reflect.New(v.Type().Elem()))
				n = n.Elem()
			}
			n.Elem().Set(v)
			v.Set(reflect.Zero(v.Type()))
		}
		kept = append(kept, a)
	}
	return
}

func state(a Args) string {
	return fmt.Sprintf("%q %d %v %v %d", a.Name, a.Count, a.List, a.Sub, a.own)
}

// In embeds the controller and In2 embeds that: all their state and actions are
// those of embedded structs.
type In struct{ Args }
type In2 struct{ In }

func (a *Args) None()                                              { a.rec("None") }
func (a *Args) Get(i int, s string)                                { a.rec("Get", i, s) }
func (a *Args) Post(s string, i int)                               { a.rec("Post", s, i) }
func (a *Args) Put(b bool)                                         { a.rec("Put", b) }
func (a *Args) Delete(l []string, n MyInt, x float32)              { a.rec("Delete", l, n, x) }
func (a *Args) Ints(p int8, q int16, r int32, s int64)             { a.rec("Ints", p, q, r, s) }
func (a *Args) Uints(p uint8, q uint16, r uint32, s uint64)        { a.rec("Uints", p, q, r, s) }
func (a *Args) Uint(p uint, q uint64)                              { a.rec("Uint", p, q) }
func (a *Args) Floats(p float32, q float64)                        { a.rec("Floats", p, q) }
func (a *Args) Strs(p string, q []byte, r []string, s MyStr)       { a.rec("Strs", p, q, r, s) }
func (a *Args) Named(p MyInt, q MyBool, r MyList, s MyBytes)       { a.rec("Named", p, q, r, s) }
func (a *Args) Odd(p struct{ A int }, q map[string]int, r int)     { a.rec("Odd", p, q, r) }
func (a *Args) Slices(p []int, q [2]string, r []float64, s string) { a.rec("Slices", p, q, r, s) }
func (a *Args) Iface(p interface{}, q string)                      { a.rec("Iface", p, q) }
func (a *Args) Long(p, q, r string, s int, t bool, u string)       { a.rec("Long", p, q, r, s, t, u) }
func (a *Args) Many(p, q string, r int8, s, t string, u uint64, v string, w float64, x string, y bool) {
	a.rec("Many", p, q, r, s, t, u, v, w, x, y)
}
func (a Args) Value(p string, q int)                 { (&a).rec("Value", p, q) }
func (a *Args) Ptrs(p *int, q *string, r *bool)      { a.rec("Ptrs", p, q, r) }
func (a *Args) Deep(p **int, q ***string, r **uint8) { a.rec("Deep", p, q, r) }
func (a *Args) Uintlate(p string, q uint32, r uint, s int8, t uint8) {
	a.rec("Uintlate", p, q, r, s, t)
}

// argValue is the reference conversion.
func argValue(s string, typ reflect.Type) interface{} {
	v := reflect.New(typ).Elem()
	switch typ.Kind() {
	case reflect.Ptr:
		// pointers carry the converted value
		p := reflect.New(typ.Elem())
		p.Elem().Set(reflect.ValueOf(argValue(s, typ.Elem())))
		return p.Interface()
	case reflect.Bool:
		switch s {
		case "1", "t", "T", "true", "TRUE", "True", "on":
			v.SetBool(true)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if n, err := strconv.ParseInt(s, 10, typ.Bits()); err == nil {
			v.SetInt(n)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if n, err := strconv.ParseUint(s, 10, typ.Bits()); err == nil {
			v.SetUint(n)
		}
	case reflect.Float32, reflect.Float64:
		if f, err := strconv.ParseFloat(s, typ.Bits()); err == nil {
			v.SetFloat(f)
		}
	case reflect.String:
		v.SetString(s)
	case reflect.Slice:
		switch typ.Elem().Kind() {
		case reflect.Uint8:
			v.SetBytes([]byte(s))
		case reflect.String:
			for _, e := range strings.Split(s, ",") {
				if e = strings.TrimSpace(e); e != "" {
					v = reflect.Append(v, reflect.ValueOf(e))
				}
			}
		}
	}
	return v.Interface()
}

func sameArg(a, b interface{}) bool {
	if fa, ok := a.(float64); ok {
		fb, ok := b.(float64)
		return ok && math.Float64bits(fa) == math.Float64bits(fb)
	}
	if fa, ok := a.(float32); ok {
		fb, ok := b.(float32)
		return ok && math.Float32bits(fa) == math.Float32bits(fb)
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.IsValid() && vb.IsValid() && va.Type() == vb.Type() && va.Kind() == reflect.Slice && va.Len() == 0 && vb.Len() == 0 {
		return true
	}
	return reflect.DeepEqual(a, b)
}

// nilOK: a pointer argument whose capture has no value may be nil or point to
// the zero value.
func nilOK(want, got interface{}) bool {
	w, g := reflect.ValueOf(want), reflect.ValueOf(got)
	if w.Kind() != reflect.Ptr || w.Type() != g.Type() || w.IsNil() {
		return false
	}
	if g.IsNil() {
		for w.Kind() == reflect.Ptr {
			w = w.Elem()
		}
		return w.IsZero()
	}
	return w.Elem().Kind() == reflect.Ptr && nilOK(w.Elem().Interface(), g.Elem().Interface())
}

var argTexts = []string{"0", "1", "-1", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "65535", "65536",
	"2147483647", "2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808",
	"18446744073709551615", "18446744073709551616", "1.5", "1e3", "3.4028236e38", "1e400", "-0", "NaN", "Inf", "0x10", "010", "+7",
	"true", "false", "on", "off", "ON", "On", "oN", "TRUE", "True", "T", "t", "F", "tRue", "yes", "a,b", "a, b ,,c", "b,a,a, a,B,b", ",", "word", "wörd", "1_000", "1 "}

func genArgText(t *rapid.T) string {
	switch h.Pick(t, "arg", "fixed", "fixed", "int", "uint", "float", "text") {
	case "int":
		return strconv.FormatInt(rapid.Int64().Draw(t, "i"), 10)
	case "uint":
		return strconv.FormatUint(rapid.Uint64().Draw(t, "u"), 10)
	case "float":
		return strconv.FormatFloat(rapid.Float64().Draw(t, "f"), 'g', -1, 64)
	case "text":
		s := rapid.StringMatching(`[a-z0-9,. é-]{1,8}`).Draw(t, "s")
		if strings.Trim(s, ". ") == "" {
			return "x"
		}
		return s
	}
	return h.Pick(t, "pad", "", "", "", " ") + rapid.SampledFrom(argTexts).Draw(t, "fixed text")
}

func TestR04(t *testing.T) {
	h.Check(t, h.Spec{ID: "R04", Quick: 10000, Thorough: 60000,
		Rule: "a controller registered (as value or pointer; by method, All or Any; with named or default actions) on a route with 0-5 parameters and literals between, served 1-5 requests with generated captures and methods, the prototype changing between them when it is a pointer; actions scribble on their arguments and the same path may come again; arguments compared with a reference conversion, controller state with the prototype. Non-trivial: a served action had at least one argument filled from a capture."},
		func(c *h.C) {
			proto := &Args{Name: rapid.StringMatching(`[a-z]{0,4}`).Draw(c.T, "name"), Count: rapid.IntRange(-3, 3).Draw(c.T, "count")}
			proto.Sub.X = "sub"
			asPtr := h.Pct(c.T, 60, "pointer prototype")
			nilPtr := asPtr && h.Pct(c.T, 10, "nil pointer")
			proto.own = rapid.IntRange(0, 2).Draw(c.T, "unexported field")
			model := *proto
			var ctl interface{}
			shape := h.Pick(c.T, "shape", "plain", "embedded", "embedded twice", "pointer to pointer")
			switch {
			case shape == "plain" && !asPtr:
				ctl = *proto
			case shape == "plain":
				ctl = proto
			case shape == "embedded" && !asPtr:
				ctl = In{*proto}
			case shape == "embedded":
				x := &In{*proto}
				ctl, proto = x, &x.Args
			case shape == "embedded twice" && !asPtr:
				ctl = In2{In{*proto}}
			case shape == "embedded twice":
				x := &In2{In{*proto}}
				ctl, proto = x, &x.Args
			default:
				asPtr = true
				ctl = &proto
			}
			if nilPtr {
				model = Args{}
				switch shape {
				case "plain":
					ctl = (*Args)(nil)
				case "embedded":
					ctl = (*In)(nil)
				case "embedded twice":
					ctl = (*In2)(nil)
				default:
					nilp := (*Args)(nil)
					ctl = &nilp
				}
			}
			// route
			nparam := rapid.IntRange(0, 5).Draw(c.T, "params")
			if h.Pct(c.T, 10, "many params") {
				nparam = rapid.IntRange(6, 12).Draw(c.T, "params")
			}
			tp := template{}
			for i := 0; i < nparam; i++ {
				if h.Pct(c.T, 30, "literal") {
					tp = append(tp, seg{kind: kStatic, text: "lit"})
				}
				k := kParam
				if h.Pct(c.T, 20, "verb") {
					k = kVerb
				}
				if i == nparam-1 && h.Pct(c.T, 15, "wild") {
					k = kWild
				}
				s := seg{kind: k, name: fmt.Sprintf("q%d", i)}
				if k == kVerb {
					s.verb = ":go"
				}
				tp = append(tp, s)
			}
			acts := h.Keys(actionsOf(&Args{}))
			var desc []string
			named := map[string]string{} // method -> action
			var hs []strip.Handler
			add := func(m, action string) {
				mh := register[m](ctl)
				if action != "" {
					mh = mh.Action(action)
				}
				hs = append(hs, mh)
				named[m] = action
				desc = append(desc, m+"."+action)
			}
			for _, m := range []string{"GET", "POST", "PUT", "DELETE"} {
				if h.Pct(c.T, 40, "register "+m) {
					a := ""
					if h.Pct(c.T, 60, "named") {
						a = rapid.SampledFrom(acts).Draw(c.T, "action")
					}
					add(m, a)
				}
			}
			wide := h.Pick(c.T, "wide", "All", "Any", "none")
			if wide != "none" {
				add(wide, rapid.SampledFrom(acts).Draw(c.T, "wide action"))
			}
			note := new(argTrace)
			sp, _ := h.App()
			sp.Provide(note)
			sp.Filter(func(ctx strip.Context, req *http.Request) {
				ctx.ProvideAs(&token{req.Header.Get("X-Tok")}, (*token)(nil), "tok")
			})
			if len(tp) == 0 {
				sp.Routers(hs...)
			} else {
				sp.Routers(strip.Router(tp.String(), hs...))
			}

			var lastSegs, lastCaps []string
			for r := rapid.IntRange(1, 5).Draw(c.T, "requests"); r > 0; r-- {
				var segs, caps []string
				again := lastSegs != nil && h.Pct(c.T, 35, "same path again")
				for _, s := range tp {
					if again {
						segs, caps = lastSegs, lastCaps
						break
					}
					switch s.kind {
					case kStatic:
						segs = append(segs, s.text)
					default:
						v := genArgText(c.T)
						caps = append(caps, v)
						segs = append(segs, v+s.verb)
					}
				}
				if !again && len(tp) > 0 && tp[len(tp)-1].kind == kWild && h.Pct(c.T, 50, "more") {
					segs = append(segs, "more")
					caps[len(caps)-1] += "/more"
				}
				if i := len(segs) - 1; i >= 0 && !again {
					// space at the end of a path is not part of it
					trim := strings.TrimRight(segs[i], " ")
					if n := len(caps) - 1; strings.HasSuffix(segs[i], caps[n]) {
						caps[n] = strings.TrimRight(caps[n], " ")
					}
					segs[i] = trim
				}
				lastSegs, lastCaps = segs, caps
				m := h.Pick(c.T, "method", "GET", "POST", "PUT", "DELETE", "PATCH", "HEAD")
				act := ""
				if a, ok := named[m]; ok {
					act = a
					if act == "" {
						act = titled(m)
					}
				} else if _, ok := named["GET"]; ok && m == "HEAD" {
					act = named["GET"]
					if act == "" {
						act = "Get"
					}
				} else if a, ok := named["All"]; ok {
					act = a
					if actionsOf(&Args{})[titled(m)] {
						act = titled(m)
					}
				} else if a, ok := named["Any"]; ok {
					act = a
				}
				if act == "" {
					continue
				}
				*note = argTrace{}
				req := h.Req(m, "/"+strings.Join(segs, "/"))
				tok := fmt.Sprint("t", r)
				req.Header.Set("X-Tok", tok)
				p := h.Try(func() { h.Do(sp, req) })
				where := fmt.Sprintf("%s on %s, %s /%s", strings.Join(desc, " "), tp, m, strings.Join(segs, "/"))
				if p != nil {
					c.Fatalf("%s: panic %v", where, p)
				}
				if note.method != act {
					c.Fatalf("%s: ran %q, want %q", where, note.method, act)
				}
				mv, _ := reflect.TypeOf(&Args{}).MethodByName(act)
				for i := 1; i < mv.Type.NumIn(); i++ {
					typ := mv.Type.In(i)
					want := reflect.New(typ).Elem().Interface()
					if i <= len(caps) {
						want = argValue(caps[i-1], typ)
						c.Label("arg %s", typ.Kind())
					}
					if nilOK(want, note.args[i-1]) {
						continue
					}
					if !sameArg(want, note.args[i-1]) {
						c.Fatalf("%s: argument %d of %s is %#v, want %#v", where, i, act, note.args[i-1], want)
					}
				}
				if note.state != state(model) {
					c.Fatalf("%s: request %d started on %s, prototype is %s", where, r, note.state, state(model))
				}
				if note.tok != tok || note.info != tp.String() || note.req == nil || note.req.URL.Path != req.URL.Path || note.rw == nil {
					c.Fatalf("%s: injected fields of another request: tok %q, route %q", where, note.tok, note.info)
				}
				if asPtr && !nilPtr {
					if state(*proto) != state(model) || proto.Req != nil || proto.Note != nil {
						c.Fatalf("%s: the prototype changed to %s", where, state(*proto))
					}
					if h.Pct(c.T, 30, "change prototype") {
						proto.Name += "z"
						model.Name = proto.Name
					}
				}
				if len(caps) > 0 && mv.Type.NumIn() > 1 {
					c.NonTrivial(where)
				}
			}
		})
}
