package paramsx

import (
	"fmt"
	"mime/multipart"
	"net/url"
	"reflect"
	"strings"
	"testing"

	"github.com/wujiu2020/strip/params"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
)

// Point is bound as any struct, or from one text by a binder of its own.
type Point struct{ X, Y int }

// Upload is bound from files.
type Upload struct{ Name string }

// Color has a kind of its own binder at times.
type Color uintptr

type holder struct {
	P   Point
	Q   *Point
	L   []Point
	M   map[string]Point
	C   Color
	Sub struct{ P Point }
	A   string
}

func parsePoint(s string) (p Point) {
	fmt.Sscanf(s, "%d:%d", &p.X, &p.Y)
	return
}

// Types which share their name.
func twinTypes() []reflect.Type {
	a := func() reflect.Type { type Twin int8; return typeOf[Twin]() }
	b := func() reflect.Type { type Twin string; return typeOf[Twin]() }
	d := func() reflect.Type { type Twin []string; return typeOf[Twin]() }
	e := func() reflect.Type { type Twin bool; return typeOf[Twin]() }
	f := func() reflect.Type { type Twin float64; return typeOf[Twin]() }
	return []reflect.Type{a(), b(), d(), e(), f()}
}

func TestP02_custom(t *testing.T) {
	pointT, colorT, uploadT := typeOf[Point](), typeOf[Color](), typeOf[Upload]()
	twins := twinTypes()
	h.Check(t, h.Spec{ID: "P02", Quick: 6000, Thorough: 60000,
		Rule: "1-6 bindings of structs, slices, maps and pointers over application types which have binders of their own at the time or have none any more (one by type, one by kind, one for files), and of types that share their name; the result must be what the binder in force gives everywhere. Non-trivial: a binder came or went between two bindings."},
		func(c *h.C) {
			defer func() {
				delete(params.TypeBinders, pointT)
				delete(params.TypeBinders, uploadT)
				delete(params.KindBinders, reflect.Uintptr)
			}()
			own, kinds := false, false
			changes := 0
			var log []string
			params.TypeBinders[uploadT] = params.Binder{Bind: func(p *params.Params, name string, typ reflect.Type) reflect.Value {
				u := Upload{}
				if fs := p.Files[name]; len(fs) > 0 {
					u.Name = fs[0].Filename
				}
				return reflect.ValueOf(u)
			}}
			for n := rapid.IntRange(1, 6).Draw(c.T, "bindings"); n > 0; n-- {
				if h.Pct(c.T, 40, "point binder") {
					own = !own
					changes++
					if own {
						params.TypeBinders[pointT] = params.Binder{Bind: params.ValueBinder(func(val string, typ reflect.Type) reflect.Value {
							return reflect.ValueOf(parsePoint(val))
						})}
					} else {
						delete(params.TypeBinders, pointT)
					}
				}
				if h.Pct(c.T, 30, "kind binder") {
					kinds = !kinds
					changes++
					if kinds {
						params.KindBinders[colorT.Kind()] = params.Binder{Bind: params.ValueBinder(func(val string, typ reflect.Type) reflect.Value {
							return reflect.ValueOf(uintptr(len(val))).Convert(typ)
						})}
					} else {
						delete(params.KindBinders, colorT.Kind())
					}
				}
				vals := url.Values{"other": {"1:1"}}
				num := func() int { return rapid.IntRange(-9, 99).Draw(c.T, "n") }
				// writes a point in the form in force
				put := func(name string) Point {
					p := Point{num(), num()}
					if own {
						vals[name] = []string{fmt.Sprintf("%d:%d", p.X, p.Y)}
					} else {
						vals[name+".X"], vals[name+".Y"] = []string{fmt.Sprint(p.X)}, []string{fmt.Sprint(p.Y)}
					}
					return p
				}
				what := h.Pick(c.T, "what", "holder", "holder", "point", "points", "map", "files", "twin", "color")
				var got, want interface{}
				ps := &params.Params{Values: vals}
				switch what {
				case "point":
					want = put("p")
					var p Point
					ps.Bind(&p, "p")
					got = p
				case "points":
					w := []Point{}
					for i := rapid.IntRange(0, 4).Draw(c.T, "points"); i > 0; i-- {
						w = append(w, put(fmt.Sprintf("p[%d]", len(w))))
					}
					var g []Point
					ps.Bind(&g, "p")
					got, want = g, w
				case "map":
					w := map[string]Point{}
					for i := rapid.IntRange(0, 4).Draw(c.T, "points"); i > 0 && own; i-- {
						k := h.Pick(c.T, "key", "a", "b", "c.d", "")
						w[k] = put("p[" + k + "]")
					}
					g := map[string]Point{}
					ps.Bind(&g, "p")
					got, want = g, w
				case "color":
					s := strings.Repeat("x", rapid.IntRange(1, 5).Draw(c.T, "len"))
					vals["c"] = []string{s}
					w := Color(0)
					if kinds {
						w = Color(len(s))
					}
					var g Color
					ps.Bind(&g, "c")
					got, want = g, w
				case "holder":
					var w holder
					w.P = put("h.P")
					w.Sub.P = put("h.Sub.P")
					if own && h.Pct(c.T, 50, "pointer") {
						p := put("h.Q")
						w.Q = &p
					}
					for i := rapid.IntRange(0, 3).Draw(c.T, "points"); i > 0; i-- {
						w.L = append(w.L, put(fmt.Sprintf("h.L[%d]", len(w.L))))
					}
					if own && h.Pct(c.T, 50, "map") {
						w.M = map[string]Point{"k": put("h.M[k]")}
					}
					vals["h.C"] = []string{"xx"}
					if kinds {
						w.C = 2
					}
					w.A = "text"
					vals["h.A"] = []string{w.A}
					var g holder
					ps.Bind(&g, "h")
					got, want = show(&g), show(&w)
				case "files":
					ps.Files = map[string][]*multipart.FileHeader{"other": {{Filename: "o"}}}
					var w []Upload
					form := h.Pick(c.T, "form", "indexed", "in order", "repeated")
					for i := rapid.IntRange(1, 4).Draw(c.T, "files"); i > 0; i-- {
						u := Upload{fmt.Sprint("f", num())}
						k := map[string]string{"indexed": fmt.Sprintf("u[%d]", len(w)), "in order": "u[]", "repeated": "u"}[form]
						ps.Files[k] = append(ps.Files[k], &multipart.FileHeader{Filename: u.Name})
						w = append(w, u)
					}
					var g []Upload
					ps.Bind(&g, "u")
					got, want = g, w
				case "twin":
					typ := rapid.SampledFrom(twins).Draw(c.T, "twin")
					text := h.Pick(c.T, "text", "1", "true", "7", "word", "2.5")
					vals["t"] = []string{text}
					w := denotedTwin(text, typ)
					got, want = params.Bind(ps, "t", typ).Interface(), w.Interface()
				}
				log = append(log, fmt.Sprintf("%s (binders %v %v) from %v", what, own, kinds, vals))
				if !reflect.DeepEqual(got, want) {
					c.Fatalf("%s\ngives %s\nwant  %s", strings.Join(log, "\n"), show(got), show(want))
				}
				c.Label("%s, binder %v", what, own)
			}
			if changes > 1 {
				c.NonTrivial(strings.Join(log, "\n"))
			}
		})
}

func denotedTwin(text string, typ reflect.Type) reflect.Value {
	v := reflect.New(typ).Elem()
	switch typ.Kind() {
	case reflect.Int8:
		var n int8
		if k, err := fmt.Sscan(text, &n); k == 1 && err == nil && fmt.Sprint(n) == text {
			v.SetInt(int64(n))
		}
	case reflect.String:
		v.SetString(text)
	case reflect.Slice:
		return reflect.ValueOf([]string{text}).Convert(typ)
	case reflect.Bool:
		v.SetBool(text == "1" || text == "true")
	case reflect.Float64:
		var f float64
		if k, _ := fmt.Sscan(text, &f); k == 1 {
			v.SetFloat(f)
		}
	}
	return v
}
