package injectx

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/wujiu2020/strip/inject"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
)

type rv = reflect.Value

func newOf(w want) interface{} { return reflect.New(w.typ).Interface() }

// field of a generated struct type.
type fieldSpec struct {
	name   string
	tag    reflect.StructTag
	wt     want        // tagged or plain leaf
	sub    []fieldSpec // nested struct
	ptr    bool        // nested by pointer
	isNil  bool        // nested nil pointer
	iface  bool        // nested pointer inside an interface field
	tagged bool
}

func genFields(t *rapid.T, level int, gk func() key) []fieldSpec {
	var fs []fieldSpec
	for i := rapid.IntRange(0, 4).Draw(t, "fields"); i > 0; i-- {
		f := fieldSpec{name: fmt.Sprintf("F%d", i)}
		kind := h.Pick(t, "field", "inject", "inject", "named", "dash", "plain", "other tag", "nested", "nested")
		if level >= 4 && kind == "nested" {
			kind = "inject"
		}
		f.wt = genWant(t, gk())
		switch kind {
		case "inject":
			f.wt.k.name = ""
			f.tag, f.tagged = "inject", true
		case "named":
			if f.wt.k.name == "" {
				f.wt.k.name = "x"
			}
			f.tag, f.tagged = reflect.StructTag(fmt.Sprintf(`json:"a" inject:"%s"`, f.wt.k.name)), true
		case "dash":
			f.tag = `inject:"-"`
		case "other tag":
			f.tag = reflect.StructTag(h.Pick(t, "tag", `json:"inject"`, `injected:"x"`, `xinject:"y"`))
		case "nested":
			f.wt = want{}
			f.sub = genFields(t, level+1, gk)
			f.ptr = h.Pct(t, 40, "pointer")
			f.isNil = f.ptr && h.Pct(t, 25, "nil")
			f.iface = f.ptr && !f.isNil && h.Pct(t, 30, "in interface")
			f.tag = reflect.StructTag(h.Pick(t, "tag", "", "", `inject:"-"`, `json:"x"`))
		}
		fs = append(fs, f)
	}
	return fs
}

func structType(fs []fieldSpec) reflect.Type {
	var sf []reflect.StructField
	for _, f := range fs {
		typ := f.wt.typ
		if typ == nil {
			typ = structType(f.sub)
			if f.ptr {
				typ = reflect.PtrTo(typ)
			}
			if f.iface {
				typ = typeOf[interface{}]()
			}
		}
		sf = append(sf, reflect.StructField{Name: f.name, Type: typ, Tag: f.tag})
	}
	return reflect.StructOf(sf)
}

const deepest = 3

// expect is the identity every leaf must have afterwards.
type expect struct {
	path string
	v    reflect.Value
	b    base
	id   int
}

type appl struct {
	t   *rapid.T
	w   *world
	exp []expect
	n   int
}

// fill presets the untagged leaves and plans the outcome for all of them.
func (a *appl) fill(fs []fieldSpec, v reflect.Value, path string, level int, active bool) {
	for i, f := range fs {
		fv := v.Field(i)
		p := path + "." + f.name
		if f.wt.typ == nil {
			if f.isNil {
				continue
			}
			sub := fv
			if f.ptr {
				n := reflect.New(structType(f.sub))
				fv.Set(n)
				sub = n.Elem()
			}
			a.fill(f.sub, sub, p, level+1, active && level < deepest && f.tag.Get("inject") != "-")
			continue
		}
		b := bases[f.wt.k.base]
		preset := 0
		if h.Pct(a.t, 40, "preset") {
			a.n--
			preset = a.n
			fv.Set(mkOut(b, f.wt.typ, preset))
		}
		a.exp = append(a.exp, expect{p, fv, b, preset})
	}
}

// plan walks in the order of the fields.
func (a *appl) plan(fs []fieldSpec, level int, active bool, at *int, in *minj) bool {
	for _, f := range fs {
		if f.wt.typ == nil {
			if f.isNil {
				continue
			}
			act := active && level < deepest && f.tag.Get("inject") != "-"
			if !a.plan(f.sub, level+1, act, at, in) {
				return false
			}
			continue
		}
		e := &a.exp[*at]
		*at++
		if !active || !f.tagged {
			continue
		}
		o, ok := a.w.m.resolve(in, f.wt.k, map[key]bool{})
		if !ok {
			return false
		}
		id, ok := assign(o, f.wt.typ)
		if !ok {
			return false
		}
		if id == 0 && o.typ.Kind() == reflect.Ptr && !o.typ.AssignableTo(f.wt.typ) {
			continue // a nil pointer has nothing to copy
		}
		e.id = id
	}
	return true
}

func TestI03(t *testing.T) {
	h.Check(t, h.Spec{ID: "I03", Quick: 6000, Thorough: 120000,
		Rule: "random struct types up to five levels deep (by value, pointer, nil pointer, inside interfaces) with fields tagged for injection by type or name, tagged `-`, tagged otherwise or plain and preset, applied on injectors with generated providers; every leaf is compared with the model of what its tag asks for, down to the third level. Non-trivial: a nested field was injected."},
		func(c *h.C) {
			w := &world{c: c}
			w.add(-1)
			at := 0
			if h.Pct(c.T, 50, "child") {
				w.add(0)
				at = 1
			}
			pool := rapid.IntRange(1, 6).Draw(c.T, "pool")
			from := rapid.IntRange(0, nBases-pool).Draw(c.T, "from")
			gk := func() key { k := genKey(c.T, pool); k.base += from; return k }
			fs := genFields(c.T, 1, gk)
			// provide most of what is asked for
			var provide func(fs []fieldSpec)
			missPct := h.Pick(c.T, "missing", 0, 0, 0, 10)
			done := map[key]bool{}
			provide = func(fs []fieldSpec) {
				for _, f := range fs {
					if f.wt.typ == nil {
						provide(f.sub)
						continue
					}
					if !f.tagged || done[f.wt.k] || h.Pct(c.T, missPct, "missing") {
						continue
					}
					done[f.wt.k] = true
					i := rapid.IntRange(0, at).Draw(c.T, "where")
					if h.Pct(c.T, 60, "value") {
						w.provideValue(i, f.wt.k)
					} else {
						w.provideCtor(i, f.wt.k, nil)
					}
				}
			}
			provide(fs)
			v := reflect.New(structType(fs))
			a := &appl{t: c.T, w: w}
			a.fill(fs, v.Elem(), "", 1, true)
			ok := w.both(fmt.Sprintf("inj%d.Apply(%v)", at, v.Type()), func() bool {
				i := 0
				return a.plan(fs, 1, true, &i, w.mods[at])
			}, func() error { return w.injs[at].Apply(v.Interface()) })
			nested := false
			if ok {
				for _, e := range a.exp {
					if got := e.b.ident(e.v); got != e.id {
						c.Fatalf("%s\nfield %s is %d, want %d", w, e.path, got, e.id)
					}
					nested = nested || strings.Count(e.path, ".") > 1 && e.id > 0
				}
			} else {
				// fields without a tag are left alone whatever happens
				for _, e := range a.exp {
					if got := e.b.ident(e.v); got != e.id {
						c.Fatalf("%s\nfield %s is %d, want %d after the error", w, e.path, got, e.id)
					}
				}
			}
			c.Label("applied %v, nested %v", ok, nested)
			if nested {
				c.NonTrivial(w.String())
			}
		})

	h.Example(t, "I03", "no structs", func(t *testing.T) {
		inj := inject.New()
		inj.Provide(&TA{1})
		n, m, s := 4, map[string]int{"a": 1}, []int{1}
		for _, x := range []interface{}{&n, n, m, &m, s, "x", nil, func() {}, (*TA)(nil)} {
			if err := inj.Apply(x); err == nil {
				t.Errorf("Apply(%v) reports success", x)
			}
		}
		if n != 4 || m["a"] != 1 || s[0] != 1 {
			t.Error("changed")
		}
	})
}

// Struct types of one name and package, which tag their fields differently.
func twin1() interface{} {
	type Twin struct {
		A *TA `inject`
		B *TB
		C struct {
			A *TA `inject:"x"`
		}
	}
	return &Twin{}
}

func twin2() interface{} {
	type Twin struct {
		A *TA `inject:"x"`
		B *TB `inject`
		C struct {
			A *TA
		}
	}
	return &Twin{}
}

func twin3() interface{} {
	type Twin struct {
		B *TB `inject:"-"`
		A *TA
		C struct {
			A *TA `inject`
		} `inject:"-"`
	}
	return &Twin{}
}

func TestI03_twins(t *testing.T) {
	makers := []func() interface{}{twin1, twin2, twin3}
	h.Check(t, h.Spec{ID: "I03", Quick: 2000, Thorough: 20000,
		Rule: "1-8 applications, on injectors made anew or used again, of struct types that share their name and package but not their tags; every field is compared with its own tag. Non-trivial: types of different tags followed each other."},
		func(c *h.C) {
			a, x, b := &TA{1}, &TA{2}, &TB{3}
			var inj inject.Injector
			var order []string
			for n := rapid.IntRange(1, 8).Draw(c.T, "applications"); n > 0; n-- {
				if inj == nil || h.Pct(c.T, 30, "new injector") {
					inj = inject.New()
					inj.Provide(a, b)
					inj.ProvideAs(x, (*TA)(nil), "x")
				}
				k := rapid.IntRange(0, 2).Draw(c.T, "twin")
				order = append(order, fmt.Sprint(k+1))
				s := makers[k]()
				if err := inj.Apply(s); err != nil {
					c.Fatalf("twins %v: Apply reports %v", order, err)
				}
				v := reflect.ValueOf(s).Elem()
				got := []interface{}{v.FieldByName("A").Interface(), v.FieldByName("B").Interface(), v.FieldByName("C").Field(0).Interface()}
				want := [][]interface{}{{a, (*TB)(nil), x}, {x, b, (*TA)(nil)}, {(*TA)(nil), (*TB)(nil), (*TA)(nil)}}[k]
				for i := range got {
					// C of the third is walked or left alone as a whole
					if got[i] != want[i] && !(k == 2 && i == 2) {
						c.Fatalf("twins %v: field %s of the last is %v, want %v", order, []string{"A", "B", "C.A"}[i], got[i], want[i])
					}
				}
			}
			if strings.Trim(strings.Join(order, ""), order[0]) != "" {
				c.NonTrivial(fmt.Sprint(order))
			}
		})
}
