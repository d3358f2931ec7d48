package paramsx

import (
	"encoding/json"
	"fmt"
	"net/url"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/wujiu2020/strip/params"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
)

type Emb struct {
	E1 int
	E2 []string
}
type PEmb struct {
	P1 string
	P2 []int
	P3 *int
}
type Deep struct{ *PEmb2 }
type PEmb2 struct {
	Emb2
	Q1 bool
}
type Emb2 struct{ R1 []Emb }

type WithEmb struct {
	Emb
	*PEmb
	Own   int
	Inner Emb
	List  []Emb
}
type WithDeep struct {
	Deep
	Own string
}

var fixed = []reflect.Type{typeOf[WithEmb](), typeOf[WithDeep](), typeOf[Emb]()}

func genType(t *rapid.T, depth int) reflect.Type {
	k := h.Pick(t, "kind", "scalar", "scalar", "ptr", "slice", "slice", "struct", "map", "fixed")
	if depth <= 0 {
		k = "scalar"
	}
	switch k {
	case "ptr":
		return reflect.PtrTo(genScalar(t))
	case "slice":
		return reflect.SliceOf(genType(t, depth-1))
	case "struct":
		var fs []reflect.StructField
		for i := rapid.IntRange(1, 4).Draw(t, "fields"); i > 0; i-- {
			fs = append(fs, reflect.StructField{Name: [...]string{"", "F", "F_2", "FF", "Fé4"}[i], Type: genType(t, depth-1)})
		}
		return reflect.StructOf(fs)
	case "map":
		return reflect.MapOf(h.Pick(t, "key", typeOf[string](), typeOf[int](), typeOf[MyStr](), typeOf[uint8]()), genElem(t))
	case "fixed":
		return rapid.SampledFrom(fixed).Draw(t, "fixed")
	}
	return genScalar(t)
}

func genScalar(t *rapid.T) reflect.Type { return rapid.SampledFrom(scalars).Draw(t, "scalar") }

// genElem is the type of the values of a map.
func genElem(t *rapid.T) reflect.Type {
	if h.Pct(t, 20, "to pointer") {
		return reflect.PtrTo(genScalar(t))
	}
	return genScalar(t)
}

// genAny draws a value of a scalar type or of a pointer to one.
func genAny(t *rapid.T, typ reflect.Type) (reflect.Value, string) {
	if typ.Kind() != reflect.Ptr {
		return genValue(t, typ)
	}
	x, text := genValue(t, typ.Elem())
	p := reflect.New(typ.Elem())
	p.Elem().Set(x)
	return p, text
}

func isScalar(typ reflect.Type) bool {
	for _, s := range scalars {
		if typ == s {
			return true
		}
	}
	return typ.Kind() == reflect.Ptr && isScalar(typ.Elem())
}

// writer builds a value together with the parameters that state it.
type writer struct {
	t    *rapid.T
	vals url.Values
	n    int // parameters written
	deep int
}

func (w *writer) put(name, text string) {
	w.vals[name] = append(w.vals[name], text)
	w.n++
	if d := strings.Count(name, "[") + strings.Count(name, "."); d > w.deep {
		w.deep = d
	}
}

// build draws a value of the type; parts that are not written stay zero.
func (w *writer) build(typ reflect.Type, name string) (v reflect.Value, wrote bool) {
	t := w.t
	v = reflect.New(typ).Elem()
	if isScalar(typ) {
		if h.Pct(t, 15, "omit") {
			return v, false
		}
		base := typ
		for base.Kind() == reflect.Ptr {
			base = base.Elem()
		}
		x, text := genValue(t, base)
		w.put(name, text)
		if typ.Kind() == reflect.Ptr {
			v.Set(reflect.New(base))
			v.Elem().Set(x)
		} else {
			v.Set(x)
		}
		return v, true
	}
	switch typ.Kind() {
	case reflect.Slice:
		elem := typ.Elem()
		n := rapid.IntRange(0, 3).Draw(t, "len")
		if isScalar(elem) && h.Pct(t, 40, "in order") {
			form := h.Pick(t, "form", "[]", "")
			for i := 0; i < n; i++ {
				sub := &writer{t: t, vals: url.Values{}}
				x, wr := sub.build(elem, name+form)
				if !wr {
					continue
				}
				w.put(name+form, sub.vals[name+form][0])
				v.Set(reflect.Append(v, x))
			}
			return v, v.Len() > 0
		}
		if h.Pct(t, 3, "long") {
			n = rapid.IntRange(4, 300).Draw(t, "len")
			if !isScalar(elem) {
				n %= 12
			}
		}
		if (isScalar(elem) || strings.Count(name, "[") == 0) && h.Pct(t, 2, "sparse") {
			// few elements far apart
			v.Set(reflect.MakeSlice(typ, 0, 0))
			for i := 0; n > 0; n-- {
				i += rapid.IntRange(1, 3300).Draw(t, "gap")
				if i > params.MaxSliceIndex {
					break
				}
				x, wr := w.build(elem, name+"["+strconv.Itoa(i)+"]")
				if !wr {
					continue
				}
				l := reflect.MakeSlice(typ, i+1, i+1)
				reflect.Copy(l, v)
				l.Index(i).Set(x)
				v.Set(l)
			}
			return v, v.Len() > 0
		}
		var xs []reflect.Value
		last := -1
		for i := 0; i < n; i++ {
			x, wr := w.build(elem, name+"["+strconv.Itoa(i)+"]")
			xs = append(xs, x)
			if wr {
				last = i
			}
		}
		v.Set(reflect.MakeSlice(typ, last+1, last+1))
		for i := 0; i <= last; i++ {
			v.Index(i).Set(xs[i])
		}
		return v, last >= 0
	case reflect.Struct:
		return v, w.fields(v, name+".", nil)
	case reflect.Map:
		v.Set(reflect.MakeMap(typ))
		sub := map[string]interface{}{}
		asJSON := h.Pct(t, 30, "as JSON")
		for n := rapid.IntRange(0, 3).Draw(t, "entries"); n > 0; n-- {
			var k reflect.Value
			var ks string
			if typ.Key().Kind() == reflect.String {
				ks = rapid.StringMatching(`[a-zA-Z0-9_. é-]{0,5}`).Draw(t, "key")
				if h.Pct(t, 15, "brackets") {
					// the key is what the outermost brackets hold
					ks = rapid.StringMatching(`[ab.\[\]]{1,6}`).Draw(t, "key")
				}
				k = reflect.ValueOf(ks).Convert(typ.Key())
			} else {
				k, ks = genValue(t, typ.Key())
			}
			if _, dup := sub[ks]; dup {
				continue
			}
			x, text := genAny(t, typ.Elem())
			if asJSON && h.Pct(t, 15, "null") {
				sub[ks], x = nil, reflect.Zero(typ.Elem())
			} else if asJSON {
				j, ok := jsonOf(x, text)
				if !ok {
					continue
				}
				sub[ks] = j
			} else {
				sub[ks] = text
				w.put(name+"["+ks+"]", text)
				if h.Pct(t, 10, "again") {
					// the first value of a name counts
					_, more := genAny(t, typ.Elem())
					w.vals[name+"["+ks+"]"] = append(w.vals[name+"["+ks+"]"], more)
				}
			}
			v.SetMapIndex(k, x)
		}
		if asJSON && len(sub) > 0 {
			b, err := json.Marshal(sub)
			if err != nil {
				panic(err)
			}
			w.put(name, h.Pick(t, "before JSON", "", "", " ", "\n\t")+string(b))
		}
		return v, len(sub) > 0
	}
	panic(typ)
}

// jsonOf is the value as it appears inside a JSON text.
func jsonOf(x reflect.Value, text string) (interface{}, bool) {
	switch x.Kind() {
	case reflect.Ptr:
		return jsonOf(x.Elem(), text)
	case reflect.String:
		return text, json.Valid([]byte(`"x"`)) && !strings.ContainsRune(text, '\uFFFD') && strings.ToValidUTF8(text, "") == text
	case reflect.Bool:
		return x.Bool(), true
	case reflect.Struct: // time
		return text, true
	}
	return json.Number(text), json.Valid([]byte(text))
}

// fields writes the fields of a struct, those of embedded ones by their
// promoted names.
func (w *writer) fields(v reflect.Value, prefix string, alias map[string]string) (wrote bool) {
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if f.Anonymous {
			if f.Type.Kind() == reflect.Ptr {
				n := reflect.New(f.Type.Elem())
				if w.fields(n.Elem(), prefix, alias) {
					v.Field(i).Set(n)
					wrote = true
				}
			} else if w.fields(v.Field(i), prefix, alias) {
				wrote = true
			}
			continue
		}
		name := f.Name
		if a := alias[name]; a != "" {
			name = a
		}
		x, wr := w.build(f.Type, prefix+name)
		v.Field(i).Set(x)
		wrote = wrote || wr
	}
	return
}

// equal compares values, a nil slice or map being an empty one.
func equal(a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	if _, ok := a.Interface().(time.Time); ok {
		return same(a, b)
	}
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return equal(a.Elem(), b.Elem())
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !equal(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !equal(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			if x := b.MapIndex(k); !x.IsValid() || !equal(a.MapIndex(k), x) {
				return false
			}
		}
		return true
	}
	return same(a, b)
}

func show(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%+v", v)
	}
	if len(b) > 3000 {
		b = append(b[:3000], "..."...)
	}
	return string(b)
}

var lastField = regexp.MustCompile(`\.[A-Z][a-zA-Z0-9]*(\[[0-9]*\])?$`)

func TestP02(t *testing.T) {
	h.Check(t, h.Spec{ID: "P02", Quick: 15000, Thorough: 300000, Steps: 30,
		Rule: "a random type built from slices, structs (embedded ones included), maps and scalars up to four levels deep, a value of it written out as parameters (indexed, in order, repeated, JSON maps, parts left out), bound three times from different maps; the result must be the value, with zero values for what was left out. Non-trivial: at least two parameters, one two levels deep."},
		func(c *h.C) {
			typ := genType(c.T, 4)
			w := &writer{t: c.T, vals: url.Values{}}
			name := h.Pick(c.T, "name", "a", "user", "x.y", "o-p")
			want, _ := w.build(typ, name)
			// parameters of other names
			w.vals["other"] = []string{"1"}
			w.vals[name+"z[0]"] = []string{"1"}
			w.vals[name+"z"] = []string{"1"}
			w.vals["z"+name] = []string{"1"}
			// names in another case
			for _, k := range h.Keys(w.vals) {
				if i := strings.LastIndex(k, "."); lastField.MatchString(k) && strings.HasPrefix(k, name+".") && h.Pct(c.T, 20, "other case") {
					if l := k[:i] + strings.ToLower(k[i:]); w.vals[l] == nil {
						w.vals[l] = []string{"1"}
					}
				}
			}
			desc := fmt.Sprintf("%v from %v", typ, w.vals)
			for i := 0; i < 3; i++ {
				ps := &params.Params{Values: url.Values{}}
				for _, k := range rapid.Permutation(h.Keys(w.vals)).Draw(c.T, "order") {
					ps.Values[k] = append([]string(nil), w.vals[k]...)
				}
				dst := reflect.New(typ)
				if i == 0 {
					dst.Elem().Set(params.Bind(ps, name, typ))
				} else {
					ps.Bind(dst.Interface(), name)
				}
				if !equal(dst.Elem(), want) {
					c.Fatalf("%s\ngives %s\nwant  %s", clip(desc), show(dst.Interface()), show(want.Interface()))
				}
			}
			c.Label("%v, depth %d", typ.Kind(), w.deep)
			if w.n >= 2 && w.deep >= 2 {
				c.NonTrivial(desc)
			}
		})
}

func clip(s string) string {
	if len(s) > 3000 {
		return s[:3000] + "..."
	}
	return s
}

type unexp struct{ U1 int }

// Outer holds fields only through another embedded pointer.
type Outer struct{ *Inner }
type Inner struct {
	N4 int
	*Innermost
	Beside
	N2 []int
}
type Innermost struct {
	N1 int
	N3 struct{ X int }
}
type Beside struct{ N5 string }
type Rank int
type Mark string

type Flat struct {
	*Outer
	Emb
	Rank  // an embedded type without fields has nothing to bind
	*Mark // nor has this
	*PEmb
	Deep
	*unexp
	A    int                `param:"a"`
	B    []string           `param:"b"`
	C    struct{ X, Y int } `param:"c"`
	D    map[string]int     `param:"d,omitempty,string"`
	Skip int                `param:"-"`
	priv int
	L    []Emb
}

// TestP02_tags binds the fields of a struct by the names in their tags.
func TestP02_tags(t *testing.T) {
	h.Check(t, h.Spec{ID: "P02", Quick: 6000, Thorough: 100000,
		Rule: "a struct with tagged, untagged, skipped, unexported, embedded and embedded pointer fields written out by tag names and bound with BindValuesToStruct. Non-trivial: at least two parameters, one two levels deep."},
		func(c *h.C) {
			w := &writer{t: c.T, vals: url.Values{}}
			v := reflect.New(typeOf[Flat]()).Elem()
			// unexported and skipped fields are not written
			for i := 0; i < v.NumField(); i++ {
				f := v.Type().Field(i)
				if f.Name == "Skip" || f.Name == "priv" || f.Name == "unexp" || f.Name == "Rank" || f.Name == "Mark" {
					continue
				}
				if f.Anonymous {
					if f.Type.Kind() == reflect.Ptr {
						n := reflect.New(f.Type.Elem())
						if w.fields(n.Elem(), "", nil) {
							v.Field(i).Set(n)
						}
					} else {
						w.fields(v.Field(i), "", nil)
					}
					continue
				}
				name := strings.Split(f.Tag.Get("param"), ",")[0]
				if name == "" {
					name = f.Name
				}
				x, _ := w.build(f.Type, name)
				v.Field(i).Set(x)
			}
			want := v.Addr().Interface().(*Flat)
			w.vals["Skip"] = []string{"8"}
			w.vals["-"] = []string{"8"}
			w.vals["priv"] = []string{"8"}
			w.vals["A"] = []string{"8"}
			if h.Pct(c.T, 30, "hidden") { // can not be set
				w.vals["U1"] = []string{"8"}
			}
			// names which only start like those of fields
			for _, k := range []string{"P1x", "P2x[0]", "P3x.y", "P", "Q1y", "N1x", "N2x[0]", "R1s[0].E1", "E1z", "bb[0]", "cc.X", "Lx[0].E1"} {
				w.vals[k] = []string{"8"}
			}
			var got Flat
			got.Skip, got.priv = 5, 6
			if h.Pct(c.T, 30, "there already") {
				got.PEmb = new(PEmb)
				if want.PEmb == nil {
					want.PEmb = new(PEmb)
				}
			}
			if h.Pct(c.T, 30, "nested there already") {
				got.Outer = &Outer{&Inner{Innermost: new(Innermost)}}
				if want.Outer == nil {
					want.Outer = new(Outer)
				}
				if want.Inner == nil {
					want.Inner = new(Inner)
				}
				if want.Innermost == nil {
					want.Innermost = new(Innermost)
				}
			}
			if h.Pct(c.T, 50, "function") {
				params.BindValuesToStruct(&got, w.vals)
			} else {
				(&params.Params{Values: w.vals}).BindValuesToStruct(&got)
			}
			if got.Skip != 5 || got.priv != 6 {
				c.Fatalf("skipped fields became %d %d", got.Skip, got.priv)
			}
			got.Skip, got.priv = 0, 0
			for i := 0; i < v.NumField(); i++ {
				if f := v.Type().Field(i); f.Name != "priv" && f.Name != "unexp" && !equal(reflect.ValueOf(&got).Elem().Field(i), v.Field(i)) {
					c.Fatalf("%s\n%s gives %s\nwant %s", clip(fmt.Sprint(w.vals)), f.Name, show(got), show(want))
				}
			}
			if w.n >= 2 && w.deep >= 2 {
				c.NonTrivial(fmt.Sprint(w.vals))
			}
			c.Label("tags, depth %d", w.deep)
		})
}
