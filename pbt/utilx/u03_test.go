package utilx

import (
	"bytes"
	"crypto/md5"
	"encoding/hex"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/utils"
	"pgregory.net/rapid"

	"verif/pbt/internal/h"
)

type (
	myBool  bool
	myInt8  int8
	myInt   int
	myUint  uint16
	myF32   float32
	myF64   float64
	myStr   string
	myBytes []byte
	myByte  byte
	myArr   [5]byte
	myElems []myByte
)

var basicTypes = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(""), reflect.TypeOf([]byte(nil)),
	reflect.TypeOf(myBool(false)), reflect.TypeOf(myInt8(0)), reflect.TypeOf(myInt(0)), reflect.TypeOf(myUint(0)), reflect.TypeOf(myF32(0)), reflect.TypeOf(myF64(0)),
	reflect.TypeOf(myStr("")), reflect.TypeOf(myBytes(nil)),
}

var arrayTypes = []reflect.Type{reflect.TypeOf([0]byte{}), reflect.TypeOf([3]byte{}), reflect.TypeOf(myArr{}), reflect.TypeOf(myElems(nil))}

func genBits(t *rapid.T) uint64 {
	switch rapid.IntRange(0, 3).Draw(t, "bits") {
	case 0:
		return rapid.Uint64().Draw(t, "any")
	case 1: // around powers of two
		return uint64(1)<<rapid.UintRange(0, 63).Draw(t, "pow") + uint64(rapid.IntRange(-2, 2).Draw(t, "off"))
	case 2:
		return uint64(rapid.IntRange(-3, 3).Draw(t, "small"))
	}
	return h.Pick(t, "edge", uint64(math.MaxInt64), uint64(1)<<63, uint64(math.MaxUint64), uint64(math.MaxUint32), 127, 128, 255, 256, 32767, 32768, 65535, 65536)
}

func genFloat(t *rapid.T) float64 {
	switch rapid.IntRange(0, 4).Draw(t, "float") {
	case 0:
		return math.Float64frombits(rapid.Uint64().Draw(t, "fbits"))
	case 1:
		return float64(math.Float32frombits(rapid.Uint32().Draw(t, "f32bits")))
	case 2:
		return h.Pick(t, "fedge", 0, math.Copysign(0, -1), math.MaxFloat32, math.MaxFloat64, math.SmallestNonzeroFloat32, math.SmallestNonzeroFloat64, 1e21, 1e20, -1e-7, 0.1, math.Inf(1), math.Inf(-1), math.NaN(), 16777217)
	case 3:
		return float64(rapid.IntRange(-1000000, 1000000).Draw(t, "fint")) / h.Pick(t, "div", 1.0, 10, 3, 1e9)
	}
	return rapid.Float64().Draw(t, "f")
}

// genValue draws a value of typ.
func genValue(t *rapid.T, typ reflect.Type) reflect.Value {
	v := reflect.New(typ).Elem()
	switch typ.Kind() {
	case reflect.Bool:
		v.SetBool(rapid.Bool().Draw(t, "b"))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n := int64(genBits(t))
		v.SetInt(n << (64 - typ.Bits()) >> (64 - typ.Bits()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(genBits(t) & (math.MaxUint64 >> (64 - typ.Bits())))
	case reflect.Float32:
		v.SetFloat(float64(float32(genFloat(t))))
	case reflect.Float64:
		v.SetFloat(genFloat(t))
	case reflect.String:
		v.SetString(genText(t))
	case reflect.Slice:
		switch rapid.IntRange(0, 5).Draw(t, "bytes") {
		case 0:
		default:
			s := genText(t)
			v.Set(reflect.MakeSlice(typ, len(s), len(s)))
			for i := 0; i < len(s); i++ {
				v.Index(i).SetUint(uint64(s[i]))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			v.Index(i).SetUint(uint64(rapid.Byte().Draw(t, "byte")))
		}
	}
	return v
}

func genText(t *rapid.T) string {
	switch rapid.IntRange(0, 4).Draw(t, "text") {
	case 0:
		return ""
	case 1:
		return rapid.String().Draw(t, "str")
	case 2:
		return string(rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "raw"))
	case 3:
		return h.Pick(t, "word", "<nil>", "[]", "0", "nil", "%d%!s", " ", "\x00", "0xc000012345", "on", "true")
	}
	return rapid.StringN(0, 40, 200).Draw(t, "long")
}

var plainInt = regexp.MustCompile(`^-?[0-9]+$`)
var plainFloat = regexp.MustCompile(`^-?[0-9]+(\.[0-9]+)?$`)

// strTo parses s as typ by one of the packages; ok is false if it has none.
func parse(pkg, s string, k reflect.Kind) (v interface{}, must interface{}, err error) {
	must = nil
	switch pkg {
	case "strip":
		f := strip.StrTo(s)
		switch k {
		case reflect.Bool:
			v, err = f.Bool()
		case reflect.Int:
			v, err = f.Int()
		case reflect.Int8:
			v, err = f.Int8()
		case reflect.Int16:
			v, err = f.Int16()
		case reflect.Int32:
			v, err = f.Int32()
		case reflect.Int64:
			v, err = f.Int64()
		case reflect.Uint:
			v, err = f.Uint()
		case reflect.Uint8:
			v, err = f.Uint8()
		case reflect.Uint16:
			v, err = f.Uint16()
		case reflect.Uint32:
			v, err = f.Uint32()
		case reflect.Uint64:
			v, err = f.Uint64()
		case reflect.Float32:
			v, err = f.Float32()
		case reflect.Float64:
			v, err = f.Float64()
		}
	case "utils":
		v, must, err = viaMethods(reflect.ValueOf(utils.StrTo(s)), k)
	case "value":
		v, must, err = viaMethods(reflect.ValueOf(utils.ValueTo(s)), k)
	}
	return
}

// viaMethods calls the conversion of kind k and its Must form.
func viaMethods(rv reflect.Value, k reflect.Kind) (v, must interface{}, err error) {
	n := strings.ToUpper(k.String()[:1]) + k.String()[1:]
	out := rv.MethodByName(n).Call(nil)
	v = out[0].Interface()
	if !out[1].IsNil() {
		err = out[1].Interface().(error)
	}
	must = rv.MethodByName("Must" + n).Call(nil)[0].Interface()
	return
}

var scalarKinds = []reflect.Kind{reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
	reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64}

var kindType = map[reflect.Kind]reflect.Type{}

func init() {
	for _, t := range basicTypes[:13] {
		kindType[t.Kind()] = t
	}
}

// same compares bit by bit (NaN equals NaN).
func same(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Float32, reflect.Float64:
		x, y := a.Float(), b.Float()
		return x == y && math.Signbit(x) == math.Signbit(y) || x != x && y != y
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

func bytesOf(v reflect.Value) string {
	b := make([]byte, v.Len())
	for i := range b {
		b[i] = byte(v.Index(i).Uint())
	}
	return string(b)
}

func TestU03_RoundTrip(t *testing.T) {
	h.Check(t, h.Spec{ID: "U03", Quick: 20000, Thorough: 1000000,
		Rule: "a value of every basic width, named types, byte slices and arrays, edge biased, behind up to 4 pointers; formatted and parsed back in both packages; non-trivial: not the zero value",
	}, func(c *h.C) {
		types := basicTypes
		if h.Pct(c.T, 15, "array") {
			types = arrayTypes
		}
		typ := rapid.SampledFrom(types).Draw(c.T, "type")
		v := genValue(c.T, typ)
		depth := h.Pick(c.T, "pointers", 0, 0, 0, 1, 1, 2, 3, 4)
		p := v
		arg := v.Interface()
		if depth == 0 {
			p = reflect.ValueOf(arg)
		}
		for i := 0; i < depth; i++ {
			np := reflect.New(p.Type())
			np.Elem().Set(p)
			p = np
			arg = p.Interface()
		}
		c.Label("kind %s pointers %d", typ.Kind(), depth)
		if !v.IsZero() {
			c.NonTrivial(fmt.Sprintf("%d*%s %#v", depth, typ, v.Interface()))
		}
		type form struct{ name, s string }
		var forms []form
		if e := h.Try(func() { forms = append(forms, form{"strip", strip.ToStr(arg)}) }); e != nil {
			c.Fatalf("strip.ToStr(%#v of %s behind %d pointers) panics: %v", v.Interface(), typ, depth, e)
		}
		if depth == 0 && typ.Kind() != reflect.Array {
			if e := h.Try(func() { forms = append(forms, form{"utils", utils.ToStr(arg)}) }); e != nil {
				c.Fatalf("utils.ToStr(%#v) panics: %v", arg, e)
			}
			if e := h.Try(func() { forms = append(forms, form{"value", utils.ValueTo(arg).String()}) }); e != nil {
				c.Fatalf("ValueTo(%#v).String panics: %v", arg, e)
			}
		}
		for _, f := range forms {
			desc := fmt.Sprintf("%s: %#v (%s behind %d pointers) is %q as text", f.name, v.Interface(), typ, depth, f.s)
			switch typ.Kind() {
			case reflect.String:
				if f.s != v.String() {
					c.Fatalf("%s", desc)
				}
				continue
			case reflect.Slice, reflect.Array:
				if f.s != bytesOf(v) {
					c.Fatalf("%s, not the same bytes", desc)
				}
				continue
			case reflect.Bool:
				if f.s != fmt.Sprint(v.Bool()) {
					c.Fatalf("%s", desc)
				}
			case reflect.Float32, reflect.Float64:
				if x := v.Float(); !math.IsNaN(x) && !math.IsInf(x, 0) && !plainFloat.MatchString(f.s) {
					c.Fatalf("%s, not a plain decimal", desc)
				}
			default:
				if f.s != fmt.Sprint(v.Interface()) || !plainInt.MatchString(f.s) {
					c.Fatalf("%s", desc)
				}
			}
			for _, pkg := range []string{"strip", "utils", "value"} {
				got, must, err := parse(pkg, f.s, typ.Kind())
				if err != nil {
					c.Fatalf("%s, which %s refuses to read back: %v", desc, pkg, err)
				}
				want := v.Convert(kindType[typ.Kind()])
				if !same(reflect.ValueOf(got), want) {
					c.Fatalf("%s, which %s reads back as %#v", desc, pkg, got)
				}
				if must != nil && !same(reflect.ValueOf(must), want) {
					c.Fatalf("%s, which %s Must reads back as %#v", desc, pkg, must)
				}
			}
		}
	})
}

// genNumText draws a text near or away from a number.
func genNumText(t *rapid.T) string {
	switch rapid.IntRange(0, 7).Draw(t, "form") {
	case 0:
		return strconv.FormatInt(int64(genBits(t)), 10)
	case 1:
		return strconv.FormatUint(genBits(t), 10)
	case 2: // beyond 64 bits
		n := new(big.Int).Lsh(big.NewInt(1), rapid.UintRange(60, 140).Draw(t, "sh"))
		n.Add(n, big.NewInt(int64(rapid.IntRange(-3, 3).Draw(t, "off"))))
		if rapid.Bool().Draw(t, "neg") {
			n.Neg(n)
		}
		return n.String()
	case 3:
		return strings.Repeat("0", rapid.IntRange(0, 25).Draw(t, "zeros")) + strconv.Itoa(rapid.IntRange(0, 70000).Draw(t, "n"))
	case 4:
		return fmt.Sprintf("%v", genFloat(t))
	case 5:
		return fmt.Sprintf("%de%d", rapid.IntRange(-99, 99).Draw(t, "m"), rapid.IntRange(-400, 400).Draw(t, "e"))
	case 6:
		return h.Pick(t, "lit", "", "1", "t", "T", "TRUE", "true", "True", "0", "f", "F", "FALSE", "false", "False", "on", "ON", "On", "off", "yes", "tRUE", "onn", "-", ".", "-0", "1.", ".5", "1e", "--1", "1-", "1 2", " 1", "1 ", "1\n", "\t5", "１", "0x", "1,000", "1.0")
	}
	// damage a number
	s := []byte(strconv.FormatInt(int64(genBits(t)), 10))
	i := rapid.IntRange(0, len(s)).Draw(t, "at")
	return string(s[:i]) + h.Pick(t, "junk", " ", "-", ".", "e", "a", "\x00", ",", "é", "0") + string(s[i:])
}

var reInt = regexp.MustCompile(`\A-?[0-9]+\z`)
var reUint = regexp.MustCompile(`\A[0-9]+\z`)
var reFloat = regexp.MustCompile(`\A-?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?\z`)
var reOddFloat = regexp.MustCompile(`(?i)inf|nan|x|_|\+`)

// read is the reference reading of s as a value of kind k.
func read(s string, k reflect.Kind) (v interface{}, ok, judged bool) {
	typ := kindType[k]
	rv := reflect.New(typ).Elem()
	defer func() { v = rv.Interface() }()
	switch k {
	case reflect.Bool:
		switch s {
		case "1", "t", "T", "TRUE", "true", "True", "on":
			rv.SetBool(true)
			return nil, true, true
		case "0", "f", "F", "FALSE", "false", "False":
			return nil, true, true
		}
		return nil, false, s != "off"
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if strings.HasPrefix(s, "+") {
			return nil, false, false
		}
		if !reInt.MatchString(s) {
			return nil, false, true
		}
		n, _ := new(big.Int).SetString(s, 10)
		lim := new(big.Int).Lsh(big.NewInt(1), uint(typ.Bits()-1))
		if n.Cmp(lim) >= 0 || n.Cmp(new(big.Int).Neg(lim)) < 0 {
			return nil, false, true
		}
		rv.SetInt(n.Int64())
		return nil, true, true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if strings.HasPrefix(s, "+") || s == "-0" {
			return nil, false, false
		}
		if !reUint.MatchString(s) {
			return nil, false, true
		}
		n, _ := new(big.Int).SetString(s, 10)
		if n.BitLen() > typ.Bits() {
			return nil, false, true
		}
		rv.SetUint(n.Uint64())
		return nil, true, true
	}
	if reOddFloat.MatchString(s) {
		return nil, false, false
	}
	if !reFloat.MatchString(s) {
		return nil, false, true
	}
	r, _, err := big.ParseFloat(s, 10, 4000, big.ToNearestEven)
	if err != nil {
		return nil, false, false
	}
	if k == reflect.Float32 {
		x, _ := r.Float32()
		if math.IsInf(float64(x), 0) {
			return nil, false, true
		}
		rv.SetFloat(float64(x))
		return nil, true, true
	}
	x, _ := r.Float64()
	if math.IsInf(x, 0) {
		return nil, false, true
	}
	rv.SetFloat(x)
	return nil, true, true
}

func TestU03_Text(t *testing.T) {
	h.Check(t, h.Spec{ID: "U03", Quick: 20000, Thorough: 1000000,
		Rule: "a text at, near, beyond or away from the limits of every width, read as each of 13 kinds by three readers and compared with arbitrary-precision readings; non-trivial: some kinds accept the text and some do not",
	}, func(c *h.C) {
		s := genNumText(c.T)
		acc, rej := 0, 0
		for _, k := range scalarKinds {
			want, ok, judged := read(s, k)
			for _, pkg := range []string{"strip", "utils", "value"} {
				got, must, err := parse(pkg, s, k)
				if !judged {
					continue
				}
				if ok != (err == nil) {
					c.Fatalf("%s: reading %q as %s gives error %v (expected value %v, valid %v)", pkg, s, k, err, want, ok)
				}
				if !same(reflect.ValueOf(got), reflect.ValueOf(want)) {
					c.Fatalf("%s: reading %q as %s gives %#v, error %v; expected %#v", pkg, s, k, got, err, want)
				}
				if must != nil && !same(reflect.ValueOf(must), reflect.ValueOf(want)) {
					c.Fatalf("%s: Must reading of %q as %s gives %#v; expected %#v", pkg, s, k, must, want)
				}
			}
			if judged && ok {
				acc++
			} else if judged {
				rej++
			}
		}
		c.Label("kinds accepting %d", acc)
		if acc > 0 && rej > 0 {
			c.NonTrivial(s)
		}
	})
}

// other values no conversion may panic on
func genOdd(t *rapid.T) interface{} {
	one := 1
	var np *int
	var npp **string
	var ni error
	self := map[string]interface{}{"a": 1}
	return h.Pick[interface{}](t, "odd", nil, np, npp, &np, ni, &ni, []int{1, 2}, []string{"1", "2"}, []string(nil), map[string]int{"a": 1}, self, struct{ A int }{7}, &struct{ B *int }{&one},
		func() {}, make(chan int), complex(1, 2), uintptr(9), [2]int{1, 2}, [2]string{"x", ""}, []interface{}{1, nil}, []error{nil}, fmt.Errorf("e"), reflect.TypeOf(1), (func())(nil), (chan int)(nil), []*int{nil}, &self, map[interface{}]interface{}{nil: nil})
}

func TestU03_Value(t *testing.T) {
	h.Check(t, h.Spec{ID: "U03", Quick: 20000, Thorough: 1000000,
		Rule: "a value of any type (also nil, nil pointers, maps, functions) converted to each of 13 kinds, text, bytes, 64-bit integer; non-trivial: value of a basic type",
	}, func(c *h.C) {
		if h.Pct(c.T, 15, "other") {
			v := genOdd(c.T)
			c.Label("other type")
			if e := h.Try(func() {
				strip.ToStr(v)
				if s := utils.ToStr(v); v != nil && s == "[]byte(nil)" {
					c.Fatalf("utils.ToStr(%#v) is %q", v, s)
				}
				val := utils.ValueTo(v)
				if (v == nil) != val.IsNil() {
					c.Fatalf("ValueTo(%#v).IsNil() is %v", v, val.IsNil())
				}
				val.MustString()
				val.Value()
				val.MustBytes()
				if s, _ := v.([]string); !reflect.DeepEqual(val.MustSliceString(), s) {
					c.Fatalf("ValueTo(%#v).MustSliceString() is %#v", v, val.MustSliceString())
				}
				for _, k := range scalarKinds {
					x, must, err := viaMethods(reflect.ValueOf(val), k)
					if _, num := v.(uintptr); num {
						continue
					}
					if err == nil || !reflect.ValueOf(x).IsZero() || !reflect.ValueOf(must).IsZero() {
						c.Fatalf("ValueTo(%#v) as %s gives %#v, error %v", v, k, x, err)
					}
				}
				if n, err := utils.ToInt64(v); err == nil && reflect.ValueOf(v).Kind() != reflect.Uintptr || n != 0 {
					c.Fatalf("ToInt64(%#v) gives %d, error %v", v, n, err)
				}
			}); e != nil {
				c.Fatalf("converting %#v panics: %v", v, e)
			}
			return
		}
		typ := rapid.SampledFrom(basicTypes).Draw(c.T, "type")
		rv := genValue(c.T, typ)
		v := rv.Interface()
		c.NonTrivial(fmt.Sprintf("%#v", v))
		c.Label("from %s", typ.Kind())
		val := utils.ValueTo(v)
		if !reflect.DeepEqual(val.Value(), v) && rv.Kind() != reflect.Float32 && rv.Kind() != reflect.Float64 || val.IsNil() {
			c.Fatalf("ValueTo(%#v) holds %#v", v, val.Value())
		}
		if b, ok := v.([]byte); ok && !bytes.Equal(val.MustBytes(), b) || !ok && val.MustBytes() != nil {
			c.Fatalf("ValueTo(%#v).MustBytes() is %q", v, val.MustBytes())
		}
		// the value as an exact text
		var txt string
		switch rv.Kind() {
		case reflect.Bool:
			txt = fmt.Sprint(rv.Bool())
		case reflect.Float32, reflect.Float64:
			if math.IsNaN(rv.Float()) || math.IsInf(rv.Float(), 0) {
				return
			}
			txt = strconv.FormatFloat(rv.Float(), 'f', -1, rv.Type().Bits())
		case reflect.String:
			txt = rv.String()
		case reflect.Slice:
			txt = bytesOf(rv)
		default:
			txt = fmt.Sprint(v)
		}
		if s := val.String(); s != txt {
			c.Fatalf("ValueTo(%#v).String() is %q, expected %q", v, s, txt)
		}
		for _, k := range scalarKinds {
			x, must, err := viaMethods(reflect.ValueOf(val), k)
			want, ok, judged := read(txt, k)
			if (rv.Kind() == reflect.String || rv.Kind() == reflect.Slice) && typ.Name() != "string" && txt == "on" {
				judged = false // "on" is known in plain strings
			}
			if !judged {
				continue
			}
			if ok != (err == nil) || !same(reflect.ValueOf(x), reflect.ValueOf(want)) || !same(reflect.ValueOf(must), reflect.ValueOf(want)) {
				c.Fatalf("ValueTo(%#v) as %s gives %#v (Must %#v), error %v; expected %#v, valid %v", v, k, x, must, err, want, ok)
			}
		}
		n, err := utils.ToInt64(v)
		switch rv.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			want, ok, _ := read(txt, reflect.Int64)
			if ok != (err == nil) || n != want.(int64) {
				c.Fatalf("ToInt64(%#v) gives %d, error %v", v, n, err)
			}
			base := rapid.IntRange(2, 36).Draw(c.T, "base")
			bs := utils.ToStr(v, base)
			if b, ok := new(big.Int).SetString(bs, base); !ok || b.String() != txt {
				c.Fatalf("ToStr(%#v, %d) is %q, which is %v", v, base, bs, b)
			}
		case reflect.Float32, reflect.Float64:
			prec := rapid.IntRange(0, 12).Draw(c.T, "prec")
			if ps, w := utils.ToStr(v, prec), fmt.Sprintf("%.*f", prec, rv.Float()); ps != w {
				c.Fatalf("ToStr(%#v, %d) is %q, expected %q", v, prec, ps, w)
			}
		default:
			if err == nil || n != 0 {
				c.Fatalf("ToInt64(%#v) gives %d, error %v", v, n, err)
			}
		}
	})
}

func TestU03_Strings(t *testing.T) {
	h.Check(t, h.Spec{ID: "U03", Quick: 5000, Thorough: 200000,
		Rule: "a list of words joined by a separator with blanks, split by StrTo.Strings; byte and digest forms of any text; non-trivial: at least two words",
	}, func(c *h.C) {
		words := rapid.SliceOfN(rapid.StringMatching(`[a-z0-9é]{0,3}( [a-z]{1,2})?`), 1, 5).Draw(c.T, "words")
		sep := h.Pick(c.T, "sep", ",", ";", "||", "\n")
		var b strings.Builder
		for i, w := range words {
			words[i] = strings.TrimSpace(w)
			if i > 0 {
				b.WriteString(sep)
			}
			b.WriteString(h.Pick(c.T, "pre", "", " ", "\t ") + words[i] + h.Pick(c.T, "post", "", " ", "  "))
		}
		s := b.String()
		if len(words) > 1 {
			c.NonTrivial(s)
		}
		var got []string
		if sep == "," && rapid.Bool().Draw(c.T, "default") {
			got = strip.StrTo(s).Strings()
		} else {
			got = strip.StrTo(s).Strings(sep)
		}
		if !reflect.DeepEqual(got, words) {
			c.Fatalf("StrTo(%q).Strings(%q) is %q, expected %q", s, sep, got, words)
		}
		txt := genText(c.T)
		if strip.StrTo(txt).String() != txt || utils.StrTo(txt).String() != txt || string(utils.StrTo(txt).Bytes()) != txt {
			c.Fatalf("StrTo(%q) changes the text", txt)
		}
		sum := md5.Sum([]byte(txt))
		if utils.StrTo(txt).Md5() != hex.EncodeToString(sum[:]) {
			c.Fatalf("StrTo(%q).Md5() is %q", txt, utils.StrTo(txt).Md5())
		}
	})
}
