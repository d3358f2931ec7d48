package paramsx

import (
	"fmt"
	"math"
	"math/big"
	"net/url"
	"os"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/wujiu2020/strip/params"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
)

// a zone that is neither UTC nor whole hours
func TestMain(m *testing.M) {
	time.Local = time.FixedZone("LOC", 5*3600+30*60)
	// an allocation out of any proportion ends this process only
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 12 << 30, Max: 12 << 30})
	os.Exit(m.Run())
}

type (
	MyInt   int16
	MyUint  uint8
	MyFloat float32
	MyStr   string
	MyBool  bool
)

func typeOf[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

var scalars = []reflect.Type{
	typeOf[int](), typeOf[int8](), typeOf[int16](), typeOf[int32](), typeOf[int64](), typeOf[MyInt](), typeOf[time.Duration](),
	typeOf[uint](), typeOf[uint8](), typeOf[uint16](), typeOf[uint32](), typeOf[uint64](), typeOf[MyUint](),
	typeOf[float32](), typeOf[float64](), typeOf[MyFloat](),
	typeOf[string](), typeOf[MyStr](), typeOf[bool](), typeOf[MyBool](), typeOf[time.Time](),
}

var intText = regexp.MustCompile(`^-?[0-9]+$`)
var uintText = regexp.MustCompile(`^[0-9]+$`)
var floatText = regexp.MustCompile(`^-?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?$`)

var layouts = []string{"2006-01-02", "2006-01-02 15:04", "2006-01-02 15:04:05", time.RFC3339}

// denoted is the value a text denotes in a type; the zero value if none.
func denoted(text string, typ reflect.Type) reflect.Value {
	v := reflect.New(typ).Elem()
	if typ == typeOf[time.Time]() {
		if t, ok := denotedTime(text); ok {
			v.Set(reflect.ValueOf(t))
		}
		return v
	}
	switch typ.Kind() {
	case reflect.String:
		v.SetString(text)
	case reflect.Bool:
		switch strings.ToLower(strings.TrimSpace(text)) {
		case "true", "on", "1":
			v.SetBool(true)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if intText.MatchString(text) {
			n, _ := new(big.Int).SetString(text, 10)
			if n.IsInt64() && !v.OverflowInt(n.Int64()) {
				v.SetInt(n.Int64())
			}
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if uintText.MatchString(text) {
			n, _ := new(big.Int).SetString(text, 10)
			if n.IsUint64() && !v.OverflowUint(n.Uint64()) {
				v.SetUint(n.Uint64())
			}
		}
	case reflect.Float32:
		if floatText.MatchString(text) {
			r, _ := new(big.Rat).SetString(text)
			if f, _ := r.Float32(); !math.IsInf(float64(f), 0) {
				v.SetFloat(float64(f))
			}
		}
	case reflect.Float64:
		if floatText.MatchString(text) {
			r, _ := new(big.Rat).SetString(text)
			if f, _ := r.Float64(); !math.IsInf(f, 0) {
				v.SetFloat(f)
			}
		}
	}
	return v
}

func denotedTime(text string) (time.Time, bool) {
	for _, l := range layouts {
		if l == time.RFC3339 {
			if t, err := time.Parse(l, text); err == nil {
				return t, true
			}
		} else if t, err := time.ParseInLocation(l, text, time.Local); err == nil {
			return t, true
		}
	}
	if intText.MatchString(text) {
		if n, err := strconv.ParseInt(text, 10, 64); err == nil {
			return time.Unix(n, 0), true
		}
	}
	return time.Time{}, false
}

// same compares values, times as instants.
func same(a, b reflect.Value) bool {
	if a.Kind() == reflect.Ptr && b.Kind() == reflect.Ptr {
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return same(a.Elem(), b.Elem())
	}
	if a.Type() != b.Type() {
		return false
	}
	if t, ok := a.Interface().(time.Time); ok {
		return t.Equal(b.Interface().(time.Time))
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

// genValue draws a value of a scalar type and a way of writing it.
func genValue(t *rapid.T, typ reflect.Type) (reflect.Value, string) {
	v := reflect.New(typ).Elem()
	if typ == typeOf[time.Time]() {
		tm := time.Unix(rapid.Int64Range(-6e10, 2.5e11).Draw(t, "unix"), 0)
		switch h.Pick(t, "layout", "date", "minutes", "seconds", "zone", "fraction", "unix") {
		case "date":
			tm = time.Date(tm.Year(), tm.Month(), tm.Day(), 0, 0, 0, 0, time.Local)
			v.Set(reflect.ValueOf(tm))
			return v, tm.Format(layouts[0])
		case "minutes":
			tm = time.Date(tm.Year(), tm.Month(), tm.Day(), tm.Hour(), tm.Minute(), 0, 0, time.Local)
			v.Set(reflect.ValueOf(tm))
			return v, tm.Format(layouts[1])
		case "seconds":
			v.Set(reflect.ValueOf(tm))
			return v, tm.Format(layouts[2])
		case "zone":
			tm = tm.In(time.FixedZone("z", 60*rapid.IntRange(-14*60, 14*60).Draw(t, "zone")))
			if tm.Year() < 1 || tm.Year() > 9999 {
				tm = time.Unix(0, 0)
			}
			v.Set(reflect.ValueOf(tm))
			return v, tm.Format(time.RFC3339)
		case "fraction":
			// a fraction of the seconds is read although no format shows it
			tm = time.Unix(tm.Unix(), rapid.Int64Range(0, 999999999).Draw(t, "ns"))
			if h.Pct(t, 50, "local") {
				v.Set(reflect.ValueOf(tm))
				return v, tm.Format("2006-01-02 15:04:05.999999999")
			}
			tm = tm.In(time.FixedZone("z", 60*rapid.IntRange(-14*60, 14*60).Draw(t, "zone")))
			if tm.Year() < 1 || tm.Year() > 9999 {
				tm = time.Unix(0, 5)
			}
			v.Set(reflect.ValueOf(tm))
			return v, tm.Format(time.RFC3339Nano)
		}
		v.Set(reflect.ValueOf(tm))
		return v, strconv.FormatInt(tm.Unix(), 10)
	}
	switch typ.Kind() {
	case reflect.String:
		v.SetString(rapid.String().Draw(t, "text"))
		if h.Pct(t, 15, "telling") {
			v.SetString(h.Pick(t, "telling text", "null", "nil", "undefined", "true", "0", "{}", "[]", "a,b", "a b", "[0]", "é", "%41", "+"))
		}
		return v, v.String()
	case reflect.Bool:
		v.SetBool(rapid.Bool().Draw(t, "bool"))
		if v.Bool() {
			return v, h.Pick(t, "spelling", "true", "on", "1", "True", " ON ", "true\t")
		}
		return v, h.Pick(t, "spelling", "false", "off", "0", "", "no")
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		bits := typ.Bits()
		n := rapid.Int64().Draw(t, "int") >> (64 - bits)
		n = h.Pick(t, "int kind", n, n, n>>uint(bits/2), math.MinInt64>>(64-bits), math.MaxInt64>>(64-bits))
		v.SetInt(n)
		return v, strconv.FormatInt(n, 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		bits := typ.Bits()
		n := rapid.Uint64().Draw(t, "uint") >> (64 - bits)
		n = h.Pick(t, "uint kind", n, n, n>>uint(bits/2), uint64(math.MaxUint64)>>(64-bits))
		v.SetUint(n)
		return v, strconv.FormatUint(n, 10)
	case reflect.Float32, reflect.Float64:
		var f float64
		if typ.Bits() == 32 {
			f = float64(rapid.Float32().Draw(t, "float"))
		} else {
			f = rapid.Float64().Draw(t, "float")
		}
		v.SetFloat(f)
		return v, strconv.FormatFloat(f, h.Pick[byte](t, "format", 'g', 'e', 'f'), -1, typ.Bits())
	}
	panic(typ)
}

// genText draws a text around the limits of a type.
func genText(t *rapid.T) string {
	switch h.Pick(t, "text kind", "int", "limit", "float", "junk", "other", "any", "unit") {
	case "int":
		return strconv.FormatInt(rapid.Int64().Draw(t, "n"), 10)
	case "limit":
		n := new(big.Int).Lsh(big.NewInt(1), uint(h.Pick(t, "bits", 7, 8, 15, 16, 31, 32, 63, 64, 65, 128)))
		n.Add(n, big.NewInt(rapid.Int64Range(-2, 2).Draw(t, "off")))
		if rapid.Bool().Draw(t, "neg") {
			n.Neg(n)
		}
		return n.String()
	case "float":
		return fmt.Sprintf("%s%d.%de%d", h.Pick(t, "sign", "", "-"), rapid.IntRange(0, 99999).Draw(t, "a"), rapid.IntRange(0, 1<<40).Draw(t, "b"), rapid.IntRange(-400, 400).Draw(t, "e"))
	case "junk":
		return h.Pick(t, "junk", "", " ", "-", "--1", "1 ", " 1", "1,5", "1.2.3", "1e", "0b", "z", "true1", "12:30", "2006-13-01", "2006-02-30", "2020-01-02 25:00", "2020-01-02T03:04:05", "1.0", "é", "१२", "0x10", "010", "0b11", "0o17", "1_000", "-012", "00", "yes", "t", "T", "y", "enabled", "2", "truely", "on1", "+-5", "++5", "-+5", "+", "+ 5", "5+")
	case "unit":
		_, s := genValue(t, h.Pick(t, "unit of", typeOf[int16](), typeOf[uint64](), typeOf[float32](), typeOf[float64](), typeOf[time.Time]()))
		u := h.Pick(t, "unit", "f", "d", "F", "L", "u", "l", "n", "m", "h", "k", "Z", "%", "px", "ms", "s", ".", ",", ";", "\x00", "\n", "e", "E5 ", "$", "€")
		if h.Pct(t, 15, "in front") {
			return u + s
		}
		return s + u
	case "other":
		_, s := genValue(t, rapid.SampledFrom(scalars).Draw(t, "other type"))
		return s
	}
	return rapid.String().Draw(t, "text")
}

// unclear texts have spellings outside of what the property states.
func unclear(text string, typ reflect.Type) bool {
	switch typ.Kind() {
	case reflect.Float32, reflect.Float64:
		l := strings.ToLower(text)
		return strings.Contains(l, "inf") || strings.Contains(l, "nan") || strings.Contains(l, "x") || strings.Contains(l, "p") || strings.Contains(l, "_") || strings.HasPrefix(l, "+")
	case reflect.String, reflect.Bool:
		return false
	}
	return plusText.MatchString(text)
}

var plusText = regexp.MustCompile(`^\+[0-9]+$`)

func TestP01(t *testing.T) {
	h.Check(t, h.Spec{ID: "P01", Quick: 60000, Thorough: 1500000,
		Rule: "a value of one of 21 scalar types (or behind up to two pointers) written as text, or a text around the limits of the types, or no parameter, bound through Bind, Params.Bind, BindValue and BindValuesToStruct to a preset destination; compared with an arbitrary-precision reading of the text. Non-trivial: the text denotes a value other than zero, or does not denote one."},
		func(c *h.C) {
			typ := rapid.SampledFrom(scalars).Draw(c.T, "type")
			var text string
			var wantV reflect.Value
			absent := false
			switch h.Pick(c.T, "case", "value", "value", "text", "text", "absent") {
			case "value":
				wantV, text = genValue(c.T, typ)
				if typ.Kind() == reflect.Float32 || typ.Kind() == reflect.Float64 {
					if wantV.Float() == 0 { // -0 and 0
						wantV, text = reflect.Zero(typ), "0"
					}
				}
				if ref := denoted(text, typ); !same(ref, wantV) {
					panic(fmt.Sprintf("oracle: %q of %v is %v, not %v", text, typ, ref, wantV))
				}
			case "text":
				text = genText(c.T)
				if unclear(text, typ) {
					c.Skip("unclear")
				}
				wantV = denoted(text, typ)
			case "absent":
				absent = true
				wantV = reflect.Zero(typ)
			}
			full := typ
			for n := h.Pick(c.T, "pointers", 0, 0, 0, 1, 2); n > 0; n-- {
				full = reflect.PtrTo(full)
				p := reflect.New(full.Elem()).Elem()
				p.Set(wantV)
				if absent {
					wantV = reflect.Zero(full)
				} else {
					wantV = p.Addr()
				}
			}
			name := h.Pick(c.T, "name", "a", "user.Name", "x-y", "é", "")
			vals := url.Values{"other": {"5"}, name + "x": {"6"}}
			if !absent {
				vals[name] = []string{text}
				if h.Pct(c.T, 20, "more") {
					vals[name] = append(vals[name], "99")
				}
			}
			ps := &params.Params{Values: vals}
			check := func(how string, got reflect.Value) {
				if got.Type() != full || !same(got, wantV) {
					c.Fatalf("%s: %q as %v gives %v (%v), want %v", how, text, full, deref(got), got.Type(), deref(wantV))
				}
			}
			check("Bind", params.Bind(ps, name, full))
			dst := reflect.New(full)
			if h.Pct(c.T, 50, "preset") && full == typ {
				v, _ := genValue(c.T, typ)
				dst.Elem().Set(v)
			}
			ps.Bind(dst.Interface(), name)
			check("Params.Bind", dst.Elem())
			if !absent {
				check("BindValue", params.BindValue(text, full))
			}
			if name == "a" || name == "x-y" {
				st := reflect.New(reflect.StructOf([]reflect.StructField{
					{Name: "First", Type: typeOf[int](), Tag: `param:"-"`},
					{Name: "F", Type: full, Tag: reflect.StructTag(`param:"` + name + h.Pick(c.T, "option", "", ",x") + `"`)},
				}))
				st.Elem().Field(0).SetInt(3)
				if h.Pct(c.T, 50, "method") {
					ps.BindValuesToStruct(st.Interface())
				} else {
					params.BindValuesToStruct(st.Interface(), vals)
				}
				check("BindValuesToStruct", st.Elem().Field(1))
				if st.Elem().Field(0).Int() != 3 {
					c.Fatalf("the field tagged - became %d", st.Elem().Field(0).Int())
				}
			}
			cl := "zero"
			if absent {
				cl = "absent"
			} else if !deref(wantV).IsZero() {
				cl = "value"
			}
			c.Label("%s %v", cl, typ)
			if cl != "absent" && text != "0" {
				c.NonTrivial(fmt.Sprintf("%q as %v", text, full))
			}
		})
}

var ownFormats = append([]string{"2006-01-02T15:04", "2006-01-02T15:04:05.000", "02.01.2006", "15:04", "Jan 2, 2006 at 3:04pm", "20060102", "2006", time.RFC850[:len(time.RFC850)-4], time.RFC1123Z, "2006-01-02 15:04:05 -0700", "20060102T150405Z07:00", "", time.RFC3339Nano}, layouts...)

// An application can set the formats of times.
func TestP01_formats(t *testing.T) {
	def := params.TimeFormats
	defer func() { params.TimeFormats = def }()
	h.Check(t, h.Spec{ID: "P01", Quick: 4000, Thorough: 100000,
		Rule: "0-5 time formats set by the application (with and without zone, other orders of fields, partly overlapping) and a text written in one of the known formats, or a junk text, bound to a time; the first format that reads the text tells the instant, in local time if it names no zone, else Unix seconds do. Non-trivial: the text denotes a time."},
		func(c *h.C) {
			fs := rapid.SliceOfN(rapid.SampledFrom(ownFormats), 0, 5).Draw(c.T, "formats")
			params.TimeFormats = fs
			var text string
			if h.Pct(c.T, 85, "a time") {
				from := ownFormats
				if len(fs) > 0 && h.Pct(c.T, 80, "of these") {
					from = fs
				}
				tm := time.Unix(rapid.Int64Range(-6e10, 2.5e11).Draw(c.T, "unix"), 1e6*rapid.Int64Range(0, 999).Draw(c.T, "ms"))
				tm = tm.In(time.FixedZone("", 60*rapid.IntRange(-14*60, 14*60).Draw(c.T, "zone")))
				if f := rapid.SampledFrom(from).Draw(c.T, "written"); f != "" {
					text = tm.Format(f)
				} else {
					text = strconv.FormatInt(tm.Unix(), 10)
				}
			} else {
				text = genText(c.T)
				if unclear(text, typeOf[time.Time]()) {
					c.Skip("unclear")
				}
			}
			want := time.Time{}
			how := ""
			for _, f := range fs {
				if f == "" {
					continue
				}
				var tm time.Time
				var err error
				if strings.Contains(f, "07") { // a zone
					tm, err = time.Parse(f, text)
				} else {
					tm, err = time.ParseInLocation(f, text, time.Local)
				}
				if err == nil {
					want, how = tm, f
					break
				}
			}
			if n, err := strconv.ParseInt(text, 10, 64); err == nil && how == "" && intText.MatchString(text) {
				want, how = time.Unix(n, 0), "unix"
			}
			var got struct {
				At time.Time
				P  *time.Time
				L  []time.Time
			}
			params.BindValuesToStruct(&got, url.Values{"At": {text}, "P": {text}, "L[1]": {text}})
			if !got.At.Equal(want) || got.P == nil || !got.P.Equal(want) || len(got.L) != 2 || !got.L[1].Equal(want) || !got.L[0].IsZero() {
				c.Fatalf("formats %q: %q gives %v, %v, %v, want %v (%s)", fs, text, got.At, got.P, got.L, want, how)
			}
			if v := params.BindValue(text, typeOf[time.Time]()); !v.Interface().(time.Time).Equal(want) {
				c.Fatalf("formats %q: BindValue(%q) gives %v, want %v (%s)", fs, text, v, want, how)
			}
			if how != "" {
				c.NonTrivial(fmt.Sprintf("%q of %q", text, fs))
			}
		})
}

func deref(v reflect.Value) reflect.Value {
	for v.Kind() == reflect.Ptr && !v.IsNil() {
		v = v.Elem()
	}
	return v
}
