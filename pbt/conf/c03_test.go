package conf

import (
	"fmt"
	"math"
	"os"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/config"
	"github.com/wujiu2020/strip/utils/helpers"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
)

type MyInt int16
type MyUint uint
type MyStr string
type MyBool bool
type MyFloat float32
type MyList []string
type MyBytes []byte

var scalarTypes = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(""), reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)),
	reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)),
	reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)),
	reflect.TypeOf([]string{}), reflect.TypeOf([]byte{}),
	reflect.TypeOf(MyInt(0)), reflect.TypeOf(MyUint(0)), reflect.TypeOf(MyStr("")), reflect.TypeOf(MyBool(false)), reflect.TypeOf(MyFloat(0)),
	reflect.TypeOf(MyList{}), reflect.TypeOf(MyBytes{}), reflect.TypeOf(strip.Mode("")),
}

// value reads text as typ; ok is false when it denotes no such value.
func value(text string, typ reflect.Type) (v reflect.Value, ok bool) {
	v, ok = reflect.New(typ).Elem(), true
	switch typ.Kind() {
	case reflect.Bool:
		switch text {
		case "on", "1", "t", "T", "true", "TRUE", "True":
			v.SetBool(true)
		case "0", "f", "F", "false", "FALSE", "False":
		default:
			ok = false
		}
	case reflect.String:
		v.SetString(text)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n, err := strconv.ParseInt(text, 10, typ.Bits())
		if ok = err == nil; ok {
			v.SetInt(n)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n, err := strconv.ParseUint(text, 10, typ.Bits())
		if ok = err == nil; ok {
			v.SetUint(n)
		}
	case reflect.Float32, reflect.Float64:
		n, err := strconv.ParseFloat(text, typ.Bits())
		if ok = err == nil; ok {
			v.SetFloat(n)
		}
	case reflect.Slice:
		if typ.Elem().Kind() == reflect.Uint8 {
			v.SetBytes([]byte(text))
			break
		}
		v.Set(reflect.MakeSlice(typ, 0, 0))
		for _, e := range strings.Split(text, ",") {
			if e = strings.TrimSpace(e); e != "" {
				v = reflect.Append(v, reflect.ValueOf(e))
			}
		}
	}
	return
}

var texts = []string{"nil", "null", "none", "undefined", "0", "1", "-1", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648",
	"4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616",
	"1.5", "1e3", "-0", "3.4028236e38", "1e400", "0x10", "010", "1_000", "true", "false", "on", "off", "yes", "no", "y", "n", "ON", "On", "TRUE", "True", "tRUE", "F", "t", "enable", "disabled", "inf", "-Inf", "NaN", "0b1", "0o7", "1k", "10MB", "5s", "1,5", "1.0", "1.", ".5", "50%", "00", "-00", "\"q\"", "'q'", "T", "word", "wörd", "a,b", " a , b,,c", "b,a,a, a,B,b", ",", "=", "a b"}

func genValText(t *rapid.T) string {
	switch h.Pick(t, "text", "fixed", "fixed", "int", "uint", "float", "free") {
	case "int":
		return strconv.FormatInt(rapid.Int64().Draw(t, "int"), 10)
	case "uint":
		return strconv.FormatUint(rapid.Uint64().Draw(t, "uint"), 10)
	case "float":
		return strconv.FormatFloat(rapid.Float64().Draw(t, "float"), 'g', -1, 64)
	case "free":
		return rapid.StringN(1, 8, 20).Draw(t, "free")
	}
	return strings.TrimSpace(rapid.SampledFrom(texts).Draw(t, "fixed"))
}

// flat is the simplest configuration.
type flat map[string]string

func (f flat) Find(name string) string { return f[name] }

func same(a, b reflect.Value) bool {
	for a.Kind() == reflect.Ptr && b.Kind() == reflect.Ptr {
		if a.IsNil() || b.IsNil() {
			return a.IsNil() && b.IsNil()
		}
		a, b = a.Elem(), b.Elem()
	}
	switch a.Kind() {
	case reflect.Float32, reflect.Float64:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	case reflect.Slice:
		if a.Len() == 0 && b.Len() == 0 {
			return true
		}
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

func show(v reflect.Value) string {
	for v.Kind() == reflect.Ptr && !v.IsNil() {
		v = v.Elem()
	}
	return fmt.Sprintf("%v %#v", v.Type(), v.Interface())
}

func genType(t *rapid.T) (reflect.Type, int) {
	typ := rapid.SampledFrom(scalarTypes).Draw(t, "type")
	depth := h.Pick(t, "pointers", 0, 0, 0, 1, 1, 2, 3)
	for i := 0; i < depth; i++ {
		typ = reflect.PtrTo(typ)
	}
	return typ, depth
}

func deref(typ reflect.Type) reflect.Type {
	for typ.Kind() == reflect.Ptr {
		typ = typ.Elem()
	}
	return typ
}

// preset gives the destination a default.
func preset(t *rapid.T, v reflect.Value) {
	if h.Pct(t, 30, "no default") {
		return
	}
	for v.Kind() == reflect.Ptr {
		v.Set(reflect.New(v.Type().Elem()))
		v = v.Elem()
	}
	if d, ok := value(h.Pick(t, "default", "7", "true", "1.25"), v.Type()); ok {
		v.Set(d)
	}
}

// clone copies a destination, including what its pointers point to.
func clone(v reflect.Value) reflect.Value {
	c := reflect.New(v.Type()).Elem()
	switch {
	case v.Kind() == reflect.Ptr && !v.IsNil():
		p := reflect.New(v.Type().Elem())
		p.Elem().Set(clone(v.Elem()))
		c.Set(p)
	case v.Kind() == reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if c.Field(i).CanSet() {
				c.Field(i).Set(clone(v.Field(i)))
			}
		}
	default:
		c.Set(v)
	}
	return c
}

// verify compares a destination after reading text into it.
func verify(text string, before, after reflect.Value) string {
	typ := deref(after.Type())
	if text == "" {
		if !same(before, after) {
			return fmt.Sprintf("absent, but %s became %s", show(before), show(after))
		}
		return ""
	}
	want, ok := value(text, typ)
	if !ok {
		// no such value: the default or zero, nothing else
		zero := reflect.Zero(typ)
		x := after
		for x.Kind() == reflect.Ptr && !x.IsNil() {
			x = x.Elem()
		}
		if same(before, after) || x.Kind() != reflect.Ptr && same(zero, x) {
			return ""
		}
		return fmt.Sprintf("%q is no %v, but %s became %s", text, typ, show(before), show(after))
	}
	x := after
	for x.Kind() == reflect.Ptr {
		if x.IsNil() {
			return fmt.Sprintf("%q was not read into %v", text, after.Type())
		}
		x = x.Elem()
	}
	if !same(want, x) {
		return fmt.Sprintf("%q read into %v is %s, want %s", text, after.Type(), show(after), show(want))
	}
	return ""
}

func TestC03(t *testing.T) {
	h.Check(t, h.Spec{ID: "C03", Quick: 25000, Thorough: 400000,
		Rule: "one destination of a random type (24 scalar and list types, up to three pointers deep, preset or not) and one value text; the destination is compared with an independent reading. Non-trivial: the text denotes a value of the type."},
		func(c *h.C) {
			typ, _ := genType(c.T)
			dest := reflect.New(typ)
			preset(c.T, dest.Elem())
			before := clone(dest.Elem())
			text := ""
			if !h.Pct(c.T, 15, "absent") {
				text = genValText(c.T)
			}
			key := h.Pick(c.T, "key", "k", "sec::k")
			cfg := &strip.Config{Configer: flat{key: text, "other": "9"}}
			if p := h.Try(func() { cfg.Bind(dest.Interface(), key) }); p != nil {
				c.Fatalf("%q into %v: panic %v", text, typ, p)
			}
			if s := verify(text, before, dest.Elem()); s != "" {
				c.Fatalf("%s", s)
			}
			_, ok := value(text, deref(typ))
			c.Label("%v denotes=%v", deref(typ).Kind(), ok && text != "")
			if ok && text != "" {
				c.NonTrivial(fmt.Sprintf("%v %q", typ, text))
			}
		})
}

type Shown struct {
	S string   `conf:"shown_s"`
	I *int     `conf:"shown_i"`
	L []string `conf:"sec1::k1"`
	N int
}

type hidden struct {
	S   string `conf:"hidden_s"`
	U   uint8  `conf:"hidden_u"`
	Sub struct {
		A bool    `conf:"a"`
		B float64 `conf:"b"`
		C string
		D string `conf:"-"`
	} `conf:"hsec"`
}

type Outer struct {
	Shown
	hidden
	Z int `conf:"outer_z"`
}

type field struct {
	index []int
	key   string
}

// Whole structs.
func TestC03_struct(t *testing.T) {
	h.Check(t, h.Spec{ID: "C03", Quick: 6000, Thorough: 100000,
		Rule: "a struct type with generated fields, tags, sections and untagged and skipped fields (or one with embedded structs), preset at random, decoded from a generated configuration; every field compared with an independent reading. Non-trivial: at least two fields were present."},
		func(c *h.C) {
			cfg := flat{}
			var fields []field
			var typ reflect.Type
			newKey := func(k string) string {
				if h.Pct(c.T, 75, "present") {
					cfg[k] = genValText(c.T)
				}
				return k
			}
			if h.Pct(c.T, 25, "embedded") {
				typ = reflect.TypeOf(Outer{})
				for _, f := range []field{{[]int{0, 0}, "shown_s"}, {[]int{0, 1}, "shown_i"}, {[]int{0, 2}, "sec1::k1"}, {[]int{0, 3}, ""},
					{[]int{1, 0}, "hidden_s"}, {[]int{1, 1}, "hidden_u"}, {[]int{1, 2, 0}, "hsec::a"}, {[]int{1, 2, 1}, "hsec::b"}, {[]int{1, 2, 2}, ""}, {[]int{1, 2, 3}, ""},
					{[]int{2}, "outer_z"}} {
					if f.key != "" {
						newKey(f.key)
					}
					fields = append(fields, f)
				}
			} else {
				var make func(sec string, prefix []int) reflect.Type
				make = func(sec string, prefix []int) reflect.Type {
					var sf []reflect.StructField
					for i, n := 0, rapid.IntRange(0, 6).Draw(c.T, "fields"); i < n; i++ {
						idx := append(append([]int{}, prefix...), i)
						f := reflect.StructField{Name: fmt.Sprintf("F%d", i)}
						kind := h.Pick(c.T, "field", "tagged", "tagged", "tagged", "untagged", "skipped", "section", "foreign tag")
						if kind == "section" && sec != "" {
							kind = "tagged"
						}
						if sec != "" {
							cfg[sec+"::-"], cfg[sec+"::"] = "9", "9"
						}
						if kind == "section" {
							name := fmt.Sprintf(h.Pick(c.T, "section name", "sec%d", "sec%d", "Sec%d", "my.SEC-%d", "sec %d"), i)
							f.Type = make(name, idx)
							f.Tag = reflect.StructTag(fmt.Sprintf(`conf:"%s"`, name))
							sf = append(sf, f)
							continue
						}
						f.Type, _ = genType(c.T)
						fl := field{index: idx}
						switch kind {
						case "tagged":
							k := fmt.Sprintf(h.Pick(c.T, "key name", "k%d", "k%d", "K%d", "Key.%d_x", "é-%d"), rapid.IntRange(0, 9).Draw(c.T, "key"))
							f.Tag = reflect.StructTag(fmt.Sprintf(`json:"x" conf:"%s"`, k))
							if sec != "" {
								k = sec + "::" + k
							}
							if _, ok := cfg[k]; !ok {
								newKey(k)
							}
							fl.key = k
						case "skipped":
							f.Tag = `conf:"-"`
						case "foreign tag":
							f.Tag = `json:"k1"`
						}
						fields = append(fields, fl)
						sf = append(sf, f)
					}
					return reflect.StructOf(sf)
				}
				cfg["-"], cfg["F1"], cfg["x"] = "9", "9", "9"
				typ = make("", nil)
			}
			dest := reflect.New(typ)
			for _, f := range fields {
				preset(c.T, dest.Elem().FieldByIndex(f.index))
			}
			for i := range fields {
				// two fields may start with the same default
				for j := range fields[:i] {
					a, b := dest.Elem().FieldByIndex(fields[j].index), dest.Elem().FieldByIndex(fields[i].index)
					if a.Kind() == reflect.Ptr && a.Type() == b.Type() && h.Pct(c.T, 40, "shared default") {
						b.Set(a)
					}
				}
			}
			before := make([]reflect.Value, len(fields))
			for i, f := range fields {
				before[i] = clone(dest.Elem().FieldByIndex(f.index))
			}
			if p := h.Try(func() { config.Decode(&strip.Config{Configer: cfg}, dest.Interface()) }); p != nil {
				c.Fatalf("%v from %q: panic %v", typ, cfg, p)
			}
			present := 0
			for i, f := range fields {
				text := ""
				if f.key != "" {
					text = cfg[f.key]
				}
				if text != "" {
					present++
				}
				if s := verify(text, before[i], dest.Elem().FieldByIndex(f.index)); s != "" {
					c.Fatalf("%v from %q: field %v: %s", typ, cfg, f.index, s)
				}
			}
			if present >= 2 {
				c.NonTrivial(fmt.Sprintf("%v from %q", typ, cfg))
			}
			c.Label("%d fields present", present)
		})
}

// The application follows its configuration.
func TestC03_app(t *testing.T) {
	h.Check(t, h.Spec{ID: "C03", Quick: 4000, Thorough: 50000,
		Rule: "applications importing 1-3 generated configurations in turn; path, mode, address and port follow what is set and keep what is not; comma separated flag values keep their elements. Non-trivial: a setting was kept from an earlier configuration."},
		func(c *h.C) {
			sp := strip.New()
			want := map[string]string{"run_path": sp.Config.RunPath, "run_mode": "prod", "http_addr": "127.0.0.1", "http_port": "3000"}
			kept := false
			for n := rapid.IntRange(1, 3).Draw(c.T, "imports"); n > 0; n-- {
				cf := flat{}
				for _, k := range []string{"run_path", "run_mode", "http_addr", "http_port"} {
					if h.Pct(c.T, 50, k) {
						cf[k] = h.Pick(c.T, "setting", "dev", "prod", "test", "other", "0.0.0.0", "8080", "/srv/x", "é")
						want[k] = cf[k]
					} else {
						kept = true
					}
				}
				sp.ImportConfig(cf)
				got := map[string]string{"run_path": sp.Config.RunPath, "run_mode": string(sp.Config.RunMode), "http_addr": sp.Config.HttpAddr, "http_port": sp.Config.HttpPort}
				if !reflect.DeepEqual(got, want) {
					c.Fatalf("after importing %q: %q, want %q", cf, got, want)
				}
				m := sp.Config.RunMode
				if m.IsDev() != (want["run_mode"] == "dev") || m.IsProd() != (want["run_mode"] == "prod") || m.IsTest() != (want["run_mode"] == "test") {
					c.Fatalf("mode %q: dev %v test %v prod %v", m, m.IsDev(), m.IsTest(), m.IsProd())
				}
				for k := range want {
					if got := sp.Config.Find(k, "d"); got != cf[k] && !(cf[k] == "" && got == "d") {
						c.Fatalf("%q of %q is %q", k, cf, got)
					}
				}
			}
			var sv helpers.SliceValue
			var model []string
			for n := rapid.IntRange(0, 3).Draw(c.T, "flags"); n > 0; n-- {
				arg := strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{"a", " b", "c ", "", " ", "d e", "a", "A", "B", "b"}), 0, 4).Draw(c.T, "flag"), ",")
				if err := sv.Set(arg); err != nil {
					c.Fatalf("Set(%q): %v", arg, err)
				}
				for _, e := range strings.Split(arg, ",") {
					if e = strings.TrimSpace(e); e != "" {
						model = append(model, e)
					}
				}
			}
			if sv.String() != strings.Join(model, ",") || len(sv) != len(model) {
				c.Fatalf("list flag is %q, want %q", []string(sv), model)
			}
			sv.Unique()
			var uniq []string
			for _, e := range model {
				if !strings.Contains("\x00"+strings.Join(uniq, "\x00")+"\x00", "\x00"+e+"\x00") {
					uniq = append(uniq, e)
				}
			}
			if sv.String() != strings.Join(uniq, ",") {
				c.Fatalf("unique of %q is %q", model, []string(sv))
			}
			if kept {
				c.NonTrivial(fmt.Sprint(want, model))
			}
		})
}

// TestC03_env makes applications in generated environments.
func TestC03_env(t *testing.T) {
	vars := map[string]string{"RUN_PATH": "run_path", "RUN_MODE": "run_mode", "HTTP_ADDR": "http_addr", "HTTP_PORT": "http_port"}
	for v := range vars {
		old, had := os.LookupEnv(v)
		defer func(v string) {
			if had {
				os.Setenv(v, old)
			} else {
				os.Unsetenv(v)
			}
		}(v)
	}
	wd, err := os.Getwd()
	h.Env(err)
	h.Check(t, h.Spec{ID: "C03", Quick: 3000, Thorough: 40000,
		Rule: "New applications with some settings in the environment (or empty there): each setting is the one of the environment or else its default (the working directory, prod, 127.0.0.1, 3000), and stays when a configuration file that sets it too is imported; defaults for missing values come with or without a configuration. Non-trivial: a setting of the environment."},
		func(c *h.C) {
			want := map[string]string{"run_path": wd, "run_mode": "prod", "http_addr": "127.0.0.1", "http_port": "3000"}
			some := map[string]bool{}
			for v, k := range vars {
				os.Unsetenv(v)
				if h.Pct(c.T, 40, v) {
					x := h.Pick(c.T, "value", "dev", "prod", "test", "0.0.0.0", "8080", "/srv/x", "é", "")
					os.Setenv(v, x)
					if x != "" {
						want[k], some[k] = x, true
					}
				}
			}
			sp := strip.New()
			check := func(when string) {
				got := map[string]string{"run_path": sp.Config.RunPath, "run_mode": string(sp.Config.RunMode), "http_addr": sp.Config.HttpAddr, "http_port": sp.Config.HttpPort}
				if !reflect.DeepEqual(got, want) {
					c.Fatalf("%s: %q, want %q", when, got, want)
				}
			}
			check("a new application")
			if got := sp.Config.Find("no_such_value"); got != "" {
				c.Fatalf("a value nobody set is %q", got)
			}
			if got := sp.Config.Find("no_such_value", "d"); got != "d" {
				c.Fatalf("a value nobody set with default d is %q, before a configuration is imported", got)
			}
			n := 7
			if p := h.Try(func() { sp.Config.Bind(&n, "no_such_value") }); p != nil || n != 7 {
				c.Fatalf("reading a value nobody set gives %d, panic %v", n, p)
			}
			text := ""
			for _, k := range h.Keys(want) {
				if h.Pct(c.T, 50, k+" in the file") {
					x := h.Pick(c.T, "file value", "dev", "prod", "other", "::1", "81", "/y")
					text += k + " = " + x + "\n"
					if !some[k] {
						want[k] = x
					}
				}
			}
			cf, err := config.LoadIniFromReader(strings.NewReader(text))
			h.Env(err)
			sp.ImportConfig(cf)
			check(fmt.Sprintf("after importing %q", text))
			if got := sp.Config.Find("no_such_value", "d"); got != "d" {
				c.Fatalf("a value nobody set with default d is %q", got)
			}
			c.Label("%d settings in the environment", len(some))
			if len(some) > 0 {
				c.NonTrivial(fmt.Sprint(want, text))
			}
		})
}
