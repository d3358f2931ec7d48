package paramsx

import (
	"bytes"
	"fmt"
	"mime/multipart"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"runtime"
	"strings"
	"testing"
	"time"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/params"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
)

type recursive struct {
	Next []recursive
	M    map[string]string
	V    int
	P    *recursive
}

type hidden struct{ H1 string }
type Shown struct {
	S1 int
	S2 []Shown2
}
type Shown2 struct{ X, Y int }

// nasty holds every kind a field can have.
type nasty struct {
	*hidden
	*Shown
	recursive
	I    interface{}
	E    error
	Ch   chan int
	Fn   func()
	Arr  [3]int
	Cx   complex128
	Mm   map[string]map[string]int
	Ms   map[string]Shown2
	Mk   map[Shown2]int
	Mi   map[interface{}]interface{}
	Mf   map[float64]bool
	Ss   [][][]int
	Sp   []*Shown
	Si   []interface{}
	T    time.Time
	Tp   *time.Time
	Fh   *multipart.FileHeader
	Fhs  []*multipart.FileHeader
	B    []byte
	Uptr uintptr
	priv int
}

type canary struct {
	N int               `param:"ok"`
	L []string          `param:"okl"`
	S Shown2            `param:"oks"`
	M map[string]string `param:"okm"`
	D []Shown2          `param:"okd"`
}

var canaryVals = url.Values{
	"ok": {"7"}, "okl[1]": {"b"}, "oks.Y": {"3"}, "okm[k]": {"v"}, "okd[0].X": {"1"}, "okd[1].Y": {"2"},
}
var canaryWant = canary{7, []string{"", "b"}, Shown2{0, 3}, map[string]string{"k": "v"}, []Shown2{{1, 0}, {0, 2}}}

var hostileTypes = []reflect.Type{
	typeOf[nasty](), typeOf[*nasty](), typeOf[[]nasty](), typeOf[map[string]nasty](), typeOf[recursive](), typeOf[[][][]recursive](),
	typeOf[[]int](), typeOf[[][]string](), typeOf[map[string]string](), typeOf[map[int]float32](), typeOf[int8](), typeOf[string](),
	typeOf[time.Time](), typeOf[bool](), typeOf[interface{}](), typeOf[[4]int](), typeOf[[]struct{ B []int }](), typeOf[***int](),
}

// genKey grows a parameter name out of fragments of the grammar.
func genKey(t *rapid.T, root string) string {
	k := root
	for n := rapid.IntRange(0, 5).Draw(t, "parts"); n > 0; n-- {
		switch h.Pick(t, "part", "field", "field", "index", "index", "key", "raw") {
		case "field":
			k += "." + h.Pick(t, "field", "Next", "M", "V", "P", "hidden", "H1", "Shown", "S1", "S2", "recursive", "I", "E", "Ch", "Fn", "Arr", "Cx", "Mm", "Ms", "Mk", "Mi", "Mf", "Ss", "Sp", "Si", "T", "Tp", "Fh", "Fhs", "B", "Uptr", "priv", "X", "", "nope")
		case "index":
			k += "[" + h.Pick(t, "index", "0", "1", "7", "00", "-1", "+3", "99999", "9999", "10000", "1000000000", "4294967296", "9223372036854775807", "9223372036854775808", "99999999999999999999999", "", " ", "0x10", "1e3", "0][1") + "]"
		case "key":
			k += "[" + rapid.StringN(0, 4, 8).Draw(t, "key") + "]"
		case "raw":
			k += h.Pick(t, "raw", "[", "]", "[[", "]]", ".", "..", "[]", "[.", "].", "\x00", "é")
		}
	}
	return k
}

func genHostileText(t *rapid.T) string {
	return h.Pick(t, "text", "1", "", "-1", "x", "{}", "{\"a\":{\"b\":[1,2]},\"c\":null,\"1\":2}", "null", "[1]", "{", strings.Repeat("[", 5000), "\x00\xff", "2020-01-01", "99999999999999999999", "1e999", "true", strings.Repeat("9", 400))
}

const memLimit = 128 << 20

func TestP04(t *testing.T) {
	h.Check(t, h.Spec{ID: "P04", Quick: 12000, Thorough: 300000,
		Rule: "up to 30 parameter names grown from indexes (huge, negative, malformed), field names of every kind and raw brackets, or thousands of sub-keys of one element, bound to 18 destination types through every entry point next to well-formed parameters; no panic, less than 128 MB allocated for a few KB of request, and the well-formed ones bound. Non-trivial: a hostile name addresses the bound destination."},
		func(c *h.C) {
			vals := url.Values{}
			for k, v := range canaryVals {
				vals[k] = v
			}
			var keys []string
			kind := h.Pick(c.T, "kind", "names", "names", "names", "names", "names", "many")
			if kind == "many" && !h.Pct(c.T, 8, "many really") {
				kind = "names"
			}
			if kind == "many" {
				pat := h.Pick(c.T, "pattern", "a[0].B[%d]", "a[0].Next[0].Next[%d].V", "a[%d]", "a[0][0][%d].V", "a.Ss[0][0][%d]", "a[0].M[%d]")
				for i := 0; i < 2500; i++ {
					vals[fmt.Sprintf(pat, i)] = []string{"1"}
				}
				keys = []string{pat}
			} else {
				for n := rapid.IntRange(1, 30).Draw(c.T, "n"); n > 0; n-- {
					k := genKey(c.T, h.Pick(c.T, "root", "a", "a", "a", "a", "", "nasty", "Ss", "Sp", "hidden", "S2", "Mm"))
					if strings.HasPrefix(k, "ok") {
						continue
					}
					vals[k] = nil
					for m := h.Pick(c.T, "values", 1, 1, 1, 2, 0); m > 0; m-- {
						vals[k] = append(vals[k], genHostileText(c.T))
					}
					keys = append(keys, k)
				}
			}
			typ := rapid.SampledFrom(hostileTypes).Draw(c.T, "type")
			ps := &params.Params{Values: vals, Files: map[string][]*multipart.FileHeader{}}
			if h.Pct(c.T, 20, "files") {
				ps.Files[genKey(c.T, "a")] = []*multipart.FileHeader{{Filename: "x"}, nil}
			}
			if len(vals["ok"]) == 0 {
				panic("canary")
			}
			desc := clip(fmt.Sprintf("%v from %q", typ, keys))
			var before, after runtime.MemStats
			run := func(what string, f func()) {
				runtime.ReadMemStats(&before)
				var p interface{}
				h.Within(what, func() { p = h.Try(f) })
				runtime.ReadMemStats(&after)
				if p != nil {
					c.Fatalf("%s %s: panic %v", what, desc, p)
				}
				if n := after.TotalAlloc - before.TotalAlloc; n > memLimit {
					c.Fatalf("%s %s: allocated %d MB", what, desc, n>>20)
				}
			}
			run("Bind", func() {
				if got := params.Bind(ps, "a", typ).Type(); got != typ {
					c.Fatalf("Bind %s: gives a %v", desc, got)
				}
			})
			run("Params.Bind", func() { ps.Bind(reflect.New(typ).Interface(), "a") })
			run("BindValue", func() { params.BindValue(genHostileText(c.T), typ) })
			if base := typ; base.Kind() == reflect.Struct && base != typeOf[time.Time]() {
				run("BindValuesToStruct", func() { ps.BindValuesToStruct(reflect.New(base).Interface()) })
			}
			var cn canary
			run("BindValuesToStruct", func() { ps.BindValuesToStruct(&cn) })
			if !reflect.DeepEqual(cn, canaryWant) {
				c.Fatalf("%s: well-formed parameters give %+v", desc, cn)
			}
			hit := false
			for _, k := range keys {
				hit = hit || strings.HasPrefix(k, "a[") || strings.HasPrefix(k, "a.")
			}
			c.Label("%s", kind)
			if hit {
				c.NonTrivial(desc)
			}
		})
}

// TestP04_mixed puts a malformed index next to well-formed elements of the
// same slice.
func TestP04_mixed(t *testing.T) {
	h.Check(t, h.Spec{ID: "P04", Quick: 4000, Thorough: 50000,
		Rule: "a slice of ints or structs written out by index, sometimes up to the last one of 9999, next to names of the same slice whose index is no number or beyond any limit; the slice must come out as if they were not there. Non-trivial: always."},
		func(c *h.C) {
			n := rapid.IntRange(1, 5).Draw(c.T, "n")
			vals := url.Values{}
			var want []int
			var wantS []Shown2
			for i := 0; i < n; i++ {
				x := rapid.IntRange(1, 99).Draw(c.T, "x")
				want = append(want, x)
				wantS = append(wantS, Shown2{X: x})
				vals[fmt.Sprintf("a[%d]", i)] = []string{fmt.Sprint(x)}
				vals[fmt.Sprintf("b[%d].X", i)] = []string{fmt.Sprint(x)}
			}
			if h.Pct(c.T, 15, "longest") {
				// the last index which counts
				n = 10000
				want = append(want, make([]int, n-len(want))...)
				wantS = append(wantS, make([]Shown2, n-len(wantS))...)
				want[n-1], wantS[n-1].Y = 8, 9
				vals["a[9999]"], vals["b[9999].Y"] = []string{"8"}, []string{"9"}
			}
			for m := rapid.IntRange(1, 4).Draw(c.T, "m"); m > 0; m-- {
				bad := h.Pick(c.T, "bad", "x", "0x1", "1e1", "1.0", " 0", "zero", "10000", "10001", "1000000000000", "9223372036854775808", "99999999999999999999", "é", "0-")
				vals["a["+bad+"]"] = []string{"55"}
				if h.Pct(c.T, 10, "repeated") {
					vals["a["+bad+"]"] = strings.Split(strings.Repeat("55,", 300), ",")
				}
				vals["b["+bad+"].X"] = []string{"55"}
			}
			for i := 0; i < 3; i++ {
				ps := &params.Params{Values: merge(vals)}
				var a []int
				var b []Shown2
				p := h.Try(func() { ps.Bind(&a, "a"); ps.Bind(&b, "b") })
				if p != nil || !reflect.DeepEqual(a, want) || !reflect.DeepEqual(b, wantS) {
					c.Fatalf("%v: gives %d %s and %d %s, panic %v", vals, len(a), clip(fmt.Sprint(a)), len(b), clip(fmt.Sprint(b)), p)
				}
			}
			c.Label("mixed")
			c.NonTrivial(fmt.Sprint(vals))
		})
}

// TestP04_request sends whole hostile requests.
func TestP04_request(t *testing.T) {
	h.Check(t, h.Spec{ID: "P04", Quick: 5000, Thorough: 100000,
		Rule: "requests with malformed content types, bodies (cut or corrupted multipart, broken escapes, random bytes) and queries next to well-formed query parameters, bound in the handler; the handler must run without panic and see the well-formed ones. Non-trivial: the body or query does not parse."},
		func(c *h.C) {
			sp, sink := h.App()
			sp.Provide(params.ParamsParser())
			var ps *params.Params
			var cn canary
			var jsonErr error
			sp.Routers(strip.Router("/:id", strip.Any(func(p *params.Params, rw http.ResponseWriter) {
				ps = p
				p.BindValuesToStruct(&cn)
				for _, typ := range hostileTypes {
					p.Bind(reflect.New(typ).Interface(), "a")
				}
				p.RealIp()
				p.RealHost()
				p.RealProto()
				p.RealURI()
				p.RealURL()
				var x interface{}
				jsonErr = p.BindJsonBody(&x)
				rw.WriteHeader(200)
			})))
			q := canaryVals.Encode()
			junk := h.Pick(c.T, "query junk", "", "", "%zz=1", "a=%", "&&;=;", "a[%=1", "=", ";x")
			if junk != "" {
				if rapid.Bool().Draw(c.T, "front") {
					q = junk + "&" + q
				} else {
					q += "&" + junk
				}
			}
			form := genVals(c.T, 3)
			var body []byte
			var ctype string
			kind := h.Pick(c.T, "body", "form", "multipart", "random", "text")
			switch kind {
			case "form":
				body = []byte(form.Encode() + h.Pick(c.T, "bad", "", "&%zz=1", "&a=%", "&a%5B99999999999%5D=1"))
				ctype = "application/x-www-form-urlencoded"
			case "multipart":
				var buf bytes.Buffer
				mw := multipart.NewWriter(&buf)
				for k, xs := range form {
					for _, x := range xs {
						mw.WriteField(k, x)
					}
				}
				fw, _ := mw.CreateFormFile("a", "n")
				fw.Write([]byte("data"))
				mw.Close()
				body = buf.Bytes()
				ctype = mw.FormDataContentType()
				if h.Pct(c.T, 60, "cut") {
					body = body[:rapid.IntRange(0, len(body)).Draw(c.T, "at")]
				}
				if h.Pct(c.T, 30, "corrupt") && len(body) > 0 {
					body[rapid.IntRange(0, len(body)-1).Draw(c.T, "at")] ^= 0x41
				}
			case "text":
				body = []byte(strings.Repeat(h.Pick(c.T, "text", "{\"a\":x", "[1,", "\"abc", "nil "), h.Pick(c.T, "times", 1, 30, 3000)))
				ctype = h.Pick(c.T, "text type", "application/json", "text/plain")
			case "random":
				body = rapid.SliceOfN(rapid.Byte(), 0, 400).Draw(c.T, "bytes")
			}
			if h.Pct(c.T, 30, "other type") {
				ctype = h.Pick(c.T, "ctype", "multipart/form-data", "multipart/form-data; boundary=", "multipart/form-data; boundary=\"", "application/x-www-form-urlencoded;;", ";", "a/b/c", "multipart/mixed; boundary=x", "MULTIPART/FORM-DATA; boundary=x")
			}
			method := h.Pick(c.T, "method", "POST", "PUT", "GET", "DELETE")
			req := httptest.NewRequest(method, "/5", bytes.NewReader(body))
			req.URL.RawQuery = q
			if ctype != "" {
				req.Header.Set("Content-Type", ctype)
			}
			desc := clip(fmt.Sprintf("%s ?%s %q %q", method, q, ctype, body))
			var rec *h.Recorder
			p := h.Try(func() { rec = h.Do(sp, req) })
			if p != nil || rec.Code != 200 || ps == nil {
				c.Fatalf("%s: panic %v", desc, p)
			}
			if !reflect.DeepEqual(cn, canaryWant) {
				c.Fatalf("%s: well-formed parameters give %+v", desc, cn)
			}
			if ps.Values.Get("id") != "5" {
				c.Fatalf("%s: the path parameter is %q", desc, ps.Values.Get("id"))
			}
			if jsonErr != nil && len(jsonErr.Error()) > 4096 {
				c.Fatalf("%s: the error of binding a body of %d bytes as JSON has %d", desc, len(body), len(jsonErr.Error()))
			}
			bad := len(sink.Take()) > 0
			c.Label("%s, rejected %v", kind, bad)
			if bad {
				c.NonTrivial(desc)
			}
		})
}
