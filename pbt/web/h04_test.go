package web

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"net/http"
	"reflect"
	"strings"
	"testing"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/utils/apires"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
)

// genJSON draws JSON-representable data.
func genJSON(t *rapid.T, depth int) interface{} {
	k := h.Pick(t, "json", "str", "num", "int", "bool", "nil", "map", "list", "struct", "html")
	if depth <= 0 && (k == "map" || k == "list") {
		k = "str"
	}
	switch k {
	case "str":
		return rapid.String().Draw(t, "s")
	case "html":
		return h.Pick(t, "html text", "<a href='x'>&\u2028</a>", "a&b", "<>", `\u0026`, `\\u003c \n`)
	case "num":
		return rapid.Float64Range(-1e6, 1e6).Draw(t, "f")
	case "int":
		return rapid.IntRange(-1000, 1000).Draw(t, "i")
	case "bool":
		return rapid.Bool().Draw(t, "b")
	case "nil":
		// nothing, and things that hold nothing
		return h.Pick[interface{}](t, "nil kind", nil, nil, (*struct{ A int })(nil), map[string]int(nil), []int(nil))
	case "struct":
		return struct {
			A string `json:"a"`
			B []int  `json:"b"`
		}{rapid.StringMatching(`[a-z]*`).Draw(t, "a"), rapid.SliceOf(rapid.IntRange(0, 9)).Draw(t, "b")}
	case "map":
		m := map[string]interface{}{}
		for i := rapid.IntRange(0, 3).Draw(t, "n"); i > 0; i-- {
			m[rapid.StringMatching(`[a-zé"<]{0,4}`).Draw(t, "k")] = genJSON(t, depth-1)
		}
		return m
	}
	l := []interface{}{}
	for i := rapid.IntRange(0, 3).Draw(t, "n"); i > 0; i-- {
		l = append(l, genJSON(t, depth-1))
	}
	return l
}

// norm is a value as it looks after a trip through JSON.
func norm(v interface{}) interface{} {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	var out interface{}
	if err := json.Unmarshal(b, &out); err != nil {
		panic(err)
	}
	return out
}

func decode(b []byte) (interface{}, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	var out interface{}
	if err := d.Decode(&out); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, errors.New("more than one value")
	}
	return out, nil
}

// serve sends a handler's result through an application.
func serve(mode strip.Mode, handler interface{}) *h.Recorder {
	sp, _ := h.App()
	sp.Config.RunMode = mode
	sp.Filter(strip.GenericOutFilter())
	sp.Routers(strip.Get(handler))
	return h.Do(sp, h.Req("GET", "/"))
}

var modes = []strip.Mode{"prod", "dev", "test", ""}

func checkJSON(c *h.C, what string, rec *h.Recorder, status int, want interface{}, mode strip.Mode) {
	if rec.Code != status || rec.Commits != 1 {
		c.Fatalf("%s: status %d, want %d", what, rec.Code, status)
	}
	if status == 204 {
		if rec.Body.Len() != 0 {
			c.Fatalf("%s: body %q with 204", what, rec.Body.String())
		}
		return
	}
	if !strings.HasPrefix(strings.ToLower(rec.Sent.Get("Content-Type")), "application/json") {
		c.Fatalf("%s: content type %q", what, rec.Sent.Get("Content-Type"))
	}
	got, err := decode(rec.Body.Bytes())
	if err != nil || !reflect.DeepEqual(got, want) {
		c.Fatalf("%s: body %q (%v) decodes to %v, want %v", what, rec.Body.String(), err, got, want)
	}
	var buf bytes.Buffer
	if mode == "dev" {
		json.Indent(&buf, rec.Body.Bytes(), "", "  ")
		if buf.String() != rec.Body.String() {
			c.Fatalf("%s: not indented in dev mode: %q", what, rec.Body.String())
		}
	} else {
		json.Compact(&buf, rec.Body.Bytes())
		if strings.TrimSpace(rec.Body.String()) != buf.String() {
			c.Fatalf("%s: not compact in mode %q: %q", what, mode, rec.Body.String())
		}
	}
}

var statuses = []int{200, 201, 204, 205, 302, 400, 401, 404, 409, 500, 503}

func TestH04_results(t *testing.T) {
	h.Check(t, h.Spec{ID: "H04", Quick: 5000, Thorough: 80000,
		Rule: "an API result (With, Ret) or raw result (string, bytes, reader, closing reader, JSON value, none, a reader that breaks, a value without JSON form) with a generated status and body in every run mode, optionally followed by an int status, sent through an application. Non-trivial: a body or a status other than 200."},
		func(c *h.C) {
			mode := rapid.SampledFrom(modes).Draw(c.T, "mode")
			status := rapid.SampledFrom(statuses).Draw(c.T, "status")
			kind := h.Pick(c.T, "kind", "With", "With", "With default", "Ret", "RawWith string", "RawWith bytes", "RawWith reader", "RawWith closer", "RawWith json", "RawRet", "RawWith default", "RawWith broken", "no JSON")
			data := genJSON(c.T, 2)
			if h.Pct(c.T, 4, "large data") {
				data = map[string]interface{}{"rest": data, "text": h.Text(h.Size(c.T, "data size", 300000)), "list": make([]int, h.Size(c.T, "list size", 20000))}
			}
			text := rapid.StringN(0, 30, 60).Draw(c.T, "text")
			if h.Pct(c.T, 5, "large text") {
				text = h.Text(h.Size(c.T, "large", 300000))
			}
			if h.Pct(c.T, 5, "big") {
				text = strings.Repeat("xyz", 5000)
			}
			desc := fmt.Sprintf("%s(%v, %d) in mode %q", kind, clip(fmt.Sprintf("%#v / %q", data, text)), status, mode)
			closes := 0
			var res strip.ActionResult
			var wantText *string
			var wantJSON interface{}
			switch kind {
			case "With":
				res, wantJSON = apires.With(data, status), norm(data)
				if data == nil {
					wantJSON = map[string]interface{}{}
				}
			case "With default":
				status = 200
				res, wantJSON = apires.With(data), norm(data)
				if data == nil {
					wantJSON = map[string]interface{}{}
				}
			case "Ret":
				res, wantJSON = apires.Ret(status), map[string]interface{}{}
			case "RawWith string":
				res, wantText = apires.RawWith(text, status), &text
			case "RawWith default":
				status = 200
				res, wantText = apires.RawWith(text), &text
			case "RawWith bytes":
				res, wantText = apires.RawWith([]byte(text), status), &text
			case "RawWith reader":
				if h.Pct(c.T, 50, "odd") {
					res, wantText = apires.RawWith(h.Odd(c.T, text), status), &text
				} else {
					res, wantText = apires.RawWith(strings.NewReader(text), status), &text
				}
			case "RawWith closer":
				res, wantText = apires.RawWith(&closer{strings.NewReader(text), &closes}, status), &text
			case "RawWith json":
				data = h.Pick(c.T, "wrap", map[string]interface{}{"a": data}, map[string]interface{}{})
				res, wantJSON = apires.RawWith(data, status), norm(data)
			case "RawWith broken":
				// a reader that fails in the middle
				res, wantText = apires.RawWith(&broken{closer{strings.NewReader(text), &closes}}, status), &text
			case "no JSON":
				// nothing that JSON can express
				bad := h.Pick[interface{}](c.T, "bad", make(chan int), math.NaN(), func() {}, map[string]interface{}{"a": 1, "x": math.Inf(1)}, refuses{})
				switch h.Pick(c.T, "in", "With", "RawWith", "error") {
				case "With":
					res = apires.With(bad, status)
				case "RawWith":
					res = apires.RawWith(bad, status)
				case "error":
					res = apires.NewResError(status, 7, "m", bad)
				}
				_, err := json.Marshal(bad)
				if strings.Contains(fmt.Sprintf("%T", res), "ResError") {
					_, err = json.Marshal(res)
				}
				wantJSON = map[string]interface{}{"code": float64(500), "message": err.Error()}
			case "RawRet":
				empty := ""
				res, wantText = apires.RawRet(status), &empty
			}
			headers := map[string]string{}
			if h.Pct(c.T, 30, "header") {
				headers["X-Own"] = "v"
			}
			if ct := h.Pick(c.T, "content type before", "", "", "text/plain", "application/xml"); ct != "" {
				if wantText != nil {
					headers["Content-Type"] = ct
				} else {
					// the result says what it is
					inner := res
					res = preset{inner, ct}
				}
			}
			rec := serve(mode, func(rw http.ResponseWriter) strip.ActionResult {
				for k, v := range headers {
					rw.Header().Set(k, v)
				}
				return res
			})
			for k, v := range headers {
				if rec.Sent.Get(k) != v {
					c.Fatalf("%s: header %s lost", desc, k)
				}
			}
			if wantText != nil {
				want := *wantText
				if status == 204 {
					want = ""
				}
				if rec.Code != status || rec.Body.String() != want || rec.Commits != 1 {
					c.Fatalf("%s: sent %d %q, want %d %q", desc, rec.Code, clip(rec.Body.String()), status, clip(want))
				}
				if (kind == "RawWith closer" || kind == "RawWith broken") && closes != 1 && status != 204 {
					c.Fatalf("%s: reader closed %d times", desc, closes)
				}
			} else {
				checkJSON(c, desc, rec, status, wantJSON, mode)
			}
			c.Label("%s", kind)
			c.NonTrivial(desc)
		})
}

// broken is a reader that fails at its end.
type broken struct{ closer }

func (b *broken) Read(p []byte) (int, error) {
	n, err := b.closer.Read(p)
	if err == io.EOF {
		err = errors.New("broken")
	}
	return n, err
}

// refuses has no JSON form.
type refuses struct{}

func (refuses) MarshalJSON() ([]byte, error) { return nil, errors.New("no \"JSON\" here") }

// preset writes a result after a content type was set.
type preset struct {
	inner strip.ActionResult
	ct    string
}

func (p preset) Write(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
	rw.Header().Set("Content-Type", p.ct)
	p.inner.Write(ctx, rw, req)
}

// celsius says more of itself than its number.
type celsius int

func (t celsius) String() string { return fmt.Sprintf("%d °C", int(t)) }

// errModel is what an API error must keep being.
type errModel struct {
	status, code int
	msg          string
	data         interface{}
}

func (m errModel) json() interface{} {
	o := map[string]interface{}{}
	if m.code != 0 {
		o["code"] = float64(m.code)
	}
	if m.msg != "" {
		o["message"] = m.msg
	}
	if m.data != nil {
		o["data"] = norm(m.data)
	}
	return o
}

func TestH04_errors(t *testing.T) {
	h.Check(t, h.Spec{ID: "H04", Quick: 3000, Thorough: 60000, Steps: 12,
		Rule: "histories of creating API errors, deriving variations (data, message, formatted message) from any earlier one, comparing and sending them; after every step all errors must still be what they were made as. Non-trivial: a derivation of a derivation was sent."},
		func(c *h.C) {
			var es []*apires.ResError
			var ms []errModel
			var depth []int
			var log []string
			sentDeep := false
			add := func(e *apires.ResError, m errModel, d int) {
				if e == nil {
					c.Fatalf("%v: nil error", log)
				}
				for _, o := range es {
					if o == e {
						c.Fatalf("%v: the derived error is the original", log)
					}
				}
				es, ms, depth = append(es, e), append(ms, m), append(depth, d)
			}
			gen := func() {
				m := errModel{status: rapid.SampledFrom([]int{200, 201, 204, 0}).Draw(c.T, "status"), code: rapid.IntRange(-1, 2).Draw(c.T, "code"), msg: rapid.StringN(0, 5, 10).Draw(c.T, "msg")}
				if h.Pct(c.T, 40, "with data") {
					m.data = genJSON(c.T, 1)
					add(apires.NewResError(m.status, m.code, m.msg, m.data), m, 0)
				} else {
					add(apires.NewResError(m.status, m.code, m.msg), m, 0)
				}
				log = append(log, fmt.Sprintf("New%v", m))
			}
			gen()
			pick := func() int { return rapid.IntRange(0, len(es)-1).Draw(c.T, "which") }
			c.Repeat(map[string]func(*rapid.T){
				"new": func(*rapid.T) { gen() },
				"msg": func(*rapid.T) {
					i := pick()
					m := ms[i]
					m.msg = rapid.StringN(0, 5, 10).Draw(c.T, "msg")
					log = append(log, fmt.Sprintf("%d.WithMsg(%q)", i, m.msg))
					add(es[i].WithMsg(m.msg), m, depth[i]+1)
				},
				"msgf": func(*rapid.T) {
					i := pick()
					m := ms[i]
					if h.Pct(c.T, 20, "no values") {
						m.msg = "100%"
						log = append(log, fmt.Sprintf("%d.WithMsgf -> %q", i, m.msg))
						add(es[i].WithMsgf("100%%"), m, depth[i]+1)
						return
					}
					a, b := rapid.StringMatching(`[a-z%]{0,3}`).Draw(c.T, "a"), rapid.IntRange(0, 9).Draw(c.T, "b")
					m.msg = "<" + a + "|" + fmt.Sprint(b) + ">"
					log = append(log, fmt.Sprintf("%d.WithMsgf -> %q", i, m.msg))
					add(es[i].WithMsgf("<%s|%d>", a, b), m, depth[i]+1)
				},
				"data": func(*rapid.T) {
					i := pick()
					m := ms[i]
					switch h.Pick(c.T, "data kind", "json", "string", "error", "own error", "with message", "stringer", "nil") {
					case "json":
						m.data = genJSON(c.T, 1)
						if s, ok := m.data.(string); ok {
							m.msg = s
						}
						add(es[i].WithData(m.data), m, depth[i]+1)
					case "string":
						s := rapid.StringN(0, 5, 10).Draw(c.T, "s")
						m.data, m.msg = s, s
						add(es[i].WithData(s), m, depth[i]+1)
					case "stringer":
						// not a text
						m.data = celsius(rapid.IntRange(0, 9).Draw(c.T, "degrees"))
						add(es[i].WithData(m.data), m, depth[i]+1)
					case "nil":
						m.data = nil
						add(es[i].WithData(nil), m, depth[i]+1)
					case "error":
						s := rapid.StringN(0, 5, 10).Draw(c.T, "s")
						m.data, m.msg = struct{}{}, s
						add(es[i].WithData(errors.New(s)), m, depth[i]+1)
					case "own error":
						j := pick()
						b, err := json.Marshal(es[j])
						h.Env(err)
						m.data, m.msg = ms[j].json(), string(b)
						add(es[i].WithData(es[j]), m, depth[i]+1)
					case "with message":
						m.data, m.msg = genJSON(c.T, 1), rapid.StringN(0, 5, 10).Draw(c.T, "s")
						add(es[i].WithData(m.data, m.msg), m, depth[i]+1)
					}
					log = append(log, fmt.Sprintf("%d.WithData %v", i, m))
				},
				"send": func(*rapid.T) {
					i := pick()
					mode := rapid.SampledFrom(modes).Draw(c.T, "mode")
					e := es[i]
					log = append(log, fmt.Sprintf("send %d in %q", i, mode))
					var handler interface{} = func() *apires.ResError { return e }
					switch h.Pick(c.T, "as", "concrete", "error", "result") {
					case "error":
						handler = func() error { return e }
					case "result":
						handler = func() (string, strip.ActionResult) { return "x", e }
					}
					rec := serve(mode, handler)
					status := ms[i].status
					if status == 0 {
						status = 200
					}
					checkJSON(c, fmt.Sprint(log), rec, status, ms[i].json(), mode)
					sentDeep = sentDeep || depth[i] > 1
				},
				"equal": func(*rapid.T) {
					i := pick()
					var others []*apires.ResError
					want := false
					for k := rapid.IntRange(0, 3).Draw(c.T, "n"); k > 0; k-- {
						j := pick()
						others = append(others, es[j])
						want = want || ms[j].status == ms[i].status && ms[j].code == ms[i].code
					}
					if got := es[i].EqualAny(others...); got != want {
						c.Fatalf("%v: EqualAny %v, want %v", log, got, want)
					}
				},
				"": func(*rapid.T) {
					for i, e := range es {
						m := ms[i]
						if e.Status != m.status || e.HttpCode() != m.status || e.Code != m.code || e.Message != m.msg {
							c.Fatalf("%v: error %d became %d/%d %q, was %v", log, i, e.Status, e.Code, e.Message, m)
						}
						got, err := decode([]byte(e.Error()))
						if err != nil || !reflect.DeepEqual(got, m.json()) {
							c.Fatalf("%v: error %d prints %s, want %v", log, i, e.Error(), m.json())
						}
						if ok, code := apires.GetHttpCode(e); !ok || code != m.status || !apires.IsResError(e) {
							c.Fatalf("%v: GetHttpCode %v %d", log, ok, code)
						}
					}
				},
			})
			if sentDeep {
				c.NonTrivial(strings.Join(log, "; "))
			}
			c.Label("sent deep %v", sentDeep)
		})
	if s := (*apires.ResError)(nil).Error(); s != "" {
		t.Fatalf("no error prints %q", s)
	}
	if apires.IsResError(io.EOF) {
		t.Fatal("IsResError(io.EOF)")
	}
	if ok, _ := apires.GetHttpCode(io.EOF); ok {
		t.Fatal("GetHttpCode(io.EOF)")
	}
}
