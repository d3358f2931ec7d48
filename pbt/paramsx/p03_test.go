package paramsx

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"mime/multipart"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/params"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
)

type conf map[string]string

func (c conf) Find(name string) string { return c[name] }

type upload struct {
	field, name string
	data        []byte
}

func genName(t *rapid.T) string {
	return h.Pick(t, "name", "a", "b", "c", "l[]", "m[k]", "é", "x y", "user.Name", "p1", "p2")
}

func genVals(t *rapid.T, max int) url.Values {
	v := url.Values{}
	for n := rapid.IntRange(0, max).Draw(t, "values"); n > 0; n-- {
		k := genName(t)
		v[k] = append(v[k], h.Pick(t, "value", "", "1", "a=b&c", "%41", "+ +", "été", "line\nbreak", strings.Repeat("w", 300)))
	}
	return v
}

func total(v url.Values) (n int) {
	for _, x := range v {
		n += len(x)
	}
	return
}

func counts(v url.Values) map[string]int {
	m := map[string]int{}
	for k, xs := range v {
		for _, x := range xs {
			m[strconv.Quote(k)+"="+strconv.Quote(x)]++
		}
	}
	return m
}

func merge(vs ...url.Values) url.Values {
	m := url.Values{}
	for _, v := range vs {
		for k, x := range v {
			m[k] = append(m[k], x...)
		}
	}
	return m
}

// ordered tells whether the values of each name come source after source, in
// the order they have there.
func ordered(got url.Values, srcs ...url.Values) bool {
	for k, xs := range got {
		var fits func(xs []string, used int) bool
		fits = func(xs []string, used int) bool {
			if len(xs) == 0 {
				return true
			}
			for i, s := range srcs {
				n := len(s[k])
				if used&(1<<i) == 0 && n > 0 && n <= len(xs) && reflect.DeepEqual(xs[:n], s[k]) && fits(xs[n:], used|1<<i) {
					return true
				}
			}
			return false
		}
		if !fits(xs, 0) {
			return false
		}
	}
	return true
}

func TestP03(t *testing.T) {
	dir := t.TempDir()
	t.Setenv("TMPDIR", dir)
	h.Check(t, h.Spec{ID: "P03", Quick: 4000, Thorough: 60000,
		Rule: "requests with generated query, path and body parameters - urlencoded or multipart with files, small or kept on disk - to handlers behind several ways of asking for the parameters, through ServeHTTP or a real server, some ending in a panic, caught or not, or with the client gone; the handler must see each value once, each file with its bytes, and the temporary directory must be empty afterwards. Non-trivial: parameters from two sources or a file on disk."},
		func(c *h.C) {
			sp, _ := h.App()
			sp.Config.RunMode = "prod"
			bare := h.Pct(c.T, 15, "no recovery") // panics reach the server
			if !bare {
				sp.Filter(strip.RecoveryFilter())
			}
			limit := h.Pick(c.T, "max_memory", 0, 1, 64, 4096)
			if limit > 0 {
				sp.ImportConfig(conf{"max_memory": strconv.Itoa(limit)})
			}
			sp.Provide(params.ParamsParser())

			query := genVals(c.T, 4)
			path := url.Values{}
			seg := []string{}
			tmpl := "/r"
			for i := 1; i <= rapid.IntRange(0, 2).Draw(c.T, "path params"); i++ {
				s := h.Pick(c.T, "seg", "1", "x", "a-b", "é")
				tmpl += fmt.Sprintf("/:p%d", i)
				if h.Pct(c.T, 20, "verb") {
					s = h.Pick(c.T, "before the verb", "", s)
					tmpl += ":go"
					seg = append(seg, s+":go")
				} else {
					seg = append(seg, s)
				}
				path.Set(fmt.Sprintf("p%d", i), s)
			}
			form := url.Values{}
			var files []upload
			var body []byte
			ctype := ""
			method := h.Pick(c.T, "method", "POST", "PUT", "PATCH")
			kind := h.Pick(c.T, "body", "none", "urlencoded", "multipart", "multipart", "other")
			switch kind {
			case "none":
				method = h.Pick(c.T, "method", "GET", "DELETE", "POST")
			case "urlencoded":
				form = genVals(c.T, 4)
				body = []byte(form.Encode())
				ctype = h.Pick(c.T, "ctype", "application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=utf-8", "Application/X-WWW-Form-Urlencoded", "application/x-www-form-urlencoded ; charset=utf-8")
			case "multipart":
				form = genVals(c.T, 3)
				var buf bytes.Buffer
				mw := multipart.NewWriter(&buf)
				for _, k := range h.Keys(form) {
					for _, x := range form[k] {
						if strings.ContainsAny(k, "\"\n") {
							continue
						}
						mw.WriteField(k, x)
					}
				}
				for n := rapid.IntRange(0, 3).Draw(c.T, "files"); n > 0; n-- {
					u := upload{h.Pick(c.T, "file field", "f", "g", "a"), h.Pick(c.T, "file name", "x.txt", "été.png", "a b.c", "f"), nil}
					u.data = bytes.Repeat(rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(c.T, "data"), h.Pick(c.T, "times", 1, 1, 20, 400))
					files = append(files, u)
					fw, err := mw.CreateFormFile(u.field, u.name)
					h.Env(err)
					fw.Write(u.data)
				}
				mw.Close()
				body, ctype = buf.Bytes(), mw.FormDataContentType()
			case "other":
				body, ctype = []byte("a=1&b=2"), h.Pick(c.T, "ctype", "text/plain", "application/json", "")
			}
			panics := h.Pct(c.T, 20, "panics")
			junk := h.Pick(c.T, "query junk", "", "", "", "&%zz=1", "&a=%", "&x;y=1") // parameters which can not be read
			if kind == "urlencoded" && len(body) > 0 {
				body = append(body, h.Pick(c.T, "body junk", "", "", "", "&%zz=1", "&a=%")...)
			}
			desc := fmt.Sprintf("%s %s query %v%s path %v %s %v files %v", method, tmpl, query, junk, path, kind, form, clip(fmt.Sprint(files)))

			var fail string
			ran, onDisk := 0, 0
			see := func(p *params.Params) {
				ran++
				if !reflect.DeepEqual(counts(p.Query), counts(query)) {
					fail += fmt.Sprintf("Query %v, want %v\n", p.Query, query)
				}
				if !reflect.DeepEqual(counts(p.Route.Values), counts(path)) {
					fail += fmt.Sprintf("Route %v, want %v\n", p.Route.Values, path)
				}
				if !reflect.DeepEqual(counts(p.Form), counts(form)) {
					fail += fmt.Sprintf("Form %v, want %v\n", p.Form, form)
				}
				if want := merge(query, path, form); !reflect.DeepEqual(counts(p.Values), counts(want)) || !ordered(p.Values, query, path, form) {
					fail += fmt.Sprintf("Values %v, want %v\n", p.Values, want)
				}
				if !ordered(p.Query, query) || !ordered(p.Form, form) {
					fail += fmt.Sprintf("order %v %v, want %v %v\n", p.Query, p.Form, query, form)
				}
				byField := map[string][]upload{}
				for _, u := range files {
					byField[u.field] = append(byField[u.field], u)
				}
				if len(p.Files) != len(byField) {
					fail += fmt.Sprintf("files %v\n", p.Files)
				}
				for f, us := range byField {
					if len(p.Files[f]) != len(us) {
						fail += fmt.Sprintf("files of %s: %v\n", f, p.Files[f])
						continue
					}
					for i, u := range us {
						fh := p.Files[f][i]
						r, err := fh.Open()
						if err != nil {
							fail += fmt.Sprintf("open %s: %v\n", fh.Filename, err)
							continue
						}
						b, err := io.ReadAll(r)
						r.Close()
						if err != nil || !bytes.Equal(b, u.data) || fh.Filename != u.name {
							fail += fmt.Sprintf("file %q is %q: %v\n", fh.Filename, clip(string(b)), err)
						}
					}
				}
				if ms, _ := filepath.Glob(dir + "/*"); len(ms) > onDisk {
					onDisk = len(ms)
				}
			}
			gone := func() {}
			end := func(rw http.ResponseWriter) {
				gone()
				if panics {
					panic("handler")
				}
				rw.WriteHeader(201)
			}
			var handler interface{}
			var args []interface{}
			switch h.Pick(c.T, "asked by", "handler", "filter and handler", "find") {
			case "handler":
				handler = func(p *params.Params, rw http.ResponseWriter) { see(p); end(rw) }
			case "filter and handler":
				args = append(args, func(p *params.Params) { see(p); ran-- })
				handler = func(p *params.Params, rw http.ResponseWriter) { see(p); end(rw) }
			case "find":
				handler = func(ctx strip.Context, rw http.ResponseWriter) {
					var p *params.Params
					if err := ctx.Find(&p); err != nil {
						fail = err.Error()
						return
					}
					see(p)
					end(rw)
				}
			}
			if h.Pct(c.T, 30, "replaced request") {
				// an application filter hands on a copy of the request
				sp.Filter(func(ctx strip.Context, req *http.Request) {
					ctx.Provide(req.WithContext(context.WithValue(req.Context(), "k", 1)))
				})
			}
			m := strip.Any(handler)
			if len(args) > 0 {
				m = m.Filter(args...)
			}
			sp.Routers(strip.Router(tmpl, m))

			u := "/r"
			for _, s := range seg {
				u += "/" + url.PathEscape(s)
			}
			if q := query.Encode() + junk; q != "" {
				u += "?" + q
			}
			code := 0
			var esc interface{}
			real := h.Pct(c.T, 5, "real server") && !bare
			if real {
				srv := httptest.NewServer(sp)
				req, err := http.NewRequest(method, srv.URL+u, bytes.NewReader(body))
				h.Env(err)
				if ctype != "" {
					req.Header.Set("Content-Type", ctype)
				}
				resp, err := srv.Client().Do(req)
				if err != nil {
					srv.Close()
					c.Fatalf("%s: %v", desc, err)
				}
				io.Copy(io.Discard, resp.Body)
				resp.Body.Close()
				code = resp.StatusCode
				srv.Close()
			} else {
				req := httptest.NewRequest(method, u, bytes.NewReader(body))
				if ctype != "" {
					req.Header.Set("Content-Type", ctype)
				}
				if h.Pct(c.T, 15, "client goes away") {
					ctx, cancel := context.WithCancel(req.Context())
					req = req.WithContext(ctx)
					if gone = cancel; h.Pct(c.T, 30, "early") {
						cancel()
					}
					defer cancel()
				}
				rec := h.NewRecorder()
				esc = h.Try(func() { sp.ServeHTTP(rec, req) })
				code = rec.Code
			}
			left, err := filepath.Glob(dir + "/*")
			h.Env(err)
			for _, f := range left {
				os.Remove(f)
			}
			if fail != "" {
				c.Fatalf("%s\n%s", desc, fail)
			}
			want := 201
			if panics {
				want = 500
			}
			if (esc != nil) != (bare && panics) {
				c.Fatalf("%s: panic %v", desc, esc)
			}
			if ran != 1 || code != want && esc == nil {
				c.Fatalf("%s: handler ran %d times, status %d", desc, ran, code)
			}
			if len(left) > 0 {
				c.Fatalf("%s: left on disk: %v", desc, left)
			}
			src := 0
			for _, v := range []url.Values{query, path, form} {
				if len(v) > 0 {
					src++
				}
			}
			c.Label("%s, sources %d, on disk %v, real %v", kind, src, onDisk > 0, real)
			if src > 1 || onDisk > 0 {
				c.NonTrivial(desc)
			}
		})
}

type jsonDest struct {
	A int                    `json:"a"`
	B []string               `json:"b"`
	C map[string]interface{} `json:"c"`
	D *jsonDest              `json:"d"`
	E float64                `json:"e"`
	F interface{}            `json:"f"`
}

func genDest(t *rapid.T, depth int) *jsonDest {
	d := &jsonDest{A: rapid.Int().Draw(t, "A"), E: rapid.Float64Range(-1e9, 1e9).Draw(t, "E")}
	for n := rapid.IntRange(0, 3).Draw(t, "n"); n > 0; n-- {
		d.B = append(d.B, rapid.StringMatching(`[a-zé"\\<>]{0,6}`).Draw(t, "b"))
	}
	if rapid.Bool().Draw(t, "map") {
		d.C = map[string]interface{}{"k": rapid.StringMatching(`[a-z]*`).Draw(t, "v"), "l": []interface{}{true, nil}}
	}
	if depth > 0 && rapid.Bool().Draw(t, "nest") {
		d.D = genDest(t, depth-1)
	}
	d.F = h.Pick[interface{}](t, "F", nil, "s", int64(9007199254740993), 1.5, []interface{}{})
	return d
}

func TestP03_json(t *testing.T) {
	h.Check(t, h.Spec{ID: "P03", Quick: 3000, Thorough: 60000,
		Rule: "a generated value sent as JSON body, whole, cut, empty, of blanks alone or followed by space, bound with and without exact numbers; compared with encoding/json on the same bytes. Non-trivial: a nested value or a malformed body."},
		func(c *h.C) {
			d := genDest(c.T, 2)
			b, err := json.Marshal(d)
			h.Env(err)
			kind := h.Pick(c.T, "body", "whole", "whole", "space", "cut", "empty", "blank", "junk", "more", "long")
			if kind == "long" && !h.Pct(c.T, 12, "long really") {
				kind = "more"
			}
			switch kind {
			case "more":
				// members the destination does not have
				b = append([]byte(`{"zz":{"a":[1]},"yy":null,`), b[1:]...)
			case "long":
				d.B = append(d.B, strings.Repeat("long ", rapid.IntRange(1000, 700000).Draw(c.T, "length")))
				b, err = json.Marshal(d)
				h.Env(err)
			case "space":
				b = append([]byte("\n "), append(b, " \n"...)...)
			case "cut":
				b = b[:rapid.IntRange(1, len(b)-1).Draw(c.T, "cut")]
			case "empty":
				b = nil
			case "blank":
				b = []byte(rapid.StringMatching(`[ \n\t\r]{1,600}`).Draw(c.T, "blank"))
			case "junk":
				b = rapid.SliceOfN(rapid.Byte(), 1, 2000).Draw(c.T, "junk")
			}
			useNumber := rapid.Bool().Draw(c.T, "numbers")
			want := jsonDest{A: 77}
			wantErr := false
			if len(b) > 0 {
				dec := json.NewDecoder(bytes.NewReader(b))
				if useNumber {
					dec.UseNumber()
				}
				wantErr = dec.Decode(&want) != nil
			}
			sp, _ := h.App()
			sp.Provide(params.ParamsParser())
			got := jsonDest{A: 77}
			var gotErr error
			ran := false
			sp.Routers(strip.Any(func(p *params.Params) {
				ran = true
				if useNumber || rapid.Bool().Draw(c.T, "explicit") {
					gotErr = p.BindJsonBody(&got, useNumber)
				} else {
					gotErr = p.BindJsonBody(&got)
				}
			}))
			req := httptest.NewRequest("POST", "/?q=1", bytes.NewReader(b))
			req.Header.Set("Content-Type", "application/json")
			h.Do(sp, req)
			if !ran || (gotErr != nil) != wantErr {
				c.Fatalf("%q: error %v, want error %v", clip(string(b)), gotErr, wantErr)
			}
			if !reflect.DeepEqual(got, want) {
				c.Fatalf("%q: gives %s, want %s", clip(string(b)), show(got), show(want))
			}
			c.Label("json %s", kind)
			if d.D != nil || wantErr {
				c.NonTrivial(clip(string(b)))
			}
		})
}

var _ = sort.Strings
