package gz

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"io"
	"log"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/wujiu2020/strip"
	sgzip "github.com/wujiu2020/strip/gzip"
	reqlogger "github.com/wujiu2020/strip/request-logger"
	static "github.com/wujiu2020/strip/static-serve"
	"github.com/wujiu2020/strip/utils/apires"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
)

// op is one thing the handler (or an inner filter) does to its writer.
type op struct {
	kind string // status, write, flush, header, copy, before, panic
	code int
	data string
	key  string
}

func (o op) String() string {
	d := o.data
	if len(d) > 24 {
		d = fmt.Sprintf("%s...(%d)", d[:24], len(d))
	}
	switch o.kind {
	case "status":
		return fmt.Sprintf("WriteHeader(%d)", o.code)
	case "header":
		return fmt.Sprintf("%s=%q", o.key, d)
	}
	return fmt.Sprintf("%s(%q)", o.kind, d)
}

// web is one generated application and request.
type web struct {
	accept  []string
	offer   bool // gzip is among what the client accepts
	method  string
	mode    strip.Mode
	layout  []string // application filters, outermost first; "gzip" is one
	route   bool     // gzip as a filter of the route instead
	handler string   // ops, string, bytes, reader, closer, raw, json, error, status, static, missing
	ops     []op
	inner   []op // done by the inner filter after Next
	data    string
	code    int
	hdr     map[string]string // request headers
	path    string
}

func (w web) String() string {
	return fmt.Sprintf("%s %s Accept-Encoding=%q %v mode=%q filters=%v gzipOnRoute=%v handler=%s%v inner=%v data=%s code=%d", w.method, w.path, w.accept, w.hdr, w.mode, w.layout, w.route,
		w.handler, w.ops, w.inner, op{kind: "data", data: w.data}, w.code)
}

func content(t *rapid.T, label string) string {
	switch h.Pick(t, label+" kind", "short", "short", "long", "html", "binary", "empty", "large") {
	case "large":
		return h.Text(h.Size(t, label+" size", 1<<19))
	case "long":
		return strings.Repeat(rapid.StringMatching(`[a-z ]{1,12}`).Draw(t, label), rapid.IntRange(1, 4000).Draw(t, label+" times"))
	case "html":
		return "<html><body>" + rapid.StringN(0, 10, 20).Draw(t, label)
	case "binary":
		return string(rapid.SliceOfN(rapid.Byte(), 1, 300).Draw(t, label))
	case "empty":
		return ""
	}
	return rapid.StringN(1, 20, 40).Draw(t, label)
}

func genOps(t *rapid.T, n int, panics, before bool) (ops []op) {
	for i := rapid.IntRange(0, n).Draw(t, "ops"); i > 0; i-- {
		kinds := []string{"status", "write", "write", "flush", "header", "copy", "write"}
		if before {
			kinds = append(kinds, "before")
		}
		if panics && h.Pct(t, 25, "panic") {
			kinds = []string{"panic"}
		}
		o := op{kind: rapid.SampledFrom(kinds).Draw(t, "op")}
		switch o.kind {
		case "status":
			o.code = h.Pick(t, "code", 200, 201, 202, 205, 206, 301, 400, 401, 404, 418, 500, 503, 204, 304)
		case "write", "copy":
			o.data = content(t, "piece")
		case "header":
			o.key = h.Pick(t, "header", "X-A", "Content-Type", "Content-Type", "Content-Encoding", "Vary", "Etag", "Cache-Control")
			switch o.key {
			case "Content-Type":
				o.data = h.Pick(t, "type", "text/plain", "application/json", "image/png")
			case "Content-Encoding":
				o.data = h.Pick(t, "encoding", "br", "identity", "gzip")
			case "Vary":
				o.data = h.Pick(t, "vary", "Cookie", "Origin", "Accept-Encoding")
			default:
				o.data = `"` + rapid.StringMatching(`[a-z]{1,4}`).Draw(t, "value") + `"`
			}
		case "before":
			o.data = rapid.StringMatching(`[a-z]{1,4}`).Draw(t, "value")
		case "panic":
			o.data = "boom " + rapid.StringMatching(`[a-z]{1,4}`).Draw(t, "value")
		}
		ops = append(ops, o)
		if o.kind == "panic" {
			break
		}
	}
	return
}

func total(ops []op) (n int) {
	for _, o := range ops {
		if o.kind == "write" || o.kind == "copy" {
			n += len(o.data)
		}
	}
	return
}

// bodied: the operations give the whole body of an answer that may have one.
func bodied(ops []op) bool {
	for _, o := range ops {
		if o.kind == "panic" || o.code == 204 || o.code == 304 {
			return false
		}
	}
	return true
}

// hook notes the client's view at each Flush of the handler.
type hook func(written string)

func play(w http.ResponseWriter, ops []op, flushed hook) {
	var sofar bytes.Buffer
	for _, o := range ops {
		o := o
		switch o.kind {
		case "status":
			w.WriteHeader(o.code)
		case "write":
			n, _ := w.Write([]byte(o.data))
			sofar.WriteString(o.data[:n])
		case "copy":
			n, _ := io.Copy(w, struct{ io.Reader }{strings.NewReader(o.data)})
			sofar.WriteString(o.data[:n])
		case "flush":
			w.(http.Flusher).Flush()
			if flushed != nil {
				flushed(sofar.String())
			}
		case "header":
			w.Header().Set(o.key, o.data)
		case "before":
			w.(strip.ResponseWriter).Before(func(rw strip.ResponseWriter) { rw.Header().Add("X-Before", o.data) })
		case "panic":
			panic(o.data)
		}
	}
}

type closer struct{ io.Reader }

func (closer) Close() error { return nil }

func (w web) app(on bool, dir string, flushed hook) http.Handler {
	sp, _ := h.App()
	sp.Config.RunMode = w.mode
	var gz []interface{}
	if on {
		gz = []interface{}{sgzip.All()}
	}
	for _, f := range w.layout {
		switch f {
		case "gzip":
			sp.Filter(gz...)
		case "recovery":
			sp.Filter(strip.RecoveryFilter())
		case "out":
			sp.Filter(strip.GenericOutFilter())
		case "log":
			sp.Filter(reqlogger.ReqLoggerFilter(log.New(io.Discard, "", 0)))
		case "static":
			sp.Filter(static.ServeFilter("/files", dir))
		case "header":
			sp.Filter(func(ctx strip.Context, rw http.ResponseWriter) {
				rw.Header().Set("X-Outer", "1")
				ctx.Next()
			})
		case "inner":
			sp.Filter(func(ctx strip.Context) {
				ctx.Next()
				var rw http.ResponseWriter
				ctx.Find(&rw, "")
				play(rw, w.inner, nil)
			})
		}
	}
	var hd interface{}
	switch w.handler {
	case "ops":
		hd = func(rw http.ResponseWriter) { play(rw, w.ops, flushed) }
	case "string":
		hd = func() (string, int) { return w.data, w.code }
	case "bytes":
		hd = func() []byte { return []byte(w.data) }
	case "reader":
		hd = func() (io.Reader, int) { return strings.NewReader(w.data), w.code }
	case "closer":
		hd = func() io.ReadCloser { return closer{strings.NewReader(w.data)} }
	case "raw":
		hd = func() *apires.RawBody { return apires.RawWith(w.data, w.code) }
	case "json":
		hd = func() *apires.ResBody { return apires.With(map[string]string{"v": w.data}, w.code) }
	case "error":
		hd = func() error { return apires.NewResError(w.code, 7, w.data) }
	case "status":
		hd = func() int { return w.code }
	default:
		hd = func() string { return "not reached" }
	}
	var fs []interface{}
	if w.route {
		fs = gz
	}
	conf := []strip.Handler{strip.All(hd)}
	if len(fs) > 0 {
		conf = []strip.Handler{strip.Filter(fs...), strip.All(hd)}
	}
	sp.Routers(strip.Router("/h", conf...))
	return sp
}

// answer is what a client got.
type answer struct {
	code int
	hdr  http.Header
	body string
}

func single(w web) bool {
	n := 0
	for _, o := range append(append([]op{}, w.ops...), w.inner...) {
		switch o.kind {
		case "write", "copy":
			n++
		case "flush":
			return false
		}
	}
	if w.handler == "ops" {
		return n <= 1
	}
	return n == 0
}

func gunzip(b string) (string, error) {
	zr, err := gzip.NewReader(strings.NewReader(b))
	if err != nil {
		return "", err
	}
	zr.Multistream(false)
	out, err := io.ReadAll(zr)
	return string(out), err
}

func fixture() string {
	dir, err := os.MkdirTemp("", "g01")
	h.Env(err)
	h.Env(os.WriteFile(filepath.Join(dir, "a.txt"), []byte("some text\n"), 0o644))
	h.Env(os.WriteFile(filepath.Join(dir, "b.html"), []byte(strings.Repeat("<p>text</p>\n", 3000)), 0o644))
	h.Env(os.WriteFile(filepath.Join(dir, "empty.txt"), nil, 0o644))
	h.Env(os.WriteFile(filepath.Join(dir, "noext"), []byte{0, 1, 2, 3, 0xff}, 0o644))
	for _, f := range []string{"a.txt", "b.html", "empty.txt", "noext"} {
		tm := time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)
		h.Env(os.Chtimes(filepath.Join(dir, f), tm, tm))
	}
	return dir
}

// offer makes a list of codings in one or several header lines, with gzip
// among them if it is to be offered, else without it or refusing it.
func offer(t *rapid.T, gz bool) (lines []string) {
	weight := func(none bool) string {
		if none {
			return h.Pick(t, "no weight", ";q=0", ";q=0.0", "; q=0", ";q=0.000", ";Q=0")
		}
		return h.Pick(t, "weight", "", "", "", ";q=1", ";q=0.5", "; q=0.001", ";q=1.000", ";Q=0.3")
	}
	var codings []string
	for _, other := range []string{"br", "deflate", "identity", "zstd", "compress"} {
		if h.Pct(t, 40, other) {
			codings = append(codings, other+weight(h.Pct(t, 20, "refused")))
		}
	}
	if gz || len(codings) == 0 || h.Pct(t, 75, "gzip refused") {
		name := h.Pick(t, "gzip", "gzip", "gzip", "GZIP", "Gzip", "x-gzip")
		at := rapid.IntRange(0, len(codings)).Draw(t, "gzip at")
		codings = slices.Insert(codings, at, name+weight(!gz))
	}
	lines = []string{codings[0]}
	for _, c := range codings[1:] {
		if h.Pct(t, 30, "new line") {
			lines = append(lines, c)
		} else {
			lines[len(lines)-1] += h.Pick(t, "comma", ", ", ",", " , ", ",\t") + c
		}
	}
	return
}

// gzipOffered reads the header lines: gzip with a weight other than zero.
func gzipOffered(lines []string) bool {
	for _, c := range strings.Split(strings.ToLower(strings.NewReplacer(" ", "", "\t", "").Replace(strings.Join(lines, ","))), ",") {
		name, q, _ := strings.Cut(c, ";q=")
		if (name == "gzip" || name == "x-gzip") && (q == "" || strings.Trim(q, "0.") != "") {
			return true
		}
	}
	return false
}

func genWeb(t *rapid.T) web {
	w := web{
		method: h.Pick(t, "method", "GET", "GET", "GET", "POST", "HEAD"),
		mode:   h.Pick(t, "mode", strip.Mode("prod"), strip.Mode("prod"), strip.Mode("dev")),
		path:   "/h",
		hdr:    map[string]string{"X-Reqid": "0123456789abcdef"},
	}
	switch h.Pick(t, "accept", "gzip", "gzip", "gzip", "other") {
	case "gzip":
		w.accept = []string{h.Pick(t, "accept-encoding", "gzip", "gzip, deflate, br", "deflate, gzip;q=0.8", "br,gzip", "deflate;q=0.5, gzip;q=1.0, *;q=0.1")}
		if h.Pct(t, 25, "other ways to offer") {
			w.accept = offer(t, true)
		}
	default:
		w.accept = h.Pick(t, "accept-encoding", nil, []string{""}, []string{"br"}, []string{"identity"}, []string{"deflate, br;q=0.9"})
		if h.Pct(t, 40, "refused") {
			w.accept = offer(t, false)
		}
	}
	w.offer = w.accept != nil && gzipOffered(w.accept)
	w.handler = h.Pick(t, "handler", "ops", "ops", "ops", "ops", "ops", "string", "bytes", "reader", "closer", "raw", "json", "error", "status", "static", "missing")
	w.data = content(t, "data")
	w.code = h.Pick(t, "code", 200, 200, 201, 404, 500, 204, 304)
	rec := h.Pct(t, 60, "recovery")
	if w.handler == "ops" {
		w.ops = genOps(t, 7, rec, true)
	}
	var mid []string
	w.route = w.handler != "static" && h.Pct(t, 20, "gzip on the route")
	if !w.route {
		mid = append(mid, "gzip")
	}
	opt := func(p int, f string) {
		if h.Pct(t, p, f) {
			// a random place
			i := rapid.IntRange(0, len(mid)).Draw(t, f+" at")
			mid = append(mid[:i], append([]string{f}, mid[i:]...)...)
		}
	}
	opt(30, "header")
	opt(20, "log")
	opt(map[bool]int{true: 30, false: 95}[w.handler == "ops"], "out")
	if w.handler == "static" {
		mid = append(mid, "static")
		w.path = "/files/" + h.Pick(t, "file", "a.txt", "b.html", "empty.txt", "noext", "none")
		if h.Pct(t, 25, "range") {
			w.hdr["Range"] = h.Pick(t, "range", "bytes=0-4", "bytes=2-", "bytes=-3", "bytes=999999-", "bytes=0-1,3-4")
		}
		if h.Pct(t, 20, "since") {
			w.hdr["If-Modified-Since"] = h.Pick(t, "since", "Thu, 02 Jan 2020 03:04:05 GMT", "Wed, 01 Jan 2020 03:04:05 GMT")
		}
	} else if w.handler == "missing" {
		w.path = "/none"
	} else if !w.route && h.Pct(t, 20, "inner") {
		// writes after the handler, inside of the gzip filter
		w.inner = genOps(t, 2, rec, false)
		for i, f := range mid {
			if f == "gzip" {
				mid = append(mid[:i+1], append([]string{"inner"}, mid[i+1:]...)...)
				break
			}
		}
	}
	if n := total(w.ops); n > 0 && len(w.inner) == 0 && bodied(w.ops) && h.Pct(t, 25, "length") {
		w.ops = append([]op{{kind: "header", key: "Content-Length", data: fmt.Sprint(n)}}, w.ops...)
	}
	if rec {
		i := 0
		if h.Pct(t, 40, "recovery inside") {
			for j, f := range mid {
				if f == "inner" {
					i = 0
					break
				}
				if f == "gzip" {
					i = rapid.IntRange(0, j+1).Draw(t, "recovery at")
				}
			}
		}
		mid = append(mid[:i], append([]string{"recovery"}, mid[i:]...)...)
	}
	w.layout = mid
	return w
}

func (w web) offers() bool { return w.offer }

// compare says how the answer behind the filter differs from the plain one.
func (w web) compare(plain, got answer, sniffed bool) (diff string, compressed bool) {
	body := got.body
	enc, penc := got.hdr.Get("Content-Encoding"), plain.hdr.Get("Content-Encoding")
	compressed = enc == "gzip" && penc == ""
	if !compressed && enc != penc {
		return fmt.Sprintf("Content-Encoding %q instead of %q", enc, penc), false
	}
	if compressed {
		if !w.offers() {
			return "compressed for a client that does not accept it", true
		}
		if w.method == "HEAD" && body == "" {
			body = ""
		} else {
			var err error
			if body, err = gunzip(got.body); err != nil {
				return fmt.Sprintf("the body declared as gzip does not decode (%v): %q", err, got.body), true
			}
		}
		if cl := got.hdr.Get("Content-Length"); cl != "" && cl != fmt.Sprint(len(got.body)) && w.method != "HEAD" {
			return "stale Content-Length " + cl, true
		}
		found := false
		for _, v := range got.hdr["Vary"] {
			for _, x := range strings.Split(v, ",") {
				found = found || strings.EqualFold(strings.TrimSpace(x), "Accept-Encoding")
			}
		}
		if !found {
			return fmt.Sprintf("compressed without Vary: Accept-Encoding but %q", got.hdr["Vary"]), true
		}
	} else if cl := got.hdr.Get("Content-Length"); cl != "" && w.method != "HEAD" && got.code != 304 && cl != fmt.Sprint(len(got.body)) {
		return "wrong Content-Length " + cl, false
	}
	if plain.code != got.code {
		return fmt.Sprintf("status %d instead of %d", got.code, plain.code), compressed
	}
	panicPage := strings.Contains(plain.body, "PANIC") && strings.Contains(plain.body, `<div class="stack">`)
	if panicPage {
		cut := func(s string) string {
			i := strings.Index(s, `<div class="stack">`)
			if i < 0 {
				return s
			}
			return s[:i]
		}
		if cut(body) != cut(plain.body) || !strings.HasSuffix(strings.TrimSpace(body), "</html>") {
			return fmt.Sprintf("panic page %q instead of %q", body, plain.body), compressed
		}
	} else if body != plain.body {
		return fmt.Sprintf("body %q instead of %q", body, plain.body), compressed
	}
	// headers
	drop := []string{"Content-Encoding", "Content-Length", "X-Response-Time", "Date", "Transfer-Encoding"}
	a, b := plain.hdr.Clone(), got.hdr.Clone()
	for _, k := range drop {
		a.Del(k)
		b.Del(k)
	}
	if compressed {
		for _, v := range a["Vary"] {
			if !strings.Contains(strings.Join(b["Vary"], ","), v) {
				return fmt.Sprintf("Vary %q lost %q", b["Vary"], v), compressed
			}
		}
		a.Del("Vary")
		b.Del("Vary")
	}
	if (a.Get("Content-Type") == "" || sniffed) && compressed {
		// the server would look at the text; the filter has to, and both see
		// the same bytes only if it came in one piece
		if want := http.DetectContentType([]byte(plain.body)); single(w) && plain.body != "" && !panicPage && b.Get("Content-Type") != want {
			return fmt.Sprintf("Content-Type %q instead of %q", b.Get("Content-Type"), want), compressed
		}
		a.Del("Content-Type")
		b.Del("Content-Type")
	}
	if fmt.Sprint(a) != fmt.Sprint(b) {
		return fmt.Sprintf("headers %v instead of %v", b, a), compressed
	}
	// compression has to happen at all
	if w.offers() && plain.body != "" && penc == "" && !compressed && plain.code != 204 && plain.code != 304 && !w.writesOutside(plain) {
		return "not compressed", compressed
	}
	return "", compressed
}

// writesOutside tells whether the body comes from a filter outside of the
// gzip filter.
func (w web) writesOutside(plain answer) bool {
	if w.handler == "missing" {
		return true
	}
	if w.route {
		for _, f := range w.layout {
			if f == "out" || f == "recovery" {
				return true
			}
		}
		return false
	}
	for _, f := range w.layout {
		if f == "gzip" {
			return false
		}
		if f == "out" || f == "recovery" {
			return true
		}
	}
	return false
}

func TestG01(t *testing.T) {
	dir := fixture()
	defer os.RemoveAll(dir)
	h.Check(t, h.Spec{ID: "G01", Quick: 12000, Thorough: 200000,
		Rule: "an application with gzip, recovery, out, log, static and header filters in a random order, whose handler writes, flushes, sets status and headers and panics at random or returns one of eight kinds of results or is a static file; the decoded answer is compared with that of the same application without the gzip filter. Non-trivial: the answer was compressed."},
		func(c *h.C) {
			w := genWeb(c.T)
			var rec *h.Recorder
			type mark struct {
				at      int
				written string
			}
			var marks []mark
			ask := func(on bool) (a answer, p interface{}) {
				var fl hook
				rec = h.NewRecorder()
				if on {
					fl = func(s string) { marks = append(marks, mark{rec.Flushed, s}) }
				}
				app := w.app(on, dir, fl)
				req := h.Req(w.method, w.path)
				if w.accept != nil {
					req.Header["Accept-Encoding"] = w.accept
				}
				for k, v := range w.hdr {
					req.Header.Set(k, v)
				}
				p = h.Try(func() { app.ServeHTTP(rec, req) })
				if rec.Sent == nil {
					rec.Sent = http.Header{}
				}
				return answer{rec.Code, rec.Sent, rec.Body.String()}, p
			}
			plain, p1 := ask(false)
			got, p2 := ask(true)
			if (p1 == nil) != (p2 == nil) {
				c.Fatalf("%v: panics %v without and %v with the filter", w, p1, p2)
			}
			if p1 != nil {
				c.Label("aborted")
				return
			}
			diff, compressed := w.compare(plain, got, false)
			if diff != "" {
				c.Fatalf("%v: %s", w, diff)
			}
			if rec.Commits > 1 {
				c.Fatalf("%v: %d status lines", w, rec.Commits)
			}
			if compressed {
				for _, m := range marks {
					var b []byte
					zr, err := gzip.NewReader(strings.NewReader(got.body[:m.at]))
					if err == nil {
						b, _ = io.ReadAll(zr)
					}
					if string(b) != m.written {
						c.Fatalf("%v: after a flush of %q the client can decode %q only (%v)", w, m.written, b, err)
					}
				}
				c.NonTrivial(w.String())
			}
			c.Label("%s compressed=%v", w.handler, compressed)
			if !w.offers() && strings.Contains(strings.ToLower(strings.Join(w.accept, ",")), "gzip") {
				c.Label("gzip refused")
			}
			if len(marks) > 0 && compressed {
				c.Label("flushed while compressing")
			}
			if strings.Contains(plain.body, "PANIC") {
				c.Label("panic page")
			}
		})
}

// The same through a real server and client.
func TestG01_wire(t *testing.T) {
	dir := fixture()
	defer os.RemoveAll(dir)
	var mu sync.Mutex
	var cur http.Handler
	srv := httptest.NewUnstartedServer(http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) {
		mu.Lock()
		x := cur
		mu.Unlock()
		x.ServeHTTP(rw, req)
	}))
	srv.Config.ErrorLog = log.New(io.Discard, "", 0)
	srv.Start()
	defer srv.Close()
	cl := srv.Client()
	cl.Transport.(*http.Transport).DisableCompression = true
	cl.CheckRedirect = func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }
	h.Check(t, h.Spec{ID: "G01", Quick: 700, Thorough: 10000,
		Rule: "the same through a real net/http server and client. Non-trivial: the answer was compressed."},
		func(c *h.C) {
			w := genWeb(c.T)
			ask := func(on bool) (answer, error) {
				mu.Lock()
				cur = w.app(on, dir, nil)
				mu.Unlock()
				req, err := http.NewRequest(w.method, srv.URL+w.path, nil)
				h.Env(err)
				if w.accept != nil {
					req.Header["Accept-Encoding"] = w.accept
				}
				for k, v := range w.hdr {
					req.Header.Set(k, v)
				}
				res, err := cl.Do(req)
				if err != nil {
					return answer{}, err
				}
				b, err := io.ReadAll(res.Body)
				res.Body.Close()
				return answer{res.StatusCode, res.Header, string(b)}, err
			}
			plain, e1 := ask(false)
			got, e2 := ask(true)
			if (e1 == nil) != (e2 == nil) {
				c.Fatalf("%v: client error %v without and %v with the filter", w, e1, e2)
			}
			if e1 != nil {
				c.Label("aborted")
				return
			}
			diff, compressed := w.compare(plain, got, w.sniffs())
			if diff != "" {
				c.Fatalf("wire %v: %s", w, diff)
			}
			if compressed {
				c.NonTrivial("wire " + w.String())
			}
		})
}

// sniffs tells whether the content type of the answer is left to the server.
func (w web) sniffs() bool {
	switch w.handler {
	case "json", "error":
		// what the inner filter writes goes before a result sent further out
		return len(w.inner) > 0 && slices.Index(w.layout, "out") < slices.Index(w.layout, "inner")
	case "static", "missing":
		return false
	}
	for _, o := range w.ops {
		switch {
		case o.kind == "header" && o.key == "Content-Type":
			return false
		case o.kind == "write" || o.kind == "copy" || o.kind == "flush":
			return true
		}
	}
	return true
}
