package conc

import (
	"bytes"
	"crypto/md5"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"mime/multipart"
	"net/http"
	"net/url"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/gzip"
	"github.com/wujiu2020/strip/inject"
	"github.com/wujiu2020/strip/params"
	reqlogger "github.com/wujiu2020/strip/request-logger"
	static "github.com/wujiu2020/strip/static-serve"
	"github.com/wujiu2020/strip/utils/apires"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
)

// gates makes concurrent requests wait for each other at given places, so
// that they really are in flight at the same time.
type gates struct {
	on    bool
	n     int
	at    map[string]bool
	mu    sync.Mutex
	count map[string]int
	open  map[string]chan struct{}
}

func (g *gates) pass(place string) {
	if !g.on {
		return
	}
	runtime.Gosched()
	if !g.at[place] {
		return
	}
	g.mu.Lock()
	g.count[place]++
	ch := g.open[place]
	if ch == nil {
		ch = make(chan struct{})
		g.open[place] = ch
	}
	if g.count[place] == g.n {
		close(ch)
	}
	g.mu.Unlock()
	select {
	case <-ch:
	case <-time.After(300 * time.Millisecond):
		// somebody does not come here; go on
	}
}

// tok is made once per request from its header.
type tok struct{ v string }

// scoped is provided by a filter of the request.
type scoped struct{ v string }

// named is an application-wide constructor resolved per request.
type named struct {
	t *tok
	n int
}

type info struct {
	Name string   `json:"name"`
	N    int64    `json:"n"`
	Tags []string `json:"tags"`
}

var tallyMu sync.Mutex

// Ctl keeps per-request state in its fields.
type Ctl struct {
	Base  string
	Count int
	Arr   [4]int
	Tally map[string]int // shared on purpose, guarded by tallyMu
	Deep  struct {
		Seen string
		Tok  *tok `inject`
	}

	Req    *http.Request       `inject`
	Rw     http.ResponseWriter `inject`
	Tok    *tok                `inject`
	Scoped *scoped             `inject`
	Log    strip.Logger        `inject`
	P      *params.Params      `inject`
	Named  *named              `inject:"n"`
	Info   *strip.RouteInfo    `inject`
	G      *gates              `inject`
}

func (c *Ctl) Get(id int, name string) string {
	c.Base += name
	c.Count += id
	c.Arr[id&3] += id
	c.Deep.Seen += c.Tok.v
	c.Log.Infof("ctl %s", c.Tok.v)
	first := fmt.Sprint(c.Req.Header.Get("X-Tok"), c.P.Values.Get("v"))
	c.G.pass("handler")
	tallyMu.Lock()
	c.Tally[name]++
	tallyMu.Unlock()
	c.Rw.Header().Set("X-Ctl", c.Deep.Tok.v)
	return fmt.Sprintf("%s|%s %d %v %s|%s %s|%d %s|%s|%s %v", first, c.Base, c.Count, c.Arr, c.Deep.Seen, c.Tok.v, c.Scoped.v, c.Named.n, c.Named.t.v, c.Info.Path, c.Req.URL.Path, c.P.Values["name"])
}

func (c *Ctl) Post(id uint8, name string) (*apires.ResBody, int) {
	c.Base = strings.ToUpper(name)
	var in info
	err := c.P.BindJsonBody(&in)
	c.G.pass("handler")
	in.Tags = append(in.Tags, c.Base, fmt.Sprint(id, err))
	return apires.With(in, 200), 201
}

// plain is a reader and nothing else.
type plain struct{ r io.Reader }

func (p plain) Read(b []byte) (int, error) {
	runtime.Gosched()
	return p.r.Read(b)
}

func app(spec appSpec, g *gates, runs map[string]int, sink *h.Sink) http.Handler {
	// results one application hands out again and again
	sharedRes := apires.Ret(0)
	sharedErr := apires.NewResError(409, 7, "base")
	sharedRaw := apires.RawWith([]byte("shared bytes"))

	sp := strip.New()
	sp.SetLogger(strip.NewLogger(log.New(sink, "", 0)))
	sp.Config.RunMode = spec.mode
	var runsMu sync.Mutex
	sp.Provide(inject.Provide{func(req *http.Request) *tok {
		t := req.Header.Get("X-Tok")
		runsMu.Lock()
		runs[t]++
		runsMu.Unlock()
		return &tok{t}
	}})
	sp.ProvideAs(inject.Provide{func(t *tok, s *scoped) *named { return &named{t, len(s.v)} }}, (*named)(nil), "n")
	sp.Provide(params.ParamsParser(), g)
	for _, f := range spec.filters {
		switch f {
		case "recovery":
			sp.Filter(strip.RecoveryFilter())
		case "log":
			sp.Filter(reqlogger.ReqLoggerFilter(log.New(sink, "", 0), reqlogger.LoggerOption{LineInfo: spec.mode == "dev", FlatLine: spec.mode == "prod"}))
		case "gzip":
			sp.Filter(gzip.All())
		case "out":
			sp.Filter(strip.GenericOutFilter())
		case "next":
			sp.Filter(func(ctx strip.Context, req *http.Request, rw http.ResponseWriter) {
				t := req.Header.Get("X-Tok")
				g.pass("filter")
				rw.(strip.ResponseWriter).Before(func(w strip.ResponseWriter) { w.Header().Add("X-Next", t) })
				ctx.Next()
				g.pass("after")
			})
		}
	}
	sp.Filter(static.ServeFilter("/st", spec.dir))
	sp.Filter(func(ctx strip.Context, t *tok) { ctx.Provide(&scoped{"s-" + t.v}) })
	ctl := Ctl{Base: "base", Count: 100, Tally: map[string]int{}}
	var proto interface{} = ctl
	if spec.ptr {
		proto = &ctl
	}
	late := func(ctx strip.Context, req *http.Request) { ctx.Provide(&scoped{"late-" + req.Header.Get("X-Tok")}) }
	sp.Routers(
		strip.Router("/c/:id/:name", strip.Filter(late), strip.Get(proto), strip.Post(proto)),
		strip.Router("/f/:id", strip.Get(func(req *http.Request, p *params.Params, t *tok, s *scoped, l strip.Logger) string {
			first := fmt.Sprint(req.URL.RawQuery, p.Values.Get("v"))
			l.Warn("f", t.v)
			g.pass("handler")
			return fmt.Sprint(first, p.Values["id"], p.Route.Values, t.v, s.v, req.Header.Get("X-Tok"))
		})),
		strip.Router("/form", strip.Post(func(ctx strip.Context, req *http.Request) (interface{}, int) {
			var p *params.Params
			if err := ctx.Find(&p); err != nil {
				return err.Error(), 500
			}
			g.pass("handler")
			var dest struct {
				Name string
				N    int
				L    []string
				M    map[string]int
				Sub  struct{ A, B string }
			}
			p.BindValuesToStruct(&dest)
			var names []string
			for f, hs := range p.Files {
				for _, fh := range hs {
					r, err := fh.Open()
					if err != nil {
						return err.Error(), 500
					}
					b, err := io.ReadAll(r)
					r.Close()
					names = append(names, fmt.Sprint(f, fh.Filename, md5.Sum(b), err))
				}
			}
			sort.Strings(names)
			return fmt.Sprintf("%+v %v %v", dest, p.Form, names), 202
		})),
		strip.Router("/raw", strip.Get(func(rw http.ResponseWriter, t *tok) {
			w := rw.(strip.ResponseWriter)
			w.Before(func(w strip.ResponseWriter) { w.Header().Set("X-Raw", t.v) })
			w.WriteHeader(203)
			for i := 0; i < 4; i++ {
				fmt.Fprintf(w, "%s-%d;", t.v, i)
				if i == 1 {
					g.pass("handler")
					w.Flush()
				}
			}
		})),
		strip.Router("/reader/:how", strip.Get(func(p *params.Params, t *tok) interface{} {
			g.pass("handler")
			r := plain{strings.NewReader(strings.Repeat(t.v+"|", 1000))}
			if p.Values.Get("how") == "api" {
				return apires.RawWith(r, 203)
			}
			return r
		})),
		strip.Router("/shared/:k", strip.Get(func(p *params.Params, t *tok) interface{} {
			g.pass("handler")
			switch p.Values.Get("k") {
			case "res":
				return sharedRes
			case "msg":
				return sharedErr.WithMsg("msg " + t.v)
			case "data":
				return sharedErr.WithData(map[string]string{"t": t.v})
			case "raw":
				return sharedRaw
			}
			return sharedErr
		})),
		strip.Router("/panic", strip.Get(func(t *tok) string {
			g.pass("handler")
			panic("bang " + t.v)
		})),
		strip.Router("/status/:n", strip.Get(func(i *strip.RouteInfo, p *params.Params) int {
			g.pass("handler")
			n := 200
			fmt.Sscan(p.Values.Get("n"), &n)
			return n
		})),
	)
	return sp
}

type appSpec struct {
	mode    strip.Mode
	filters []string
	ptr     bool
	dir     string
}

type reqSpec struct {
	method, url, ctype string
	body               []byte
	gzip               bool
	tok                string
}

func (r reqSpec) String() string {
	return fmt.Sprintf("%s %s (%d bytes, gzip %v)", r.method, r.url, len(r.body), r.gzip)
}

func genReq(t *rapid.T, i int) reqSpec {
	r := reqSpec{method: "GET", tok: fmt.Sprintf("token%06d%s", i, rapid.StringMatching(`[a-z]{2,4}`).Draw(t, "token")), gzip: h.Pct(t, 40, "gzip")}
	id := rapid.IntRange(0, 200).Draw(t, "id")
	switch h.Pick(t, "target", "ctl", "ctl", "ctlpost", "func", "form", "upload", "raw", "shared", "panic", "status", "missing", "reader", "static") {
	case "ctl":
		r.url = fmt.Sprintf("/c/%d/n%s?v=%s&name=q%d", id, r.tok, r.tok, id)
	case "ctlpost":
		r.method, r.url, r.ctype = "POST", fmt.Sprintf("/c/%d/n%s", id, r.tok), "application/json"
		b, _ := json.Marshal(info{r.tok, int64(id) << 40, []string{r.tok, "x"}})
		r.body = b
	case "func":
		r.url = fmt.Sprintf("/f/%d?v=%s", id, r.tok)
	case "form":
		r.method, r.url, r.ctype = "POST", "/form?Name="+r.tok, "application/x-www-form-urlencoded"
		r.body = []byte(url.Values{"N": {fmt.Sprint(id)}, "L[]": {r.tok, "b"}, "M[" + r.tok + "]": {"4"}, "Sub.A": {r.tok}}.Encode())
	case "upload":
		r.method, r.url = "POST", "/form?Name="+r.tok
		var buf bytes.Buffer
		mw := multipart.NewWriter(&buf)
		mw.WriteField("N", fmt.Sprint(id))
		for k := rapid.IntRange(1, 2).Draw(t, "files"); k > 0; k-- {
			w, _ := mw.CreateFormFile("f", r.tok)
			io.WriteString(w, strings.Repeat(r.tok, rapid.IntRange(0, 300).Draw(t, "size")))
		}
		mw.Close()
		r.ctype, r.body = mw.FormDataContentType(), buf.Bytes()
	case "raw":
		r.url = "/raw"
	case "shared":
		r.url = "/shared/" + h.Pick(t, "shared", "res", "msg", "data", "raw", "err")
	case "reader":
		r.url = "/reader/" + h.Pick(t, "reader", "api", "plain")
	case "static":
		r.url = fmt.Sprintf("/st/f%d.txt", rapid.IntRange(0, 7).Draw(t, "file")) // the last two do not exist
	case "panic":
		r.url = "/panic"
	case "status":
		r.url = fmt.Sprintf("/status/%d", h.Pick(t, "status", 200, 204, 404, 500, 302))
	case "missing":
		r.url = "/nothing/" + r.tok
	}
	return r
}

func (r reqSpec) do(hd http.Handler) (out string) {
	req, err := http.NewRequest(r.method, "http://example.com"+r.url, bytes.NewReader(r.body))
	h.Env(err)
	req.RequestURI = r.url
	req.RemoteAddr = "192.0.2.1:1"
	if r.ctype != "" {
		req.Header.Set("Content-Type", r.ctype)
	}
	req.Header.Set("X-Tok", r.tok)
	req.Header.Set("X-Reqid", r.tok)
	if r.gzip {
		req.Header.Set("Accept-Encoding", "gzip")
	}
	rec := h.NewRecorder()
	if p := h.Try(func() { hd.ServeHTTP(rec, req) }); p != nil {
		return fmt.Sprintf("panic %v", p)
	}
	rec.Sent.Del("X-Response-Time")
	body := rec.Body.String()
	if strings.Contains(body, `<div class="stack">`) {
		body = body[:strings.Index(body, `<div class="stack">`)]
	}
	return fmt.Sprintf("%d %v %q %d %v", rec.Code, rec.Sent, body, rec.Commits, rec.Late)
}

func TestH05(t *testing.T) {
	dir := t.TempDir()
	for i := 0; i < 6; i++ {
		h.Env(os.WriteFile(fmt.Sprintf("%s/f%d.txt", dir, i), []byte(strings.Repeat(fmt.Sprint("file ", i, "\n"), 50*i+1)), 0o600))
	}
	h.Check(t, h.Spec{ID: "H05", Quick: 1500, Thorough: 40000,
		Rule: "2-8 requests (controllers, functions, JSON, forms, uploads, streaming, readers, static files, shared results, panics) served at once by one application whose filters are generated, held together at generated places inside the request, and one after another by an identical one, each first after its start; every response compared, under the race detector. Non-trivial: at least two of the requests went to the same route."},
		func(c *h.C) {
			spec := appSpec{mode: h.Pick(c.T, "mode", strip.Mode("prod"), strip.Mode("dev")), ptr: h.Pct(c.T, 50, "pointer controller"), filters: []string{"recovery"}, dir: dir}
			for _, f := range []string{"log", "next", "gzip", "next", "out"} {
				if f == "out" || h.Pct(c.T, 60, f) {
					spec.filters = append(spec.filters, f)
				}
			}
			n := rapid.IntRange(2, 8).Draw(c.T, "requests")
			var reqs []reqSpec
			for i := 0; i < n; i++ {
				reqs = append(reqs, genReq(c.T, i))
			}
			if h.Pct(c.T, 40, "same route") {
				for i := range reqs {
					reqs[i].tok = fmt.Sprintf("token%06d", i)
					if i > 0 && len(reqs[0].body) == 0 {
						reqs[i].method, reqs[i].ctype, reqs[i].body = reqs[0].method, "", nil
						reqs[i].url = reqs[0].url
					}
				}
			}
			at := map[string]bool{}
			for _, p := range []string{"filter", "handler", "after"} {
				at[p] = h.Pct(c.T, 50, "hold at "+p)
			}
			routes := map[string]int{}
			for _, r := range reqs {
				p := strings.Split(r.url, "/")[1]
				routes[p]++
				// only places every request comes to
				if p == "nothing" || p == "st" || strings.HasPrefix(p, "form") && r.method != "POST" {
					at["handler"] = false
				}
				if p == "panic" {
					at["after"] = false
				}
			}
			nexts := 0
			for _, f := range spec.filters {
				if f == "next" {
					nexts++
				}
			}
			if nexts != 1 {
				at["filter"], at["after"] = false, false
			}
			seqRuns, conRuns := map[string]int{}, map[string]int{}
			sink1, sink2 := new(h.Sink), new(h.Sink)
			want := make([]string, n)
			seq := app(spec, &gates{}, seqRuns, sink1)
			for i, r := range reqs {
				want[i] = r.do(seq)
			}
			g := &gates{on: true, n: n, at: at, count: map[string]int{}, open: map[string]chan struct{}{}}
			con := app(spec, g, conRuns, sink2)
			got := make([]string, n)
			h.Within(fmt.Sprint(reqs), func() {
				var wg sync.WaitGroup
				start := make(chan struct{})
				for i := range reqs {
					wg.Add(1)
					go func(i int) {
						defer wg.Done()
						<-start
						got[i] = reqs[i].do(con)
					}(i)
				}
				close(start)
				wg.Wait()
			})
			for i := range reqs {
				if got[i] != want[i] {
					c.Fatalf("%+v holding at %v: request %d of %v\n got %s\nwant %s", spec, at, i, reqs, got[i], want[i])
				}
			}
			for i := range reqs {
				if a := conRuns[reqs[i].tok]; a != seqRuns[reqs[i].tok] || a > 1 {
					c.Fatalf("%+v: the constructor ran %d times for request %d of %v, %d times alone", spec, a, i, reqs, seqRuns[reqs[i].tok])
				}
			}
			for p, k := range routes {
				if k > 1 {
					c.Label("several on /%s", p)
				}
			}
			for p := range at {
				if at[p] && g.count[p] == n {
					c.Label("held together at %s", p)
				}
			}
			for _, k := range routes {
				if k > 1 {
					c.NonTrivial(fmt.Sprint(spec, at, reqs))
					break
				}
			}
		})
}
