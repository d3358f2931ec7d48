package reqx

import (
	"context"
	"fmt"
	"net/http"
	"net/url"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/wujiu2020/strip"
	reqlogger "github.com/wujiu2020/strip/request-logger"
	"github.com/wujiu2020/strip/utils/helpers"
	"pgregory.net/rapid"

	"verif/pbt/internal/h"
)

// printer keeps the records of the request log.
type printer struct {
	mu   sync.Mutex
	recs []string
}

func (p *printer) Print(v ...interface{}) {
	s := fmt.Sprint(v...)
	p.mu.Lock()
	p.recs = append(p.recs, s)
	p.mu.Unlock()
}

type reqSpec struct {
	i                 int
	method, path      string
	query, host       string
	id                string // sent by the client
	realIP, fwd, addr string
	client            []string // accepted forms of the client
	kind              string
	status            int
	pieces            []int
	logs              []string // how messages are logged
	sleep             time.Duration
	clobber           bool
	gone              string // when the client goes away
	cancel            func()
}

func (r reqSpec) String() string {
	return fmt.Sprintf("%s %s%s?%s id %q %s %d %v", r.method, r.host, r.path, r.query, r.id, r.kind, r.status, r.pieces)
}

func genAddr(t *rapid.T, port bool) (ip, text string) {
	v6 := h.Pct(t, 40, "v6")
	if v6 {
		ip = h.Pick(t, "ip6", "2001:db8::1", "fe80::1", "::1", "2001:db8:85a3::8a2e:370:7334")
	} else {
		ip = fmt.Sprintf("10.%d.%d.9", rapid.IntRange(0, 255).Draw(t, "b"), rapid.IntRange(0, 255).Draw(t, "c"))
	}
	text = ip
	if port {
		if v6 {
			text = "[" + ip + "]"
		}
		text += ":" + strconv.Itoa(rapid.IntRange(1, 65535).Draw(t, "port"))
	}
	return
}

func genReq(t *rapid.T, i int) reqSpec {
	r := reqSpec{i: i,
		method: h.Pick(t, "method", "GET", "POST", "PUT", "DELETE", "HEAD"),
		query:  h.Pick(t, "query", "", "", "a=1&b=%20", "x=%0A"),
		host:   h.Pick(t, "host", "example.com", "a.b:8080", "[::1]:80"),
		kind:   h.Pick(t, "kind", "write", "write", "write", "result", "status", "nothing", "missing", "panic", "filter"),
		status: h.Pick(t, "status", 200, 201, 204, 302, 404, 418, 500, 503),
		sleep:  time.Duration(h.Pick(t, "sleep", 0, 0, 0, 3)) * time.Millisecond,
	}
	r.pieces = rapid.SliceOfN(rapid.IntRange(0, 5000), 0, 4).Draw(t, "pieces")
	r.path = "/" + r.kind + "/" + h.Pick(t, "segment", "x", "a b", "ü", "%2F", "a\nb", "~,;")
	if r.kind == "missing" && h.Pct(t, 50, "root") {
		r.path = "/"
	}
	r.clobber = h.Pct(t, 20, "clobber")
	r.gone = h.Pick(t, "client gone", "", "", "", "", "before", "inside")
	switch rapid.IntRange(0, 5).Draw(t, "id") {
	case 0, 1:
	case 2: // too short
		r.id = fmt.Sprintf("%d%s", i, rapid.StringMatching(`[a-z0-9]{0,8}`).Draw(t, "short"))
	case 3: // too long
		r.id = fmt.Sprintf("%d%s", i, rapid.StringMatching(`[a-z0-9]{32,60}`).Draw(t, "long"))
	case 4: // limits
		r.id = fmt.Sprintf("%d%s", i, strings.Repeat("z", h.Pick(t, "limit", 8, 9, 10, 30, 31, 32)))
	default:
		r.id = fmt.Sprintf("%d%s", i, rapid.OneOf(rapid.StringMatching(`[a-zA-Z0-9_=-]{9,31}`), rapid.StringMatching(`[ -Z^-~]{8,20}[.%:/a-z]`)).Draw(t, "own"))
	}
	ip, text := genAddr(t, true)
	r.addr = text
	r.client = []string{ip, "[" + ip + "]"}
	if h.Pct(t, 40, "forwarded") {
		ip, text := genAddr(t, h.Pct(t, 40, "fport"))
		r.client = []string{ip, "[" + ip + "]"}
		r.fwd = h.Pick(t, "blank", "", " ") + text
		for n := rapid.IntRange(0, 2).Draw(t, "more"); n > 0; n-- {
			_, text := genAddr(t, false)
			r.fwd += h.Pick(t, "sep", ",", ", ", " ,") + text
		}
	}
	if h.Pct(t, 25, "real") {
		ip, _ := genAddr(t, false)
		r.realIP = h.Pick(t, "blank", "", " ") + ip
		r.client = []string{ip}
	}
	r.logs = rapid.SliceOfN(rapid.SampledFrom([]string{"logger", "reqlogger", "context", "reqcontext", "found", "goroutine"}), 0, 4).Draw(t, "logs")
	return r
}

type gate struct {
	n  int
	on bool
	mu sync.Mutex
	c  int
	ch chan struct{}
}

func (g *gate) pass() {
	if !g.on {
		return
	}
	g.mu.Lock()
	g.c++
	if g.c == g.n {
		close(g.ch)
	}
	g.mu.Unlock()
	select {
	case <-g.ch:
	case <-time.After(200 * time.Millisecond):
	}
}

var (
	idMu   sync.Mutex
	idSeen = map[string]bool{}
)

var timeForm = regexp.MustCompile(`\A[0-9]+\.[0-9]{3}ms\z`)
var endForm = regexp.MustCompile(`\A\[REQ_END\] ([0-9]+) ([0-9]+\.[0-9]{3})k ([0-9]+\.[0-9]{3})ms\z`)

func TestL02(t *testing.T) {
	h.Check(t, h.Spec{ID: "L02", Quick: 1200, Thorough: 40000,
		Rule: "1-8 requests (own, missing and invalid ids, forwarding headers, IPv6, escaped paths) served one by one or at once and held together inside their handlers, which log through every kind of logger they can get and answer in every way; the records of every request, its headers and the response sent are compared with the request. Non-trivial: at least two requests in flight, or one that logs.",
	}, func(c *h.C) {
		out := new(printer)
		opt := reqlogger.LoggerOption{
			ColorMode: h.Pct(c.T, 20, "color"), LineInfo: h.Pct(c.T, 30, "line"), ShortLine: h.Pct(c.T, 20, "short"), FlatLine: h.Pct(c.T, 50, "flat"),
		}
		if h.Pct(c.T, 10, "stacks") {
			opt.LogStackLevel = h.Pick(c.T, "stack level", strip.LevelAlert, strip.LevelError, strip.LevelInformational, strip.LevelDebug)
		}
		var issues []string
		var mu sync.Mutex
		issue := func(f string, a ...interface{}) {
			mu.Lock()
			issues = append(issues, fmt.Sprintf(f, a...))
			mu.Unlock()
		}
		prefixed := h.Pct(c.T, 30, "prefix filter")
		if prefixed {
			opt.PrefixFilter = func(ctx strip.Context, rw http.ResponseWriter, req *http.Request, s string) string {
				if s != "" {
					issue("the prefix filter got %q", s)
				}
				return "<" + req.Header.Get("X-N") + ">"
			}
		}
		renamed := h.Pct(c.T, 20, "id filter")
		if renamed {
			opt.ReqidFilter = func(ctx strip.Context, rw http.ResponseWriter, req *http.Request, s string) string { return "R" + s }
		}
		begs, ends := h.Pick(c.T, "beg filter", "", "", "", "change", "drop"), h.Pick(c.T, "end filter", "", "", "", "change", "drop")
		content := func(kind string) reqlogger.LoggerContentFilter {
			switch kind {
			case "change":
				return func(ctx strip.Context, rw http.ResponseWriter, req *http.Request, s string) string { return "!" + s }
			case "drop":
				return func(ctx strip.Context, rw http.ResponseWriter, req *http.Request, s string) string { return "" }
			}
			return nil
		}
		opt.ReqBegFilter, opt.ReqEndFilter = content(begs), content(ends)

		n := rapid.IntRange(1, 8).Draw(c.T, "requests")
		together := h.Pct(c.T, 70, "together")
		reqs := make([]reqSpec, n)
		arrive := 0
		logged := false
		for i := range reqs {
			reqs[i] = genReq(c.T, i)
			if reqs[i].kind != "missing" {
				arrive++
			}
			logged = logged || len(reqs[i].logs) > 0
		}
		g := &gate{n: arrive, on: together && arrive > 1, ch: make(chan struct{})}

		// what handlers see and do
		seenID := make([]string, n)
		work := func(ctx strip.Context, rw http.ResponseWriter, req *http.Request) reqSpec {
			i, _ := strconv.Atoi(req.Header.Get("X-N"))
			r := reqs[i]
			if r.sleep > 0 {
				time.Sleep(r.sleep)
			}
			seenID[i] = req.Header.Get("X-Reqid")
			for k, how := range r.logs {
				if k == len(r.logs)/2 {
					g.pass()
				}
				msg := fmt.Sprintf("message %d of %d", k, i)
				switch how {
				case "logger":
					var l strip.Logger
					ctx.Find(&l, "")
					l.Info(msg)
				case "reqlogger":
					var l strip.ReqLogger
					if err := ctx.Find(&l, ""); err != nil {
						issue("no ReqLogger: %v", err)
						continue
					}
					if l.ReqId() != seenID[i] {
						issue("ReqId is %q, request has %q", l.ReqId(), seenID[i])
					}
					l.Infof("%s", msg)
				case "context":
					helpers.GetLogger(ctx).Info(msg)
				case "reqcontext":
					var fresh *http.Request
					if ctx.Find(&fresh, "") == nil {
						req = fresh
					}
					helpers.GetLogger(req.Context()).Info(msg)
				case "found":
					ctx.Invoke(func(l strip.Logger) { l.Info(msg) })
				case "goroutine":
					var l strip.Logger
					ctx.Find(&l, "")
					done := make(chan bool)
					go func() { l.Info(msg); close(done) }()
					<-done
				}
			}
			if len(r.logs) == 0 {
				g.pass()
			}
			if r.gone == "inside" {
				r.cancel()
			}
			if r.clobber {
				rw.Header().Set("X-Reqid", "clobbered")
			}
			return r
		}
		write := func(rw http.ResponseWriter, r reqSpec) {
			rw.WriteHeader(r.status)
			for _, p := range r.pieces {
				rw.Write([]byte(strings.Repeat("x", p)))
			}
		}

		sp, _ := h.App()
		sp.Filter(reqlogger.ReqLoggerFilter(out, opt), strip.RecoveryFilter(), strip.GenericOutFilter())
		sp.Filter(func(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
			if strings.HasPrefix(req.URL.Path, "/filter/") {
				write(rw, work(ctx, rw, req))
			}
		})
		hand := map[string]interface{}{
			"write": func(ctx strip.Context, rw http.ResponseWriter, req *http.Request) { write(rw, work(ctx, rw, req)) },
			"result": func(ctx strip.Context, rw http.ResponseWriter, req *http.Request) (string, int) {
				r := work(ctx, rw, req)
				s := 0
				for _, p := range r.pieces {
					s += p
				}
				return strings.Repeat("y", s), r.status
			},
			"status": func(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
				rw.WriteHeader(work(ctx, rw, req).status)
			},
			"nothing": func(ctx strip.Context, rw http.ResponseWriter, req *http.Request) { work(ctx, rw, req) },
			"panic": func(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
				panic(fmt.Sprintf("bang %d", work(ctx, rw, req).i))
			},
		}
		for k, f := range hand {
			sp.Routers(strip.Router("/"+k+"/:x", strip.Get(f), strip.Post(f), strip.Put(f), strip.Delete(f), strip.Head(f)))
		}

		recs := make([]*h.Recorder, n)
		took := make([]time.Duration, n)
		urls := make([]string, n)
		fail := make([]interface{}, n)
		serve := func(i int) {
			r := reqs[i]
			req := h.Req(r.method, r.path)
			req.URL = &url.URL{Path: r.path, RawQuery: r.query}
			req.Host = r.host
			req.RemoteAddr = r.addr
			req.Header.Set("X-N", strconv.Itoa(i))
			if r.id != "" {
				req.Header.Set("X-Reqid", r.id)
			}
			if r.fwd != "" {
				req.Header.Set("X-Forwarded-For", r.fwd)
			}
			if r.realIP != "" {
				req.Header.Set("X-Real-Ip", r.realIP)
			}
			cctx, cancel := context.WithCancel(req.Context())
			defer cancel()
			reqs[i].cancel = cancel
			if r.gone == "before" {
				cancel()
			}
			req = req.WithContext(cctx)
			urls[i] = req.URL.String()
			start := time.Now()
			fail[i] = h.Try(func() { recs[i] = h.Do(sp, req) })
			took[i] = time.Since(start)
		}
		h.Within(fmt.Sprint(reqs), func() {
			if !together {
				for i := range reqs {
					serve(i)
				}
				return
			}
			var wg sync.WaitGroup
			for i := range reqs {
				wg.Add(1)
				go func(i int) { defer wg.Done(); serve(i) }(i)
			}
			wg.Wait()
		})

		if len(issues) > 0 {
			c.Fatalf("%v: %s", reqs, issues[0])
		}
		// records by id
		byID := map[string][]string{}
		for _, rec := range out.recs {
			if opt.ColorMode {
				rec = regexp.MustCompile("\x1b\\[[0-9;]*m").ReplaceAllString(rec, "")
			}
			m := regexp.MustCompile(`(?s)\A\[([A-Z]+)\]\[([^\]]*)\](.*)\z`).FindStringSubmatch(rec)
			if m == nil {
				c.Fatalf("%v: record %q has no id", reqs, rec)
			}
			byID[m[2]] = append(byID[m[2]], "["+m[1]+"]"+m[3])
		}
		total := 0
		for i, r := range reqs {
			if fail[i] != nil {
				c.Fatalf("request %v panics: %v", r, fail[i])
			}
			rec := recs[i]
			ids := rec.Sent["X-Reqid"]
			if len(ids) != 1 {
				c.Fatalf("%v: response has ids %q", r, ids)
			}
			id := ids[0]
			want := r.id
			if renamed {
				want = "R" + want
			}
			if len(r.id) >= 10 && len(r.id) <= 32 {
				c.Label("own id")
				if id != want {
					c.Fatalf("%v: sent id %q, response has %q", r, r.id, id)
				}
			} else {
				c.Label("fresh id")
				idMu.Lock()
				dup := idSeen[id]
				idSeen[id] = true
				idMu.Unlock()
				if id == want || dup || len(id) < 10 || len(id) > 33 {
					c.Fatalf("%v: sent id %q, response has %q (given before: %v), not a fresh one", r, r.id, id, dup)
				}
			}
			if r.kind != "missing" && seenID[i] != id {
				c.Fatalf("%v: the handler saw id %q, the response has %q", r, seenID[i], id)
			}
			if tm := rec.Sent.Get("X-Response-Time"); !timeForm.MatchString(tm) {
				c.Fatalf("%v: response time %q", r, tm)
			} else if f, _ := strconv.ParseFloat(strings.TrimSuffix(tm, "ms"), 64); f < float64(r.sleep.Milliseconds()) && r.kind != "missing" || f > float64(took[i].Microseconds())/1000+0.01 {
				c.Fatalf("%v: response time %s, handler took %v, whole request %v", r, tm, r.sleep, took[i])
			}
			lines := byID[id]
			total += len(lines)
			pre := ""
			if prefixed {
				pre = fmt.Sprintf("<%d>", i)
			}
			stackless := ""
			next := func() string {
				if len(lines) == 0 {
					return ""
				}
				l := strings.TrimSuffix(lines[0], "\n")
				lines = lines[1:]
				if strings.HasPrefix(l, "[INFO]") && opt.LogStackLevel >= strip.LevelInformational {
					// the stack follows in lines of its own
					nl := "\n"
					if opt.FlatLine {
						nl = "\\n"
					}
					k := strings.Index(l, nl)
					if k < 0 {
						stackless = l
					} else {
						l = l[:k]
					}
				}
				return l
			}
			all := append([]string(nil), lines...)
			bad := func(what string) {
				c.Fatalf("%v with %+v: %s; records under its id %q are %q, sent %d with %d bytes", r, opt, what, id, all, rec.Code, rec.Body.Len())
			}
			if begs != "drop" {
				l := next()
				ok := false
				for _, cl := range r.client {
					w := "[INFO]" + pre + " " + map[string]string{"": "", "change": "!"}[begs] + fmt.Sprintf("[REQ_BEG] %s %s%s %s", r.method, r.host, urls[i], cl)
					ok = ok || l == w
				}
				if !ok {
					bad("begin record")
				}
			}
			if r.kind != "missing" {
				for k := range r.logs {
					l := next()
					if opt.LineInfo {
						l = regexp.MustCompile(`\["[^"]*:[0-9]+"\]`).ReplaceAllString(l, "")
					}
					if l != fmt.Sprintf("[INFO]%s message %d of %d", pre, k, i) {
						bad(fmt.Sprintf("message %d", k))
					}
				}
			}
			if r.kind == "panic" {
				if l := next(); !strings.HasPrefix(l, "[ERROR]"+pre) || !strings.Contains(l, fmt.Sprintf("bang %d", i)) {
					bad("panic record")
				}
			}
			if ends != "drop" {
				l := next()
				w := "[INFO]" + pre + " " + map[string]string{"": "", "change": "!"}[ends]
				m := endForm.FindStringSubmatch(strings.TrimPrefix(l, w))
				if !strings.HasPrefix(l, w) || m == nil {
					bad("end record")
				}
				if m[1] != strconv.Itoa(rec.Code) {
					bad("status in the end record")
				}
				if m[2] != fmt.Sprintf("%.3f", float64(rec.Body.Len())/1024) {
					bad("size in the end record")
				}
				if f, _ := strconv.ParseFloat(m[3], 64); f > float64(took[i].Microseconds())/1000+0.01 || r.kind != "missing" && f < float64(r.sleep.Milliseconds()) {
					bad(fmt.Sprintf("time in the end record, the request took %v", took[i]))
				}
			}
			if len(lines) > 0 {
				bad("more records")
			}
			if stackless != "" {
				bad(fmt.Sprintf("no stack in %q", stackless))
			}
		}
		if total != len(out.recs) {
			c.Fatalf("%v: %d records, %d of them under the ids of the requests: %q", reqs, len(out.recs), total, out.recs)
		}
		c.Label("requests %d together %v", n, together)
		if n > 1 && together || logged {
			c.NonTrivial(fmt.Sprint(reqs))
		}
	})
}

// TestL02_Fresh: ids made at the same moment differ.
func TestL02_Fresh(t *testing.T) {
	h.Check(t, h.Spec{ID: "L02", Quick: 30, Thorough: 600,
		Rule: "fresh ids made by several goroutines at once; non-trivial: at least 2 goroutines",
	}, func(c *h.C) {
		workers := rapid.IntRange(1, 8).Draw(c.T, "workers")
		each := rapid.IntRange(100, 3000).Draw(c.T, "each")
		if workers > 1 {
			c.NonTrivial(fmt.Sprintf("%d x %d", workers, each))
		}
		out := make([][]string, workers)
		var wg sync.WaitGroup
		t0 := time.Now().UnixNano()
		for w := range out {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for i := 0; i < each; i++ {
					out[w] = append(out[w], reqlogger.NewReqId())
				}
			}(w)
		}
		wg.Wait()
		t1 := time.Now().UnixNano()
		seen := map[string]bool{}
		for _, l := range out {
			for _, id := range l {
				if seen[id] {
					c.Fatalf("%d goroutines: id %q was given twice", workers, id)
				}
				seen[id] = true
				if len(id) < 10 || len(id) > 32 {
					c.Fatalf("fresh id %q would not be accepted back", id)
				}
				if _, at := reqlogger.DecodeReqId(id); at < t0-int64(time.Second) || at > t1+int64(time.Second) {
					c.Fatalf("id %q decodes to the time %d, made between %d and %d", id, at, t0, t1)
				}
			}
		}
	})
}
