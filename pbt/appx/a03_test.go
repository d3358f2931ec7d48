package appx

import (
	"errors"
	"fmt"
	"log"
	"net/http"
	"os"
	"regexp"
	"strings"
	"syscall"
	"testing"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/params"
	reqlogger "github.com/wujiu2020/strip/request-logger"
	"github.com/wujiu2020/strip/utils/apires"
	"github.com/wujiu2020/strip/utils/helpers"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
)

// withStderr runs f with standard error going to a file, which it returns.
func withStderr(f func()) *os.File {
	file, err := os.CreateTemp("", "a03-")
	h.Env(err)
	os.Remove(file.Name())
	old := os.Stderr
	os.Stderr = file
	defer func() { os.Stderr = old }()
	f()
	return file
}

// withFd2 gives what f writes to the process's standard error.
func withFd2(f func()) string {
	file, err := os.CreateTemp("", "a03-")
	h.Env(err)
	defer file.Close()
	os.Remove(file.Name())
	old, err := syscall.Dup(2)
	h.Env(err)
	h.Env(syscall.Dup3(int(file.Fd()), 2, 0))
	defer func() {
		h.Env(syscall.Dup3(old, 2, 0))
		syscall.Close(old)
	}()
	f()
	st, err := file.Stat()
	h.Env(err)
	b := make([]byte, st.Size())
	file.ReadAt(b, 0)
	return string(b)
}

func contents(f *os.File) []string {
	st, err := f.Stat()
	h.Env(err)
	b := make([]byte, st.Size())
	_, err = f.ReadAt(b, 0)
	if len(b) > 0 {
		h.Env(err)
	}
	f.Truncate(0)
	f.Seek(0, 0)
	return strings.SplitAfter(string(b), "\n")
}

type hookSpec struct {
	id      string
	answers bool
	panics  bool
}

type classicSpec struct {
	mode    string
	hooks   []hookSpec
	opt     *reqlogger.LoggerOption
	optAt   int
	optKind int
	late    []string // filters added behind
	logger  string
}

func (s classicSpec) String() string {
	return fmt.Sprintf("%s hooks %v option %+v at %d behind %v", s.mode, s.hooks, s.opt, s.optAt, s.late)
}

type trace struct{ steps []string }

func (s classicSpec) hookFilter(k hookSpec, tr *trace) interface{} {
	return func(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
		var l strip.ReqLogger
		tr.steps = append(tr.steps, fmt.Sprint("hook ", k.id, " request logger ", ctx.Find(&l) == nil))
		if k.answers && req.URL.Query().Get("static") == k.id {
			rw.WriteHeader(206)
			fmt.Fprintf(rw, "static by %s", k.id)
		}
		if k.panics && req.URL.Query().Get("bang") == k.id {
			panic("hook " + k.id)
		}
	}
}

// build makes the application, by the helper or by hand.
func (s classicSpec) build(classic bool, tr *trace, app *h.Sink) (sp *strip.Strip, out *os.File) {
	sp = strip.New()
	sp.Config.RunMode = strip.Mode(s.mode)
	sp.SetLogger(strip.NewLogger(log.New(app, "", 0)))
	sp.Filter(func(req *http.Request) { tr.steps = append(tr.steps, "first") })
	if classic {
		var options []interface{}
		for _, k := range s.hooks {
			k := k
			options = append(options, helpers.HookFunc(func(a *strip.Strip, f helpers.HookFlag) {
				if a != sp {
					panic("hook of another application")
				}
				if f == helpers.HookFlagBeforeAll {
					a.Filter(s.hookFilter(k, tr))
				}
			}))
		}
		if s.opt != nil {
			options = append(options[:s.optAt:s.optAt], append([]interface{}{*s.opt}, options[s.optAt:]...)...)
		}
		out = withStderr(func() { helpers.LoadClassicFilters(sp, options...) })
		helpers.LoadClassicProviders(sp)
	} else {
		sp.Filter(strip.RecoveryFilter())
		for _, k := range s.hooks {
			sp.Filter(s.hookFilter(k, tr))
		}
		opt := reqlogger.LoggerOption{
			ColorMode: s.mode == "dev", LineInfo: true, ShortLine: s.mode == "prod", FlatLine: s.mode == "prod", LogStackLevel: strip.LevelCritical,
		}
		if s.opt != nil {
			opt = *s.opt
		}
		out = withStderr(func() {
			sp.Filter(reqlogger.ReqLoggerFilter(log.New(os.Stderr, "", log.LstdFlags|log.Lmicroseconds), opt))
		})
		sp.Filter(strip.GenericOutFilter())
		sp.Provide(params.ParamsParser())
	}
	for _, k := range s.late {
		k := k
		sp.Filter(func(ctx strip.Context, l strip.Logger) {
			var r strip.ReqLogger
			tr.steps = append(tr.steps, fmt.Sprint("late ", k, " request logger ", ctx.Find(&r) == nil))
			l.Info("late", k)
		})
	}
	sp.Routers(
		strip.Router("/p/:x", strip.Get(func(p *params.Params, l strip.Logger) (interface{}, error) {
			var d struct {
				X string
				N int
			}
			p.BindValuesToStruct(&d)
			l.Warnf("bound %+v", d)
			if d.N < 0 {
				return nil, fmt.Errorf("negative %d", d.N)
			}
			return map[string]interface{}{"x": d.X, "n": d.N}, nil
		})),
		strip.Router("/err", strip.Get(func() error { return errors.New("plain error") })),
		strip.Router("/res", strip.Get(func() *apires.ResError { return apires.NewResError(409, 7, "conflict") })),
		strip.Router("/text", strip.Get(func(l strip.ReqLogger) (string, int) { l.Critcial("with\nstack"); return "text", 201 })),
		strip.Router("/panic", strip.Get(func() string { panic("bang") })),
		strip.Router("/log/:what", strip.Get(func(p *params.Params, l strip.Logger, r strip.ReqLogger) string {
			what := p.Values.Get("what")
			if what == "" {
				what = p.Get("what")
			}
			logFrom(l, what)
			return what
		})),
		strip.Router("/raw", strip.Get(func(rw http.ResponseWriter) { rw.Write([]byte("raw")) })),
		strip.Router("/nothing", strip.Get(func() {})),
	)
	return
}

var (
	reClock  = regexp.MustCompile(`[0-9]{4}/[0-9]{2}/[0-9]{2} [0-9:.]+ `)
	reMillis = regexp.MustCompile(`[0-9]+\.[0-9]{3}ms`)
	reStack  = regexp.MustCompile(`(?s)(bang|hook [0-9]+|stack)("?)(\\n|\n).*`)
)

// plain is a record without what differs between any two requests.
func plainRecord(s string) string {
	s = reClock.ReplaceAllString(s, "<time> ")
	s = reMillis.ReplaceAllString(s, "<ms>")
	s = regexp.MustCompile(`\(0x[0-9a-f]+\)`).ReplaceAllString(s, "<pc>")
	return s
}

// records puts lines which do not start with a clock back to the record they are part of, and forgets the frames of stacks.
func records(lines []string) (rs []string) {
	more := 0
	for _, l := range lines {
		if l == "" {
			continue
		}
		if reClock.MatchString(l) {
			rs = append(rs, reStack.ReplaceAllStringFunc(plainRecord(l), func(m string) string {
				if len(m) < 60 {
					return m
				}
				return m[:8] + " <stack>"
			}))
			more = 0
		} else if more++; len(rs) > 0 && (more == 1 || more == 6) {
			rs[len(rs)-1] += "<more>"
		}
	}
	return
}

func TestA03(t *testing.T) {
	h.Check(t, h.Spec{ID: "A03", Quick: 1200, Thorough: 40000,
		Rule: "applications with the classic filters and providers in generated modes, with 0-3 hooks and no or a generated logger option at any place among them, and further filters behind; 1-5 requests (bound parameters, results, errors, panics in the handler or a hook, answers by a hook, no route); responses, log records and order of filters are compared with the same parts put together by hand. Non-trivial: a hook or an option, and a panic, an error or an answer by a hook.",
	}, func(c *h.C) {
		s := classicSpec{mode: h.Pick(c.T, "mode", "dev", "test", "prod", "staging", "")}
		for i := rapid.IntRange(0, 3).Draw(c.T, "hooks"); i > 0; i-- {
			s.hooks = append(s.hooks, hookSpec{fmt.Sprint(len(s.hooks)), h.Pct(c.T, 50, "answers"), h.Pct(c.T, 50, "panics")})
		}
		if h.Pct(c.T, 50, "option") {
			s.opt = &reqlogger.LoggerOption{ColorMode: h.Pct(c.T, 30, "colour"), LineInfo: h.Pct(c.T, 50, "line"), ShortLine: h.Pct(c.T, 50, "short"), FlatLine: h.Pct(c.T, 50, "flat"),
				LogStackLevel: h.Pick(c.T, "stacks", strip.Level(0), strip.LevelCritical, strip.LevelAlert)}
			s.optAt = rapid.IntRange(0, len(s.hooks)).Draw(c.T, "option at")
		}
		for i := rapid.IntRange(0, 2).Draw(c.T, "late"); i > 0; i-- {
			s.late = append(s.late, fmt.Sprint(len(s.late)))
		}
		if h.Pct(c.T, 5, "wrong option") {
			var bad interface{} = h.Pick[interface{}](c.T, "bad", "text", 3, []string{"x"}, nil, &reqlogger.LoggerOption{})
			sp, _ := h.App()
			if h.Try(func() { withStderr(func() { helpers.LoadClassicFilters(sp, bad) }) }) == nil {
				c.Fatalf("LoadClassicFilters takes the option %T %v", bad, bad)
			}
			return
		}
		tr1, tr2 := new(trace), new(trace)
		s1, s2 := new(h.Sink), new(h.Sink)
		a1, o1 := s.build(true, tr1, s1)
		defer o1.Close()
		a2, o2 := s.build(false, tr2, s2)
		defer o2.Close()
		special := false
		for i := rapid.IntRange(1, 5).Draw(c.T, "requests"); i > 0; i-- {
			path := h.Pick(c.T, "path", "/p/a?N=3", "/p/b?N=-1", "/p/c?N=x", "/err", "/res", "/text", "/panic", "/log/error", "/log/critical", "/log/notice", "/log/warn", "/raw", "/nothing", "/missing")
			special = special || strings.Contains("/p/b?N=-1 /err /res /panic", path)
			sep := "?"
			if strings.Contains(path, "?") {
				sep = "&"
			}
			for _, k := range s.hooks {
				if h.Pct(c.T, 20, "answer") {
					path += sep + "static=" + k.id
					sep = "&"
					special = true
				}
				if h.Pct(c.T, 20, "bang") {
					path += sep + "bang=" + k.id
					sep = "&"
					special = true
				}
			}
			id := fmt.Sprintf("request-%04d", i)
			do := func(sp *strip.Strip) (string, []string) {
				req, err := http.NewRequest("GET", "http://example.com"+path, nil)
				h.Env(err)
				req.RemoteAddr = "192.0.2.1:1"
				if i%2 == 0 {
					req.Header.Set("X-Reqid", id)
				}
				var rec *h.Recorder
				if p := h.Try(func() { rec = h.Do(sp, req) }); p != nil {
					return fmt.Sprintf("panic %v", p), nil
				}
				own := rec.Sent.Get("X-Reqid")
				if tm := rec.Sent.Get("X-Response-Time"); tm != "" {
					rec.Sent.Set("X-Response-Time", "some")
				}
				if i%2 == 1 && own != "" {
					rec.Sent.Set("X-Reqid", "fresh")
				}
				body := rec.Body.String()
				if k := strings.Index(body, `<div class="stack">`); k >= 0 {
					body = body[:k]
				}
				return fmt.Sprintf("%d %v %q", rec.Code, rec.Sent, strings.ReplaceAll(body, own, "ID")), []string{own}
			}
			r1, id1 := do(a1)
			r2, id2 := do(a2)
			norm := func(rs []string, id []string) string {
				s := strings.Join(rs, "")
				if len(id) > 0 && id[0] != "" {
					s = strings.ReplaceAll(s, id[0], "ID")
				}
				return s
			}
			l1, l2 := norm(records(contents(o1)), id1), norm(records(contents(o2)), id2)
			p1, p2 := appRecords(s1.Take()), appRecords(s2.Take())
			if r1 != r2 {
				c.Fatalf("%v: GET %s answers\n%s, the same parts by hand\n%s", s, path, r1, r2)
			}
			if l1 != l2 {
				c.Fatalf("%v: GET %s logs\n%s, the same parts by hand\n%s", s, path, l1, l2)
			}
			if p1 != p2 {
				c.Fatalf("%v: GET %s leaves %s in the application's log, the same parts by hand %s", s, path, p1, p2)
			}
			if fmt.Sprint(tr1.steps) != fmt.Sprint(tr2.steps) {
				c.Fatalf("%v: GET %s runs %q, the same parts by hand %q", s, path, tr1.steps, tr2.steps)
			}
			if strings.HasPrefix(r1, "panic") {
				c.Fatalf("%v: GET %s: %s", s, path, r1)
			}
		}
		c.Label("mode %s", s.mode)
		c.Label("option %v", s.opt != nil)
		if special && (len(s.hooks) > 0 || s.opt != nil) {
			c.NonTrivial(fmt.Sprint(s, tr1.steps))
		}
	})
}

func appRecords(rs []string) string {
	var out []string
	for _, r := range rs {
		r = plainRecord(r)
		if k := strings.Index(r, "\n"); k >= 0 {
			r = r[:k]
		}
		if k := strings.Index(r, "\\n"); k >= 0 {
			r = r[:k]
		}
		out = append(out, r)
	}
	return fmt.Sprintf("%q", out)
}

// TestA03_Global: the global logger as the application's.
func TestA03_Global(t *testing.T) {
	h.Check(t, h.Spec{ID: "A03", Quick: 300, Thorough: 3000,
		Rule: "applications that use the global logger, with or without request logging: which logger the application, handlers and contexts give. Non-trivial: all",
	}, func(c *h.C) {
		sp := strip.New()
		mode := h.Pick(c.T, "mode", "dev", "test", "prod", "x")
		sp.Config.RunMode = strip.Mode(mode)
		before := h.Pct(c.T, 50, "filters first")
		if before {
			withStderr(func() { helpers.LoadClassicFilters(sp) }).Close()
		}
		helpers.UseGlobalLogger(sp)
		if !before && h.Pct(c.T, 50, "filters") {
			before = true
			withStderr(func() { helpers.LoadClassicFilters(sp) }).Close()
		}
		if sp.Logger() != strip.Logger(helpers.X) {
			c.Fatalf("Logger() is not the global one")
		}
		// the format the mode calls for
		what := h.Pick(c.T, "record", "notice", "warn")
		got := withFd2(func() { logFrom(helpers.X, what) })
		short := strings.Contains(got, `["shop/cart.go:`)
		long := strings.Contains(got, `["/go/src/shop/cart.go:`)
		if short != (mode == "prod") || long != (mode != "prod") {
			c.Fatalf("mode %s: the global logger logs %q", mode, got)
		}
		if flat := strings.Contains(got, `two\nlines`); flat != (mode == "prod") || strings.Contains(got, "two\nlines") == flat {
			c.Fatalf("mode %s: the global logger logs %q", mode, got)
		}
		if strings.Contains(got, "\033[") != (mode == "dev") {
			c.Fatalf("mode %s: the global logger logs %q", mode, got)
		}
		var seen strip.Logger
		var req strip.ReqLogger
		var ctxl strip.Logger
		sp.Routers(strip.Router("/g", strip.Get(func(ctx strip.Context, l strip.Logger, r strip.ReqLogger) {
			seen, req, ctxl = l, r, helpers.GetLogger(ctx)
		})))
		h.Do(sp, h.Req("GET", "/g"))
		if !before {
			if seen != strip.Logger(helpers.X) || strip.Logger(req) != strip.Logger(helpers.X) || ctxl != strip.Logger(helpers.X) {
				c.Fatalf("mode %s: handlers get %v, %v and %v, not the global logger", mode, seen, req, ctxl)
			}
		} else if seen == nil || req == nil || seen == strip.Logger(helpers.X) || strip.Logger(req) != seen || ctxl != seen {
			c.Fatalf("mode %s: handlers get %v, %v and %v, not the request's logger", mode, seen, req, ctxl)
		}
		c.NonTrivial(fmt.Sprint(mode, before))
	})
}
