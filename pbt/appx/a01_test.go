package appx

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net"
	"net/http"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/wujiu2020/strip"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
)

type settings map[string]string

func (s settings) Find(name string) string { return s[name] }

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

// freePort is a port nobody listens on at any local address at the moment.
func freePort() string {
	for i := 0; i < 200; i++ {
		p := fmt.Sprint(10000 + rand.Intn(20000))
		l, err := net.Listen("tcp", ":"+p)
		if err == nil {
			l.Close()
			return p
		}
	}
	h.Env(errors.New("no free port"))
	return ""
}

type connKey struct{}

type running struct {
	name    string
	sp      *strip.Strip
	srv     *http.Server // as it was before Run
	wrapped bool
	short   bool // no kept connections
	context bool // connections have a context of their own
	opened  int32
	sink    *h.Sink
	mode    string
	addr    string // as configured
	dial    string
	done    chan error
	waiting chan string // "in" when a held request is in, then how it ended
	release chan struct{}
}

func launch(c *h.C, name string) *running {
	a := &running{name: name, done: make(chan error, 1), waiting: make(chan string, 10), release: make(chan struct{})}
	a.mode = h.Pick(c.T, "mode", "dev", "test", "prod", "staging")
	ip := h.Pick(c.T, "address", "127.0.0.1", "127.0.0.1", "localhost", "127.0.0.2", "")
	imported := h.Pct(c.T, 50, "imported")
	a.wrapped = h.Pct(c.T, 20, "wrapped")
	a.short = h.Pct(c.T, 20, "closed connections")
	a.context = h.Pct(c.T, 40, "connection context")
	color := h.Pct(c.T, 50, "colour")
	stale := h.Pct(c.T, 30, "server address")
	for try := 0; ; try++ {
		port := freePort()
		a.sp = strip.New()
		a.sink = new(h.Sink)
		l := strip.NewLogger(log.New(a.sink, "", 0))
		l.SetColorMode(color)
		a.sp.SetLogger(l)
		if imported {
			if h.Pct(c.T, 30, "set before") {
				// what is imported later counts
				a.sp.Config.RunMode, a.sp.Config.HttpAddr, a.sp.Config.HttpPort = "test", "127.0.0.9", "1"
			}
			a.sp.ImportConfig(settings{"run_mode": a.mode, "http_addr": ip, "http_port": port})
			if ip == "" {
				a.sp.Config.HttpAddr = ""
			}
		} else {
			a.sp.Config.RunMode, a.sp.Config.HttpAddr, a.sp.Config.HttpPort = strip.Mode(a.mode), ip, port
		}
		a.addr = ip + ":" + port
		a.dial = ip + ":" + port
		if ip == "" {
			a.dial = "127.0.0.3:" + port
		}
		a.srv = a.sp.Server
		a.srv.ConnState = func(conn net.Conn, st http.ConnState) {
			if st == http.StateNew {
				atomic.AddInt32(&a.opened, 1)
			}
		}
		if a.context {
			a.srv.ConnContext = func(ctx context.Context, conn net.Conn) context.Context {
				return context.WithValue(ctx, connKey{}, a.name)
			}
		}
		if a.wrapped {
			// the application stays in charge of its server
			next := a.sp.Server.Handler
			a.sp.Server.Handler = http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) {
				rw.Header().Set("X-Wrapped", "yes")
				next.ServeHTTP(rw, req)
			})
		}
		if stale {
			// the settings decide where the application listens
			a.srv.Addr = "127.0.0.1:" + freePort()
		}
		if a.short {
			a.srv.SetKeepAlivesEnabled(false)
		}
		a.routes()
		go func() { a.done <- a.sp.Run() }()
		for i := 0; i < 700; i++ {
			select {
			case err := <-a.done:
				if try < 5 && errors.Is(err, syscall.EADDRINUSE) {
					// somebody else was faster
					goto again
				}
				c.Fatalf("Run on %s in mode %s returned %v", a.addr, a.mode, err)
			default:
			}
			conn, err := net.DialTimeout("tcp", a.dial, time.Second)
			if err == nil {
				conn.Close()
				a.checkStart(c, color)
				return a
			}
			time.Sleep(time.Duration(i/20) * time.Millisecond)
		}
		a.srv.Close()
		c.Fatalf("nobody listens on %s, the application was to run on %q", a.dial, a.addr)
	again:
	}
}

func (a *running) checkStart(c *h.C, color bool) {
	recs := a.sink.Take()
	if len(recs) != 1 {
		c.Fatalf("records of the start on %q are %q", a.addr, recs)
	}
	want := fmt.Sprintf("Teapot listening on %s in [%s] mode", a.addr, a.mode)
	if got := strings.TrimSuffix(ansi.ReplaceAllString(recs[0], ""), "\n"); got != "[INFO] "+want {
		c.Fatalf("record of the start is %q, want %q", recs[0], want)
	}
	if a.mode != "dev" && ansi.MatchString(recs[0]) {
		c.Fatalf("colours in mode %s: %q", a.mode, recs[0])
	}
	if a.sp.Server.Addr != a.addr {
		c.Fatalf("the server's address is %q, want %q", a.sp.Server.Addr, a.addr)
	}
}

func (a *running) routes() {
	echo := func(ctx strip.Context, rw http.ResponseWriter, req *http.Request, i *strip.RouteInfo) {
		b, err := io.ReadAll(req.Body)
		if s, _ := ctx.Value(connKey{}).(string); s != "" {
			rw.Header().Set("X-Conn", s)
		}
		rw.WriteHeader(203)
		fmt.Fprintf(rw, "%s %s %s %s %q %q %v", a.name, req.Method, i.Path, req.URL.Path, req.URL.RawQuery, b, err)
	}
	stream := func(rw http.ResponseWriter, req *http.Request) {
		for i := 0; i < 3; i++ {
			fmt.Fprintf(rw, "%s %d;", a.name, i)
			rw.(http.Flusher).Flush()
		}
	}
	hold := func(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
		a.waiting <- "in"
		select {
		case <-a.release:
			fmt.Fprintf(rw, "%s released", a.name)
			a.waiting <- "released"
		case <-ctx.Done():
			a.waiting <- fmt.Sprint("gone ", ctx.Err(), " ", req.Context().Err())
		case <-time.After(30 * time.Second):
			a.waiting <- "nothing happened"
		}
	}
	take := func(rw http.ResponseWriter, req *http.Request) {
		conn, buf, err := rw.(http.Hijacker).Hijack()
		if err != nil {
			return
		}
		fmt.Fprintf(buf, "HTTP/1.1 299 %s\r\nContent-Length: 2\r\nConnection: close\r\n\r\nhi", a.name)
		buf.Flush()
		conn.Close()
	}
	a.sp.Filter(strip.RecoveryFilter(), strip.GenericOutFilter())
	a.sp.Routers(
		strip.Router("/echo/:x", strip.Get(echo), strip.Post(echo), strip.Put(echo), strip.Delete(echo)),
		strip.Router("/"+a.name, strip.Get(func() (string, int) { return "own " + a.name, 202 })),
		strip.Router("/stream", strip.Get(stream)),
		strip.Router("/hold", strip.Get(hold)),
		strip.Router("/hijack", strip.Get(take)),
		strip.Router("/panic", strip.Get(func() { panic("bang") })),
	)
}

// ask sends one request on a connection and compares the answer.
func (a *running) ask(c *h.C, conn net.Conn, br *bufio.Reader, kind, other string) (closed bool) {
	method, target, body := "GET", "/"+kind, ""
	code, want := 0, ""
	proto := "HTTP/1.1"
	header := ""
	switch kind {
	case "echo":
		method = h.Pick(c.T, "method", "GET", "HEAD", "POST", "PUT", "DELETE", "get", "PATCH")
		x := h.Pick(c.T, "path", "x", "a%20b", "%C3%BC")
		q := h.Pick(c.T, "query", "", "a=1&b")
		target = "/echo/" + x
		if q != "" {
			target += "?" + q
		}
		if method == "POST" || method == "PUT" {
			body = strings.Repeat("z", rapid.IntRange(0, 3000).Draw(c.T, "body"))
		}
		up := strings.ToUpper(method)
		code, want = 203, fmt.Sprintf("%s %s /echo/:x /echo/%s %q %q <nil>", a.name, up, map[string]string{"x": "x", "a%20b": "a b", "%C3%BC": "ü"}[x], q, body)
		if method == "PATCH" {
			code, want = 404, "*"
		}
	case "own":
		target = "/" + a.name
		code, want = 202, "own "+a.name
	case "other":
		// a route of another application, or of none
		target = "/" + other
		code, want = 404, "*"
	case "stream":
		code, want = 200, fmt.Sprintf("%s 0;%s 1;%s 2;", a.name, a.name, a.name)
	case "panic":
		code, want = 500, "*"
	case "hijack":
		code, want = 299, "hi"
	}
	if h.Pct(c.T, 15, "http/1.0") {
		proto = "HTTP/1.0"
	}
	if body != "" && proto == "HTTP/1.1" && h.Pct(c.T, 40, "chunked") {
		header = "Transfer-Encoding: chunked\r\n"
		k := len(body) / 2
		var b bytes.Buffer
		for _, p := range []string{body[:k], body[k:]} {
			if p != "" {
				fmt.Fprintf(&b, "%x\r\n%s\r\n", len(p), p)
			}
		}
		body = b.String() + "0\r\n\r\n"
	} else if method == "POST" || method == "PUT" {
		header = fmt.Sprintf("Content-Length: %d\r\n", len(body))
	}
	what := fmt.Sprintf("application %s on %q: %s %s %s", a.name, a.addr, method, target, proto)
	conn.SetDeadline(time.Now().Add(60 * time.Second))
	fmt.Fprintf(conn, "%s %s %s\r\nHost: %s\r\n%s\r\n%s", method, target, proto, a.dial, header, body)
	res, err := http.ReadResponse(br, &http.Request{Method: strings.ToUpper(method)})
	if err != nil {
		c.Fatalf("%s: %v", what, err)
	}
	got, err := io.ReadAll(res.Body)
	if err != nil {
		c.Fatalf("%s: body: %v", what, err)
	}
	if method == "HEAD" && code == 203 {
		want = ""
	}
	if res.StatusCode != code || want != "*" && string(got) != want {
		c.Fatalf("%s: answer is %d %q, want %d %q", what, res.StatusCode, got, code, want)
	}
	if wrap := res.Header.Get("X-Wrapped"); (wrap == "yes") != (a.wrapped && kind != "hijack") {
		c.Fatalf("%s: the handler the program set for the server was passed by (%v): %v", what, a.wrapped, res.Header)
	}
	if a.short && !res.Close {
		c.Fatalf("%s: kept connections are disabled but this one is kept", what)
	}
	if s := res.Header.Get("X-Conn"); kind == "echo" && code == 203 && (s == a.name) != a.context {
		c.Fatalf("%s: value of the connection context is %q, set %v", what, s, a.context)
	}
	if atomic.LoadInt32(&a.opened) == 0 {
		c.Fatalf("%s: the server does not report its connections", what)
	}
	if kind == "own" || kind == "echo" && code == 203 {
		if res.Header.Get("X-Powered-By") == "" {
			c.Fatalf("%s: headers are %v", what, res.Header)
		}
	}
	return res.Close || kind == "hijack"
}

func (a *running) connect(c *h.C) (net.Conn, *bufio.Reader) {
	conn, err := net.DialTimeout("tcp", a.dial, 20*time.Second)
	if err != nil {
		c.Fatalf("application %s runs on %q and %s cannot be reached: %v", a.name, a.addr, a.dial, err)
	}
	return conn, bufio.NewReader(conn)
}

func (a *running) wait(c *h.C, what string) string {
	select {
	case s := <-a.waiting:
		return s
	case <-time.After(60 * time.Second):
		c.Fatalf("%s: nothing within a minute", what)
	}
	return ""
}

func (a *running) result(c *h.C) error {
	select {
	case err := <-a.done:
		return err
	case <-time.After(60 * time.Second):
		c.Fatalf("Run has not returned a minute after the end of the server")
	}
	return nil
}

// last is the record Run leaves when it returns err.
func (a *running) last(c *h.C, err error) {
	recs := a.sink.Take()
	for _, r := range recs {
		r = ansi.ReplaceAllString(r, "")
		if strings.HasPrefix(r, "[EMERGENCY]") && strings.Contains(r, err.Error()) {
			return
		}
	}
	c.Fatalf("Run returned %v and no emergency record says so: %q", err, recs)
}

func TestA01(t *testing.T) {
	h.Check(t, h.Spec{ID: "A01", Quick: 350, Thorough: 8000,
		Rule: "1-3 applications run at once in generated modes on generated loopback addresses and free ports (set directly or imported), asked over kept, closed and abandoned connections and HTTP versions for their own routes, each other's and none, stopped by Close, by Shutdown with a request in flight, or never started because the address is taken. Non-trivial: two applications, or a held or abandoned request.",
	}, func(c *h.C) {
		n := h.Pick(c.T, "applications", 1, 1, 2, 3)
		var apps []*running
		defer func() {
			for _, a := range apps {
				a.srv.Close()
			}
		}()
		for i := 0; i < n; i++ {
			apps = append(apps, launch(c, fmt.Sprintf("app%d", i)))
		}
		special := ""
		var steps []string
		type link struct {
			conn net.Conn
			br   *bufio.Reader
		}
		links := map[int]*link{}
		drop := func(i int) {
			if links[i] != nil {
				links[i].conn.Close()
				links[i] = nil
			}
		}
		defer func() {
			for i := range links {
				drop(i)
			}
		}()
		for k := rapid.IntRange(1, 8).Draw(c.T, "steps"); k > 0; k-- {
			i := rapid.IntRange(0, n-1).Draw(c.T, "application")
			a := apps[i]
			kind := h.Pick(c.T, "kind", "echo", "echo", "own", "other", "stream", "panic", "hijack", "abandon", "hold", "taken", "disconnect")
			steps = append(steps, fmt.Sprint(i, kind))
			switch kind {
			case "abandon":
				special = kind
				conn, _ := a.connect(c)
				fmt.Fprintf(conn, "GET /hold HTTP/1.1\r\nHost: x\r\n\r\n")
				if s := a.wait(c, "a held request"); s != "in" {
					c.Fatalf("held request: %s", s)
				}
				conn.Close()
				if s := a.wait(c, "an abandoned request"); s != "gone context canceled context canceled" {
					c.Fatalf("application on %q: the client went away: %s", a.addr, s)
				}
			case "hold":
				special = kind
				conn, br := a.connect(c)
				fmt.Fprintf(conn, "GET /hold HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n")
				if s := a.wait(c, "a held request"); s != "in" {
					c.Fatalf("held request: %s", s)
				}
				// others are served meanwhile
				other, obr := a.connect(c)
				a.ask(c, other, obr, "own", "")
				other.Close()
				a.release <- struct{}{}
				if s := a.wait(c, "a released request"); s != "released" {
					c.Fatalf("released request: %s", s)
				}
				res, err := http.ReadResponse(br, nil)
				if err != nil {
					c.Fatalf("held request: %v", err)
				}
				b, err := io.ReadAll(res.Body)
				if err != nil || string(b) != a.name+" released" {
					c.Fatalf("held request: %q %v", b, err)
				}
				conn.Close()
			case "taken":
				special = kind
				// another application on the same address
				sp, sink := h.App()
				ip, port, _ := net.SplitHostPort(a.addr)
				sp.Config.HttpAddr, sp.Config.HttpPort = ip, port
				b := &running{sp: sp, sink: sink, done: make(chan error, 1)}
				go func() { b.done <- sp.Run() }()
				err := b.result(c)
				if !errors.Is(err, syscall.EADDRINUSE) {
					c.Fatalf("Run on the taken address %q returned %v", a.addr, err)
				}
				b.last(c, err)
			case "disconnect":
				drop(i)
			default:
				l := links[i]
				if l == nil {
					l = new(link)
					l.conn, l.br = a.connect(c)
					links[i] = l
				}
				if a.ask(c, l.conn, l.br, kind, fmt.Sprintf("app%d", i+rapid.IntRange(1, 2).Draw(c.T, "other"))) {
					drop(i)
				}
			}
		}
		for i, a := range apps {
			drop(i)
			end := h.Pick(c.T, "end", "close", "shutdown", "shutdown held")
			if end != "shutdown held" {
				if end == "close" {
					a.srv.Close()
				} else {
					a.srv.Shutdown(context.Background())
				}
				if err := a.result(c); err != http.ErrServerClosed {
					c.Fatalf("Run returned %v after %s", err, end)
				}
			} else {
				special = end
				conn, br := a.connect(c)
				fmt.Fprintf(conn, "GET /hold HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n")
				if s := a.wait(c, "a held request"); s != "in" {
					c.Fatalf("held request: %s", s)
				}
				var wg sync.WaitGroup
				wg.Add(1)
				go func() { defer wg.Done(); a.srv.Shutdown(context.Background()) }()
				if err := a.result(c); err != http.ErrServerClosed {
					c.Fatalf("Run returned %v after %s", err, end)
				}
				a.release <- struct{}{}
				res, err := http.ReadResponse(br, nil)
				if err != nil {
					c.Fatalf("request held over a shutdown: %v", err)
				}
				b, err := io.ReadAll(res.Body)
				if err != nil || string(b) != a.name+" released" {
					c.Fatalf("request held over a shutdown: %q %v", b, err)
				}
				conn.Close()
				wg.Wait()
			}
			a.last(c, http.ErrServerClosed)
			if conn, err := net.DialTimeout("tcp", a.dial, 5*time.Second); err == nil {
				conn.Close()
				c.Fatalf("%q still answers after Run has returned", a.addr)
			}
			c.Label("%s", end)
			c.Label("mode %s", a.mode)
		}
		if n > 1 || special != "" {
			var as []string
			for _, a := range apps {
				as = append(as, a.mode+" "+strings.Split(a.addr, ":")[0])
			}
			c.NonTrivial(fmt.Sprint(as, steps, special))
		}
	})
}
