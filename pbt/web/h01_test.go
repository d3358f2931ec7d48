package web

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"

	"github.com/wujiu2020/strip"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
)

// wop is one operation on the response writer.
type wop struct {
	kind string // status, write, copy (from a reader), flush, header, before
	code int
	data string
	key  string
	// the connection takes only the first cut-1 bytes (0: all)
	cut int
	// what a Before hook does
	hookCode int
	hookIf   bool // if none was set
}

func (o wop) String() string {
	switch o.kind {
	case "status":
		return fmt.Sprintf("WriteHeader(%d)", o.code)
	case "write":
		if o.cut > 0 {
			return fmt.Sprintf("Write(%q, of which %d are taken)", o.data, o.cut-1)
		}
		return fmt.Sprintf("Write(%q)", o.data)
	case "copy":
		return fmt.Sprintf("io.Copy(%q)", o.data)
	case "header":
		return fmt.Sprintf("Header.Set(%s,%s)", o.key, o.data)
	case "before":
		return fmt.Sprintf("Before(set %s=%s, status %d)", o.key, o.data, o.hookCode)
	}
	return o.kind
}

func genOps(t *rapid.T, n int) (ops []wop) {
	hooks := 0
	if h.Pct(t, 2, "many") {
		n *= 10
		hooks = rapid.IntRange(0, 2*n).Draw(t, "hooks first")
	}
	for i := rapid.IntRange(0, n).Draw(t, "ops") + hooks; i > 0; i-- {
		o := wop{kind: "before"}
		if hooks--; hooks < 0 {
			o.kind = h.Pick(t, "op", "status", "write", "flush", "header", "before", "status", "write", "flush", "header", "before", "hijack", "copy")
		}
		switch o.kind {
		case "status":
			o.code = h.Pick(t, "code", 200, 201, 202, 301, 400, 404, 418, 500, 503, 599)
		case "write":
			o.data = rapid.StringN(0, 6, 12).Draw(t, "data")
			if h.Pct(t, 2, "large") {
				o.data = h.Text(h.Size(t, "size", 1<<18))
			}
			if h.Pct(t, 5, "cut") {
				o.cut = rapid.IntRange(0, len(o.data)).Draw(t, "taken") + 1
			}
		case "copy":
			o.data = rapid.StringN(1, 6, 12).Draw(t, "data")
			if h.Pct(t, 2, "large") {
				o.data = h.Text(1 + h.Size(t, "size", 1<<18))
			}
		case "header":
			o.key, o.data = h.Pick(t, "key", "X-A", "X-B", "X-C"), rapid.StringMatching(`[a-z]{1,3}`).Draw(t, "val")
		case "before":
			o.key, o.data = h.Pick(t, "key", "X-A", "X-B", "X-H"), rapid.StringMatching(`[A-Z]{1,3}`).Draw(t, "val")
			if h.Pct(t, 15, "hook sets status") {
				o.hookCode = h.Pick(t, "hook code", 203, 409)
				o.hookIf = h.Pct(t, 50, "if none is set")
			}
		}
		ops = append(ops, o)
	}
	return
}

// hookNote tells that a hook ran and how it found the response.
func hookNote(o wop, status int, written bool) string {
	return fmt.Sprintf("%s=%s(%d %v)", o.key, o.data, status, written)
}

func (o wop) taken() int {
	if o.cut > 0 {
		return o.cut - 1
	}
	return len(o.data)
}

var errCut = errors.New("connection is cut")

// conn is the connection below the writer: it refuses to be taken over, and
// takes only a part of some writes.
type conn struct {
	*h.Recorder
	cut *int
}

func (r conn) Hijack() (net.Conn, *bufio.ReadWriter, error) { return nil, nil, errCut }

func (r conn) Write(b []byte) (int, error) {
	if n := *r.cut; n > 0 {
		*r.cut = 0
		n, _ := r.Recorder.Write(b[:n-1])
		return n, errCut
	}
	return r.Recorder.Write(b)
}

// taken is a connection that lets itself be taken over.
type taken struct{ *h.Recorder }

func (taken) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	a, b := net.Pipe()
	b.Close()
	return a, bufio.NewReadWriter(bufio.NewReader(a), bufio.NewWriter(a)), nil
}

// wmodel is the reference writer.
type wmodel struct {
	status    int
	committed bool
	headers   map[string]string
	sent      map[string]string
	body      bytes.Buffer
	hooks     []wop
	hookTrace []string
	flushes   int
}

func (m *wmodel) commit() {
	if m.committed {
		return
	}
	for i := len(m.hooks) - 1; i >= 0; i-- {
		o := m.hooks[i]
		m.headers[o.key] = o.data
		m.hookTrace = append(m.hookTrace, hookNote(o, m.status, m.status != 0))
		if o.hookCode != 0 && (m.status == 0 || !o.hookIf) {
			m.status = o.hookCode
		}
	}
	if m.status == 0 {
		m.status = 200
	}
	m.committed = true
	m.sent = map[string]string{}
	for k, v := range m.headers {
		m.sent[k] = v
	}
}

func (m *wmodel) apply(o wop) {
	switch o.kind {
	case "status":
		if !m.committed {
			m.status = o.code
		}
	case "write":
		m.commit()
		m.body.WriteString(o.data[:o.taken()])
	case "copy":
		m.commit()
		m.body.WriteString(o.data)
	case "flush":
		m.commit()
		m.flushes++
	case "header":
		m.headers[o.key] = o.data
	case "before":
		m.hooks = append(m.hooks, o)
	}
}

// drive performs ops on rw, checking the writer's own account after each.
func drive(t fataler, rw strip.ResponseWriter, m *wmodel, ops []wop, hookTrace *[]string, cut *int) {
	for i, o := range ops {
		o := o
		switch o.kind {
		case "status":
			rw.WriteHeader(o.code)
		case "write":
			if cut != nil {
				*cut = o.cut
			} else {
				o.cut = 0
			}
			n, err := rw.Write([]byte(o.data))
			if n != o.taken() || (err != nil) != (o.cut > 0) {
				t.Fatalf("%v: step %d: Write returned %d, %v", ops, i, n, err)
			}
		case "copy":
			if cut != nil {
				*cut = 0
			}
			if n, err := io.Copy(rw, struct{ io.Reader }{strings.NewReader(o.data)}); n != int64(len(o.data)) || err != nil {
				t.Fatalf("%v: step %d: io.Copy returned %d, %v", ops, i, n, err)
			}
		case "flush":
			rw.Flush()
		case "hijack":
			if cut != nil {
				if c, _, err := rw.Hijack(); err == nil || c != nil {
					t.Fatalf("%v: step %d: Hijack reports success", ops, i)
				}
			}
		case "header":
			rw.Header().Set(o.key, o.data)
		case "before":
			rw.Before(func(w strip.ResponseWriter) {
				*hookTrace = append(*hookTrace, hookNote(o, w.Status(), w.Written()))
				w.Header().Set(o.key, o.data)
				if o.hookCode != 0 && (w.Status() == 0 || !o.hookIf) {
					w.WriteHeader(o.hookCode)
				}
			})
		}
		m.apply(o)
		if rw.Status() != m.status || rw.Written() != (m.status != 0) || rw.Size() != m.body.Len() {
			t.Fatalf("%v: after step %d the writer says status %d written %v size %d; want %d %v %d", ops, i,
				rw.Status(), rw.Written(), rw.Size(), m.status, m.status != 0, m.body.Len())
		}
	}
}

type fataler interface {
	Fatalf(string, ...interface{})
}

func TestH01(t *testing.T) {
	h.Check(t, h.Spec{ID: "H01", Quick: 15000, Thorough: 300000,
		Rule: "0-8 writer operations in a filter and 0-8 in the handler, after 0-2 earlier requests of their own to the same application, some of which end with the connection taken over (among them failing takeovers of the connection and writes of which only a part is taken), compared after every step and at the client with a reference writer. Non-trivial: at least one operation came after the headers went out and a hook was registered before."},
		func(c *h.C) {
			opsF, opsH := genOps(c.T, 5), genOps(c.T, 8)
			m := &wmodel{headers: map[string]string{}}
			var hooks []string
			cut := 0
			sp, _ := h.App()
			var last strip.ResponseWriter
			sp.Filter(func(ctx strip.Context, w http.ResponseWriter, r *http.Request) {
				if r.URL.Path != "/" {
					ctx.Next()
					return
				}
				last = w.(strip.ResponseWriter)
				drive(c, last, m, opsF, &hooks, &cut)
				if !ctx.Written() {
					ctx.Next()
				}
			})
			ranHandler := false
			var earlier []wop
			ranEarlier := 0
			handler := func(w http.ResponseWriter) {
				ranHandler = true
				drive(c, w.(strip.ResponseWriter), m, opsH, &hooks, &cut)
			}
			// what becomes of a response does not hang on the method asked with
			method := h.Pick(c.T, "method", "GET", "GET", "HEAD", "POST")
			sp.Routers(strip.Router("/earlier", strip.Get(func(w http.ResponseWriter) {
				ranEarlier++
				m, cut, no := &wmodel{headers: map[string]string{}}, 0, []string{}
				for i, o := range earlier {
					if o.kind == "hijack" {
						if _, _, err := w.(http.Hijacker).Hijack(); err != nil {
							c.Fatalf("Hijack: %v", err)
						}
						return
					}
					o.cut = 0
					drive(c, w.(strip.ResponseWriter), m, earlier[i:i+1], &no, &cut)
				}
			})), strip.Get(handler), strip.Post(handler))
			// what went on before is another response: nothing of it is seen
			var past []string
			for i := rapid.IntRange(0, 2).Draw(c.T, "earlier requests"); i > 0; i-- {
				earlier = genOps(c.T, 4)
				for i := range earlier {
					earlier[i].cut = 0
				}
				past = append(past, fmt.Sprint(earlier))
				sp.ServeHTTP(taken{h.NewRecorder()}, h.Req("GET", "/earlier"))
			}
			if ranEarlier != len(past) {
				c.Fatalf("of %d earlier requests %d were handled", len(past), ranEarlier)
			}
			if len(past) > 0 {
				c.Label("earlier requests")
			}
			rec := h.NewRecorder()
			if canHijack := h.Pct(c.T, 70, "hijackable"); canHijack {
				sp.ServeHTTP(conn{rec, &cut}, h.Req(method, "/"))
			} else {
				for _, ops := range [][]wop{opsF, opsH} {
					for i := range ops {
						ops[i].cut = 0
					}
				}
				sp.ServeHTTP(rec, h.Req(method, "/"))
			}
			ops := opsF
			if ranHandler {
				ops = append(append([]wop{}, opsF...), opsH...)
			}
			late := m.committed
			m.commit()
			if rec.Commits != 1 || len(rec.Late) > 0 {
				c.Fatalf("%v: %d status lines, %v", ops, rec.Commits, rec.Late)
			}
			if rec.Code != m.status || rec.Body.String() != m.body.String() {
				c.Fatalf("%v: client got %d %q, want %d %q", ops, rec.Code, rec.Body.String(), m.status, m.body.String())
			}
			if last.Status() != m.status || last.Size() != m.body.Len() || !last.Written() {
				c.Fatalf("%v: at the end the writer says %d/%d, want %d/%d", ops, last.Status(), last.Size(), m.status, m.body.Len())
			}
			if fmt.Sprint(hooks) != fmt.Sprint(m.hookTrace) {
				c.Fatalf("%v: hooks ran %v, want %v", ops, hooks, m.hookTrace)
			}
			for _, k := range []string{"X-A", "X-B", "X-C", "X-H"} {
				if rec.Sent.Get(k) != m.sent[k] {
					c.Fatalf("%v: client got %s=%q, want %q", ops, k, rec.Sent.Get(k), m.sent[k])
				}
			}
			if rec.Flushes != m.flushes {
				c.Fatalf("%v: %d flushes, want %d", ops, rec.Flushes, m.flushes)
			}
			c.Label("committed by the handler %v", late)
			if late && len(m.hookTrace) > 0 {
				c.NonTrivial(fmt.Sprint(ops))
			}
		})
	h.Example(t, "H01", "flush sends the status that was set", func(t *testing.T) {
		sp, _ := h.App()
		sp.Routers(strip.Get(func(w http.ResponseWriter) {
			w.WriteHeader(404)
			w.(http.Flusher).Flush()
			w.Write([]byte("x"))
			w.WriteHeader(500)
		}))
		rec := h.Do(sp, h.Req("GET", "/"))
		if rec.Code != 404 || rec.Commits != 1 {
			t.Fatalf("status %d, %d status lines", rec.Code, rec.Commits)
		}
	})
}

// The same against a real server and client: what the client receives.
func TestH01_wire(t *testing.T) {
	var ops []wop
	var m *wmodel
	var hooks []string
	var fail string
	sp, _ := h.App()
	sp.Routers(strip.All(func(w http.ResponseWriter) {
		drive(failTo{&fail}, w.(strip.ResponseWriter), m, ops, &hooks, nil)
	}))
	srv := httptest.NewServer(sp)
	defer srv.Close()
	cl := srv.Client()
	cl.CheckRedirect = func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }
	h.Check(t, h.Spec{ID: "H01", Quick: 600, Thorough: 8000,
		Rule: "0-8 writer operations in a handler behind a real net/http server, compared with what the client received. Non-trivial: the response was flushed or had hooks."},
		func(c *h.C) {
			ops, m, hooks, fail = genOps(c.T, 8), &wmodel{headers: map[string]string{}}, nil, ""
			res, err := cl.Get(srv.URL)
			h.Env(err)
			b, err := io.ReadAll(res.Body)
			res.Body.Close()
			if fail != "" {
				c.Fatalf("%s", fail)
			}
			m.commit()
			if err != nil || res.StatusCode != m.status || string(b) != m.body.String() {
				c.Fatalf("%v: client got %d %q %v, want %d %q", ops, res.StatusCode, b, err, m.status, m.body.String())
			}
			for _, k := range []string{"X-A", "X-B", "X-C", "X-H"} {
				if res.Header.Get(k) != m.sent[k] {
					c.Fatalf("%v: client got %s=%q, want %q", ops, k, res.Header.Get(k), m.sent[k])
				}
			}
			if m.flushes > 0 || len(m.hookTrace) > 0 {
				c.NonTrivial("wire " + fmt.Sprint(ops))
			}
		})
}

type failTo struct{ s *string }

func (f failTo) Fatalf(format string, args ...interface{}) {
	if *f.s == "" {
		*f.s = strings.TrimSpace(fmt.Sprintf(format, args...))
	}
}

// A connection that was taken over belongs to the handler alone.
func TestH01_hijack(t *testing.T) {
	var logged lockedBuffer
	var before, after []wop
	var raw string
	sp, _ := h.App()
	sp.Filter(func(ctx strip.Context) { ctx.Next() })
	sp.Routers(strip.All(func(w http.ResponseWriter) {
		var no []string
		m := &wmodel{headers: map[string]string{}}
		drive(failTo{new(string)}, w.(strip.ResponseWriter), m, before, &no, nil)
		c, buf, err := w.(http.Hijacker).Hijack()
		if err != nil {
			fmt.Fprintf(&logged, "Hijack: %v", err)
			return
		}
		buf.WriteString(raw)
		buf.Flush()
		for _, o := range after {
			if o.kind == "status" {
				w.WriteHeader(o.code)
			} else {
				w.Header().Set(o.key, o.data)
			}
		}
		c.Close()
	}))
	srv := httptest.NewUnstartedServer(sp)
	srv.Config.ErrorLog = log.New(&logged, "", 0)
	srv.Start()
	defer srv.Close()
	h.Check(t, h.Spec{ID: "H01", Quick: 150, Thorough: 2000,
		Rule: "A handler behind a real server sets headers and statuses and hooks, takes over the connection, answers on it by itself and may set more; the client must receive exactly what was written on the connection and the framework must not touch it (net/http logs nothing). Non-trivial: every case."},
		func(c *h.C) {
			before, after = nil, nil
			for _, o := range genOps(c.T, 5) {
				if o.kind != "write" && o.kind != "flush" && o.kind != "copy" {
					before = append(before, o)
				}
			}
			for _, o := range genOps(c.T, 4) {
				if o.kind == "status" || o.kind == "header" {
					after = append(after, o)
				}
			}
			body := rapid.StringMatching(`[a-z]{0,20}`).Draw(c.T, "body")
			raw = fmt.Sprintf("HTTP/1.1 299 Raw\r\nContent-Length: %d\r\n\r\n%s", len(body), body)
			cn, err := net.Dial("tcp", srv.Listener.Addr().String())
			h.Env(err)
			defer cn.Close()
			fmt.Fprintf(cn, "GET / HTTP/1.1\r\nHost: h\r\n\r\n")
			got, err := io.ReadAll(cn)
			if err != nil || string(got) != raw {
				c.Fatalf("%v, Hijack, %v: the client got %q %v, not %q", before, after, got, err, raw)
			}
			if l := logged.String(); l != "" {
				c.Fatalf("%v, Hijack, %v: the server logs %s", before, after, l)
			}
			c.NonTrivial(fmt.Sprint("hijack ", before, after, raw))
		})
}

type lockedBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuffer) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}

func (l *lockedBuffer) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}
