package stat

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/wujiu2020/strip"
	static "github.com/wujiu2020/strip/static-serve"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
)

const secret = "SECRET OUTSIDE OF THE DIRECTORY"

var modTime = time.Date(2021, 3, 4, 5, 6, 7, 0, time.UTC)

// tree is a directory: path (below the root, beginning with a slash) to
// content; directories are nil.
type tree map[string][]byte

type site struct {
	base  string // scratch, holds the root and what must not be seen
	root  string
	files tree
	opt   static.StaticOption
	pre   string // prefix as configured

	relative bool                 // the root is configured relative to the working directory
	times    map[string]time.Time // of files that are not of modTime
}

func (s *site) String() string {
	var fs []string
	for _, k := range h.Keys(s.files) {
		if s.files[k] == nil {
			fs = append(fs, k+"/")
		} else {
			fs = append(fs, fmt.Sprintf("%s(%d)", k, len(s.files[k])))
		}
	}
	return fmt.Sprintf("prefix %q %+v tree %q", s.pre, s.opt, fs)
}

var dirNames = []string{"d", "e", "..x", "s p", "p", "root"}
var fileNames = []string{"index.html", "index.html", "a.txt", "b", "é.txt", "x y", "..hidden", "a%2fb", "c.html", "%2e%2e", "q?r", "#f", "secret.txt"}

func genSite(t *rapid.T) *site {
	base, err := os.MkdirTemp("", "static")
	h.Env(err)
	s := &site{base: base, root: filepath.Join(base, "root"), files: tree{"/": nil}}
	for _, d := range []string{"root", "rootX", "other"} {
		h.Env(os.MkdirAll(filepath.Join(base, d), 0o755))
	}
	for _, f := range []string{"secret.txt", "index.html", "rootX/secret.txt", "rootX/index.html", "other/a.txt", "root.txt"} {
		h.Env(os.WriteFile(filepath.Join(base, f), []byte(secret+" "+f), 0o644))
	}
	dirs := []string{"/"}
	for n := rapid.IntRange(0, 4).Draw(t, "dirs"); n > 0; n-- {
		d := path.Join(rapid.SampledFrom(dirs).Draw(t, "in"), h.Pick(t, "dir", dirNames...))
		if _, ok := s.files[d]; !ok {
			h.Env(os.Mkdir(filepath.Join(s.root, d), 0o755))
			s.files[d] = nil
			dirs = append(dirs, d)
		}
	}
	if h.Pct(t, 6, "a directory called index.html") {
		d := path.Join(rapid.SampledFrom(dirs).Draw(t, "in"), "index.html")
		h.Env(os.Mkdir(filepath.Join(s.root, d), 0o755))
		s.files[d] = nil
	}
	for n := rapid.IntRange(1, 7).Draw(t, "files"); n > 0; n-- {
		f := path.Join(rapid.SampledFrom(dirs).Draw(t, "in"), h.Pick(t, "file", fileNames...))
		if _, ok := s.files[f]; ok {
			continue
		}
		b := []byte("<" + f + ">")
		if h.Pct(t, 20, "binary") {
			b = append(b, rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(t, "content")...)
		}
		if h.Pct(t, 10, "big") {
			b = bytes.Repeat(append(b, '\n'), 3000)
		}
		if h.Pct(t, 1, "very big") {
			b = bytes.Repeat(append(b, '\n'), rapid.IntRange(1<<20, 5<<18).Draw(t, "size")/(len(b)+1)+1)
		}
		if h.Pct(t, 8, "empty") {
			b = []byte{}
		}
		p := filepath.Join(s.root, f)
		h.Env(os.WriteFile(p, b, 0o644))
		h.Env(os.Chtimes(p, modTime, modTime))
		s.files[f] = b
	}
	s.pre = h.Pick(t, "prefix", "", "", "/", "/p", "p", "/p/", "/a/b", "/root", "/d", "/p//", "p///", "//")
	s.relative = h.Pct(t, 10, "relative directory")
	s.opt.AnyMethod = h.Pct(t, 30, "any method")
	if h.Pct(t, 40, "fallback") {
		s.opt.TryFilesThen = h.Pick(t, "fallback file", "/index.html", "index.html", "/a.txt", "/d/index.html", "/nosuch")
		if c, ok := s.files[path.Clean("/"+s.opt.TryFilesThen)]; ok && c == nil {
			s.opt.TryFilesThen = "/nosuch"
		}
	}
	for n := rapid.IntRange(-2, 2).Draw(t, "skips"); n > 0; n-- {
		s.opt.SkipPrefix = append(s.opt.SkipPrefix, h.Pick(t, "skip", "/d", "/a", "/e/", "/index.html", "/x y", "/../"))
	}
	return s
}

func (s *site) app() *strip.Strip {
	sp, _ := h.App()
	if s.relative {
		// the directory is that of the time the filter was made
		old, err := os.Getwd()
		h.Env(err)
		h.Env(os.Chdir(s.base))
		sp.Filter(static.ServeFilter(s.pre, "./root/", s.opt))
		h.Env(os.Chdir(old))
	} else {
		sp.Filter(static.ServeFilter(s.pre, s.root, s.opt))
	}
	sp.NotFound(func(rw http.ResponseWriter) {
		rw.WriteHeader(299)
		rw.Write([]byte("NEXT"))
	})
	return sp
}

func (s *site) prefix() string {
	p := strings.Trim(s.pre, "/")
	if p == "" {
		return ""
	}
	return "/" + p
}

// want is the answer the rules ask for.
type want struct {
	kind    string // next, file, redirect, missing
	content []byte
	name    string // of the file
	time    time.Time
}

func (s *site) time(f string) time.Time {
	if t, ok := s.times[f]; ok {
		return t
	}
	return modTime
}

func (s *site) reference(method, p string) want {
	if !s.opt.AnyMethod && method != "GET" && method != "HEAD" {
		return want{kind: "next"}
	}
	if pre := s.prefix(); pre != "" {
		if !strings.HasPrefix(p, pre) {
			return want{kind: "next"}
		}
		rest := p[len(pre):]
		if rest != "" && rest[0] != '/' {
			return want{kind: "next"}
		}
		p = rest
	}
	for _, skip := range s.opt.SkipPrefix {
		if strings.HasPrefix(p, skip) {
			return want{kind: "next"}
		}
	}
	clean := path.Clean("/" + p)
	content, ok := s.files[clean]
	switch {
	case ok && content != nil:
		return want{"file", content, clean, s.time(clean)}
	case ok:
		if !strings.HasSuffix(p, "/") {
			return want{kind: "redirect"}
		}
		idx := path.Join(clean, "index.html")
		content, ok = s.files[idx]
		if ok && content != nil {
			return want{"file", content, idx, s.time(idx)}
		}
		if ok {
			return want{kind: "no file"}
		}
		return want{kind: "missing"}
	}
	if s.opt.TryFilesThen != "" {
		f := path.Clean("/" + s.opt.TryFilesThen)
		if content, ok := s.files[f]; ok && content != nil {
			return want{"file", content, "", s.time(f)}
		}
	}
	return want{kind: "missing"}
}

// genPath makes a request path, mostly of existing things.
func (s *site) genPath(t *rapid.T, hostile bool) string {
	var b strings.Builder
	if !h.Pct(t, 8, "without prefix") {
		pre := s.prefix()
		if h.Pct(t, 4, "prefix in other case") {
			pre = strings.ToUpper(pre)
		}
		b.WriteString(pre)
	}
	kind := h.Pick(t, "path", "existing", "existing", "existing", "built", "built")
	if hostile {
		kind = h.Pick(t, "path", "existing", "built", "built", "outside", "outside", "outside")
	}
	slash := func() string { return h.Pick(t, "slash", "/", "/", "/", "//", "/./") }
	up := func() string {
		return h.Pick(t, "up", "..", "..", "..", "..", "...", "..\\", "%2e%2e", ".%2e", "..%2f", "..;", ".. ", "..\x00", "..%c0%af", "..%5c", "\\..")
	}
	switch kind {
	case "existing":
		f := rapid.SampledFrom(h.Keys(s.files)).Draw(t, "file")
		for _, seg := range strings.Split(strings.Trim(f, "/"), "/") {
			b.WriteString(slash())
			if h.Pct(t, 8, "detour") {
				b.WriteString("d/../")
			}
			b.WriteString(seg)
		}
		if s.files[f] == nil && h.Pct(t, 60, "trailing slash") {
			b.WriteString(slash())
		}
		if h.Pct(t, 6, "trailing slash anyway") {
			b.WriteString("/")
		}
		if s.prefix() != "" && h.Pct(t, 5, "glued to the prefix") {
			return s.prefix() + strings.TrimLeft(f, "/")
		}
	case "built":
		for n := rapid.IntRange(0, 4).Draw(t, "segments"); n > 0; n-- {
			b.WriteString(slash())
			switch h.Pick(t, "segment", "dir", "file", "word", "up", "nul") {
			case "dir":
				b.WriteString(h.Pick(t, "name", dirNames...))
			case "file":
				b.WriteString(h.Pick(t, "name", fileNames...))
			case "word":
				b.WriteString(h.Pick(t, "word", "zzz", "evil.com", "a:b", "*", "~", "", "CON", "index", "\\evil.com", "é"))
			case "up":
				if hostile {
					b.WriteString(up())
				} else {
					b.WriteString("..")
				}
			case "nul":
				b.WriteString(h.Pick(t, "odd", "\x00", "a.txt\x00", "\xff", "a\nb"))
			}
		}
		if h.Pct(t, 30, "trailing slash") {
			b.WriteString("/")
		}
	case "outside":
		if h.Pct(t, 30, "host like") {
			b.Reset()
			b.WriteString(h.Pick(t, "host", "//evil.com", "/\\evil.com", "///evil.com", "//evil.com:80", "/%2fevil.com", "/\t/evil.com", "\\\\evil.com", "//evil.com/d", "//user@evil.com"))
		}
		for n := rapid.IntRange(0, 2).Draw(t, "down"); n > 0; n-- {
			b.WriteString(slash() + h.Pick(t, "name", dirNames...))
		}
		for n := rapid.IntRange(1, 5).Draw(t, "ups"); n > 0; n-- {
			b.WriteString(slash() + up())
		}
		b.WriteString(h.Pick(t, "target", "", "/", "/secret.txt", "/index.html", "/rootX/secret.txt", "/rootX", "/rootX/", "/other/a.txt", "/root.txt", "/root/../secret.txt", "X/secret.txt", "/d", s.base+"/secret.txt"))
	}
	return b.String()
}

func openFiles() int {
	es, err := os.ReadDir("/proc/self/fd")
	h.Env(err)
	return len(es)
}

// leak checks what no answer may contain or do.
func (s *site) leak(body []byte, loc string) string {
	if bytes.Contains(body, []byte("SECRET")) {
		return fmt.Sprintf("the body shows a file outside: %q", body)
	}
	if loc != "" {
		base, _ := url.Parse("http://self.example/x/y")
		u, err := url.Parse(loc)
		if err != nil {
			return fmt.Sprintf("Location %q: %v", loc, err)
		}
		if r := base.ResolveReference(u); r.Host != "self.example" || r.Scheme != "http" || r.User != nil {
			return fmt.Sprintf("Location %q leads to %q", loc, r.Host)
		}
		// browsers read backslashes as slashes and drop control characters
		b := strings.Map(func(r rune) rune {
			if r < ' ' {
				return -1
			}
			if r == '\\' {
				return '/'
			}
			return r
		}, loc)
		if strings.HasPrefix(strings.TrimSpace(b), "//") {
			return fmt.Sprintf("Location %q leads to another host", loc)
		}
	}
	return ""
}

func TestS01(t *testing.T) {
	h.Check(t, h.Spec{ID: "S01", Quick: 8000, Thorough: 150000,
		Rule: "generated directory trees and options next to files that must not be seen; 1-6 hostile decoded paths with dot segments, encoded and doubled separators, backslashes, NULs and host names each; bodies are searched for the outside files and every redirect is resolved. Non-trivial: a path climbed above the directory or named a host."},
		func(c *h.C) {
			s := genSite(c.T)
			defer os.RemoveAll(s.base)
			sp := s.app()
			for n := rapid.IntRange(1, 6).Draw(c.T, "requests"); n > 0; n-- {
				p := s.genPath(c.T, true)
				q := h.Pick(c.T, "query", "", "", "a=1", "//evil.com")
				method := h.Pick(c.T, "method", "GET", "GET", "HEAD", "POST")
				req := h.Req(method, p)
				req.URL.RawQuery = q
				var rec *h.Recorder
				if x := h.Try(func() { rec = h.Do(sp, req) }); x != nil {
					c.Fatalf("%v: %q: panic %v", s, p, x)
				}
				loc := rec.Sent.Get("Location")
				if f := s.leak(rec.Body.Bytes(), loc); f != "" {
					c.Fatalf("%v: %s %q?%s: %d %s", s, method, p, q, rec.Code, f)
				}
				if rec.Code == 200 && method != "HEAD" {
					known := false
					for _, b := range s.files {
						known = known || b != nil && bytes.Equal(b, rec.Body.Bytes())
					}
					if !known {
						c.Fatalf("%v: %q is answered with %q, no file of the directory", s, p, rec.Body.Bytes())
					}
				}
				climbs := strings.HasPrefix(path.Clean(strings.TrimLeft(strings.TrimPrefix(p, s.prefix()), "/")), "..")
				c.Label("status %d climbs=%v", rec.Code, climbs)
				if climbs || strings.Contains(p, "evil") {
					c.NonTrivial(fmt.Sprintf("%v: %q", s, p))
				}
				if loc != "" && strings.Contains(p, "evil") {
					c.Label("redirect of a host like path")
				}
			}
		})
	h.Example(t, "S01", "redirect stays on the host", func(t *testing.T) {
		dir := t.TempDir()
		sp, _ := h.App()
		sp.Filter(static.ServeFilter("", dir))
		rec := h.Do(sp, h.Req("GET", "//evil.com/.."))
		if l := rec.Sent.Get("Location"); strings.HasPrefix(l, "//") {
			t.Fatalf("Location %q", l)
		}
	})
}

// The same with raw request lines through a real server.
func TestS01_wire(t *testing.T) {
	var mu sync.Mutex
	var cur http.Handler
	srv := httptest.NewUnstartedServer(http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) {
		mu.Lock()
		x := cur
		mu.Unlock()
		x.ServeHTTP(rw, req)
	}))
	srv.Config.ErrorLog = log.New(io.Discard, "", 0)
	srv.Start()
	defer srv.Close()
	var conn net.Conn
	var br *bufio.Reader
	defer func() {
		if conn != nil {
			conn.Close()
		}
	}()
	ask := func(method, target string) (code int, loc string, body []byte, ok bool) {
		for try := 0; try < 2; try++ {
			if conn == nil {
				var err error
				conn, err = net.Dial("tcp", srv.Listener.Addr().String())
				h.Env(err)
				br = bufio.NewReader(conn)
			}
			conn.SetDeadline(time.Now().Add(30 * time.Second))
			fmt.Fprintf(conn, "%s %s HTTP/1.1\r\nHost: self.example\r\n\r\n", method, target)
			res, err := http.ReadResponse(br, &http.Request{Method: method})
			if err == nil {
				body, err = io.ReadAll(res.Body)
				res.Body.Close()
			}
			if err != nil {
				conn.Close()
				conn = nil
				continue
			}
			if res.Close || res.StatusCode == 400 {
				conn.Close()
				conn = nil
			}
			return res.StatusCode, res.Header.Get("Location"), body, true
		}
		return 0, "", nil, false
	}
	h.Check(t, h.Spec{ID: "S01", Quick: 2500, Thorough: 50000,
		Rule: "the same with raw, variously percent-encoded request lines through a real server. Non-trivial: the request line has an encoded dot, slash or backslash."},
		func(c *h.C) {
			s := genSite(c.T)
			defer os.RemoveAll(s.base)
			mu.Lock()
			cur = s.app()
			mu.Unlock()
			for n := rapid.IntRange(1, 4).Draw(c.T, "requests"); n > 0; n-- {
				p := s.genPath(c.T, true)
				var b strings.Builder
				enc := h.Pick(c.T, "encoding", "minimal", "some", "all", "dots", "slashes")
				for i := 0; i < len(p); i++ {
					ch := p[i]
					must := ch <= ' ' || ch >= 0x7f || ch == '#' || ch == '?'
					if ch == '%' && i+2 < len(p) {
						// keep what looks like an escape half of the time
						if _, err := strconv.ParseUint(p[i+1:i+3], 16, 8); err != nil || h.Pct(c.T, 50, "escape the percent") {
							must = true
						}
					} else if ch == '%' {
						must = true
					}
					do := must
					switch enc {
					case "some":
						do = do || i > 0 && h.Pct(c.T, 20, "encode")
					case "all":
						do = do || i > 0
					case "dots":
						do = do || ch == '.'
					case "slashes":
						do = do || i > 0 && (ch == '/' || ch == '\\')
					}
					if do {
						fmt.Fprintf(&b, h.Pick(c.T, "hex", "%%%02x", "%%%02X"), ch)
					} else {
						b.WriteByte(ch)
					}
				}
				target := b.String()
				if target == "" {
					target = "/"
				}
				if h.Pct(c.T, 10, "absolute form") && target[0] == '/' {
					target = "http://evil.com" + target
				}
				code, loc, body, ok := ask(h.Pick(c.T, "method", "GET", "GET", "POST"), target)
				if !ok {
					c.Label("connection closed")
					continue
				}
				if f := s.leak(body, loc); f != "" {
					c.Fatalf("%v: request line %q: %d %s", s, target, code, f)
				}
				c.Label("wire status %d", code)
				l := strings.ToLower(target)
				if strings.Contains(l, "%2e") || strings.Contains(l, "%2f") || strings.Contains(l, "%5c") {
					c.NonTrivial(fmt.Sprintf("%v: %s", s, target))
				}
			}
		})
}

// edit changes what is in the directory now and then.
func (s *site) edit(t *rapid.T) {
	if !h.Pct(t, 20, "edit") {
		return
	}
	var fs []string
	for _, f := range h.Keys(s.files) {
		if s.files[f] != nil {
			fs = append(fs, f)
		}
	}
	if len(fs) == 0 {
		return
	}
	f := rapid.SampledFrom(fs).Draw(t, "edited file")
	if try := path.Clean("/" + s.opt.TryFilesThen); s.files[try] != nil && h.Pct(t, 40, "the fallback") {
		f = try
	}
	p := filepath.Join(s.root, f)
	if h.Pct(t, 30, "removed") {
		h.Env(os.Remove(p))
		delete(s.files, f)
		return
	}
	b := append([]byte{}, s.files[f]...)
	if len(b) == 0 || h.Pct(t, 50, "longer") {
		b = append(b, "<edited>"...)
	} else {
		b[len(b)-1] ^= 1
	}
	h.Env(os.WriteFile(p, b, 0o644))
	at := s.time(f)
	if h.Pct(t, 50, "at another time") {
		at = modTime.Add(time.Duration(rapid.IntRange(-3, 3).Draw(t, "hours")) * time.Hour)
		if s.times == nil {
			s.times = map[string]time.Time{}
		}
		s.times[f] = at
	}
	h.Env(os.Chtimes(p, at, at))
	s.files[f] = b
}

func TestS02(t *testing.T) {
	debug.SetGCPercent(-1)
	defer debug.SetGCPercent(100)
	nr := 0
	h.Check(t, h.Spec{ID: "S02", Quick: 8000, Thorough: 150000,
		Rule: "generated directory trees, prefixes and options; 1-6 requests for existing, missing, skipped and foreign paths with any method, ranges and dates, files being changed and removed in between; status, body, type and redirect compared with the rules, and the number of open files with that before. Non-trivial: a file was served or a redirect sent."},
		func(c *h.C) {
			if nr++; nr%500 == 0 {
				debug.FreeOSMemory()
			}
			s := genSite(c.T)
			defer os.RemoveAll(s.base)
			sp := s.app()
			last := ""
			for n := rapid.IntRange(1, 6).Draw(c.T, "requests"); n > 0; n-- {
				if last == "" || !h.Pct(c.T, 30, "same path again") {
					last = s.genPath(c.T, false)
				}
				p := last
				method := h.Pick(c.T, "method", "GET", "GET", "GET", "GET", "HEAD", "POST", "OPTIONS", "get", "Head", "TRACE", "GE", "HEA", "EAD", "ET", "H", "GETX", "GET,HEAD")
				req := h.Req(method, p)
				req.URL.RawQuery = h.Pick(c.T, "query", "", "", "a=1&b=/x", "//evil.com")
				rng := ""
				if h.Pct(c.T, 10, "range") {
					rng = "bytes=1-3"
					req.Header.Set("Range", rng)
				}
				since := false
				if h.Pct(c.T, 10, "since") {
					since = true
					req.Header.Set("If-Modified-Since", modTime.Format(http.TimeFormat))
				}
				s.edit(c.T)
				w := s.reference(method, p)
				fds := openFiles()
				var rec *h.Recorder
				if x := h.Try(func() { rec = h.Do(sp, req) }); x != nil {
					c.Fatalf("%v: %q: panic %v", s, p, x)
				}
				if after := openFiles(); after != fds {
					c.Fatalf("%v: %s %q left %d files open", s, method, p, after-fds)
				}
				desc := fmt.Sprintf("%v: %s %q?%s range %q since %v: %d %v %q", s, method, p, req.URL.RawQuery, rng, since, rec.Code, rec.Sent, clip(rec.Body.String()))
				body := rec.Body.String()
				switch w.kind {
				case "next":
					if rec.Code != 299 || body != "NEXT" {
						c.Fatalf("%s: should have been left to the next handler", desc)
					}
				case "no file":
					// the index is a directory
					if !(rec.Code == 299 && body == "NEXT" || rec.Code == 404) {
						c.Fatalf("%s: there is no index file", desc)
					}
				case "missing":
					if rec.Code != 404 || strings.Contains(body, "NEXT") {
						c.Fatalf("%s: should be not found", desc)
					}
				case "redirect":
					u, err := url.Parse(rec.Sent.Get("Location"))
					if rec.Code != 302 || err != nil || u.Host != "" || !strings.HasSuffix(u.Path, "/") || path.Clean(u.Path) != path.Clean("/"+p) || u.RawQuery != req.URL.RawQuery {
						c.Fatalf("%s: should redirect to the path with a slash", desc)
					}
				case "file":
					code, exp := 200, string(w.content)
					get := method == "GET" || method == "HEAD"
					switch {
					case since && get && !w.time.After(modTime):
						code, exp = 304, ""
					case rng != "" && len(exp) < 2:
						// an unsatisfiable range
						code = 416
						if rec.Code == 200 && len(exp) == 0 {
							code = 200
						}
					case rng != "":
						code = 206
						if len(exp) > 4 {
							exp = exp[:4]
						}
						exp = exp[1:]
					}
					if rec.Code != code || method != "HEAD" && code != 416 && body != exp || method == "HEAD" && body != "" {
						c.Fatalf("%s: want %d %q", desc, code, clip(exp))
					}
					if code == 200 {
						if l := rec.Sent.Get("Content-Length"); l != strconv.Itoa(len(exp)) {
							c.Fatalf("%s: Content-Length %q, want %d", desc, l, len(exp))
						}
						if lm := rec.Sent.Get("Last-Modified"); lm != w.time.Format(http.TimeFormat) {
							c.Fatalf("%s: Last-Modified %q", desc, lm)
						}
						ct := rec.Sent.Get("Content-Type")
						if x := strings.TrimPrefix(p, s.prefix()); x != w.name && x+"index.html" != w.name {
							continue // a roundabout path may hide the extension
						}
						if strings.HasSuffix(w.name, ".html") && !strings.HasPrefix(ct, "text/html") || strings.HasSuffix(w.name, ".txt") && !strings.HasPrefix(ct, "text/plain") {
							c.Fatalf("%s: Content-Type %q", desc, ct)
						}
					}
				}
				c.Label("%s", w.kind)
				if w.kind == "file" || w.kind == "redirect" {
					c.NonTrivial(fmt.Sprintf("%v: %s %q", s, method, p))
				}
			}
		})
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}
