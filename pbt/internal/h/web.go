package h

import (
	"bytes"
	"fmt"
	"io"
	"log"
	"net/http"
	"sync"

	"github.com/wujiu2020/strip"
)

// Sink is a log output that keeps what was written, record by record.
type Sink struct {
	mu   sync.Mutex
	recs []string
}

func (s *Sink) Write(b []byte) (int, error) {
	s.mu.Lock()
	s.recs = append(s.recs, string(b))
	s.mu.Unlock()
	return len(b), nil
}

// Take returns the records written so far and forgets them.
func (s *Sink) Take() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	r := s.recs
	s.recs = nil
	return r
}

// App is a fresh application whose log goes to the returned sink.
func App() (*strip.Strip, *Sink) {
	sp := strip.New()
	s := new(Sink)
	sp.SetLogger(strip.NewLogger(log.New(s, "", 0)))
	return sp, s
}

// Recorder is the client end of a response: it notes every call that reaches
// the server's own writer.
type Recorder struct {
	H       http.Header // live header map
	Sent    http.Header // headers at the moment they went out
	Code    int
	Commits int // number of WriteHeader calls
	Body    bytes.Buffer
	Flushes int
	Flushed int      // bytes of the body sent on by the last Flush
	Late    []string // protocol misuse
}

func NewRecorder() *Recorder { return &Recorder{H: http.Header{}} }

func (r *Recorder) Header() http.Header { return r.H }

func (r *Recorder) WriteHeader(code int) {
	r.Commits++
	if r.Sent != nil {
		r.Late = append(r.Late, fmt.Sprintf("WriteHeader(%d) after the headers went out", code))
		return
	}
	r.Code = code
	r.Sent = r.H.Clone()
	if r.Sent == nil {
		r.Sent = http.Header{}
	}
}

func (r *Recorder) Write(b []byte) (int, error) {
	if r.Sent == nil {
		// net/http commits an implicit 200
		r.Late = append(r.Late, "body without WriteHeader")
		r.WriteHeader(200)
	}
	return r.Body.Write(b)
}

func (r *Recorder) Flush() {
	if r.Sent == nil {
		r.WriteHeader(200)
	}
	r.Flushes++
	r.Flushed = r.Body.Len()
}

func (r *Recorder) CloseNotify() <-chan bool { return make(chan bool) }

// Req makes a server-side request whose URL path is exactly p.
func Req(method, p string) *http.Request {
	req, err := http.NewRequest("GET", "http://example.com/", nil)
	if err != nil {
		panic(err)
	}
	req.Method = method
	req.URL.Path = p
	req.RequestURI = ""
	req.RemoteAddr = "192.0.2.1:1234"
	return req
}

// Body attaches a request body.
func Body(req *http.Request, ctype string, b []byte) *http.Request {
	req.Body = io.NopCloser(bytes.NewReader(b))
	req.ContentLength = int64(len(b))
	req.Header.Set("Content-Type", ctype)
	return req
}

// Do serves one request.
func Do(sp http.Handler, req *http.Request) *Recorder {
	r := NewRecorder()
	sp.ServeHTTP(r, req)
	return r
}
