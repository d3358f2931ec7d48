package sess

import (
	"net/http"
	"net/http/httptest"

	"github.com/wujiu2020/strip/sessions"
)

// nowhere is a provider for what needs no store.
type nowhere struct{ cfg sessions.Config }

func (n nowhere) Create(sid string, params ...map[string]interface{}) (sessions.SessionStore, error) {
	return sessions.NewDummySessionStore(sid, nil), nil
}
func (n nowhere) Read(sid string) (sessions.SessionStore, error) {
	return nil, sessions.ErrNotFoundSession
}
func (n nowhere) Regenerate(a, b string) (sessions.SessionStore, error) {
	return nil, sessions.ErrNotFoundSession
}
func (n nowhere) Destroy(sid string) error { return nil }
func (n nowhere) GC() error                { return nil }
func (n nowhere) Config() *sessions.Config { c := n.cfg; return &c }

// cookies parses what a response sets.
func cookies(w *httptest.ResponseRecorder) []*http.Cookie {
	return (&http.Response{Header: w.Header()}).Cookies()
}

func request(cs ...*http.Cookie) *http.Request {
	r := httptest.NewRequest("GET", "http://example.com/", nil)
	for _, c := range cs {
		r.AddCookie(c)
	}
	return r
}
