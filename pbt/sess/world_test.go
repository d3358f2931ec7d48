package sess

import (
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/globalsign/mgo"
	"github.com/wujiu2020/strip/caches"
	"github.com/wujiu2020/strip/sessions"
	"pgregory.net/rapid"

	"verif/pbt/internal/fake"
	"verif/pbt/internal/h"
)

type vals map[string]interface{}

func (v vals) clone() vals {
	o := vals{}
	for k, x := range v {
		o[k] = x
	}
	return o
}

// own is a copy of a value that shares nothing with it.
func own(v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		o := map[string]interface{}{}
		for k, y := range x {
			o[k] = own(y)
		}
		return o
	case []interface{}:
		return append([]interface{}{}, x...)
	case []string:
		return append([]string{}, x...)
	case []int:
		return append([]int{}, x...)
	case []byte:
		return append([]byte{}, x...)
	}
	return v
}

func (v vals) String() string {
	ks := make([]string, 0, len(v))
	for k, x := range v {
		ks = append(ks, fmt.Sprintf("%q: %#v", k, x))
	}
	sort.Strings(ks)
	return "{" + strings.Join(ks, ", ") + "}"
}

// plain is a value the way it may come back from a store: whole numbers are
// of some integer type, moments have milliseconds.
func plain(v interface{}) interface{} {
	switch x := v.(type) {
	case time.Time:
		return x.UnixNano() / 1e6
	case []byte:
		return "bytes " + string(x)
	case nil:
		return nil
	}
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return r.Int()
	case reflect.Slice:
		var o []interface{}
		for i := 0; i < r.Len(); i++ {
			o = append(o, plain(r.Index(i).Interface()))
		}
		return fmt.Sprintf("%v", o)
	case reflect.Map:
		o := map[string]interface{}{}
		for _, k := range r.MapKeys() {
			o[k.String()] = plain(r.MapIndex(k).Interface())
		}
		return fmt.Sprintf("%v", o)
	}
	return v
}

func same(a, b map[string]interface{}) bool {
	if len(a) != len(b) {
		return false
	}
	for k, x := range a {
		y, ok := b[k]
		if !ok || !reflect.DeepEqual(plain(x), plain(y)) {
			return false
		}
	}
	return true
}

func anyValue() *rapid.Generator[interface{}] {
	return rapid.OneOf(
		rapid.Map(rapid.SampledFrom([]string{"", "v", "é", "a|b,c", "long long text"}), func(s string) interface{} { return s }),
		rapid.Map(rapid.String(), func(s string) interface{} { return s }),
		rapid.Map(rapid.Int(), func(n int) interface{} { return n }),
		rapid.Map(rapid.IntRange(-3, 300), func(n int) interface{} { return n }),
		rapid.Map(rapid.Int64(), func(n int64) interface{} { return n }),
		rapid.Map(rapid.Bool(), func(b bool) interface{} { return b }),
		rapid.Map(rapid.Float64Range(-1e9, 1e9), func(f float64) interface{} { return f }),
		rapid.Map(rapid.SliceOfN(rapid.Byte(), 0, 20), func(b []byte) interface{} { return b }),
		rapid.SampledFrom([]interface{}{nil, []string{"a", "b"}, []int{1, 2}, map[string]interface{}{"x": "y"}, time.Unix(1700000000, 123456789)}),
	)
}

// rec is what a store may hold for an id, or nil for nothing.
type rec struct {
	v      vals
	lo, hi time.Time // it ends between these
}

// object is a session object in use, with the map it should be.
type object struct {
	s      sessions.SessionStore
	v      vals
	dirty  bool
	closed bool
	client int
}

type world struct {
	c      *h.C
	e      *fake.Env
	kind   string
	auto   bool
	cfg    sessions.Config
	cc     *sessions.CookieConfig
	prov   sessions.SessionProvider
	m      *sessions.SessionManager
	faults *fake.Faults
	inConn []int // faults of the MongoDB connection function to come: 1 before, 2 after
	fired  int

	jar     []*http.Cookie // per client
	store   map[string][]*rec
	ids     map[string]bool
	empty   map[string]time.Time // ids which may have empty records, and until when
	until   map[string]time.Time // ids which had records, and until when
	objs    []*object
	log     []string
	planned bool
	alike   bool // requests have cookies of similar names

	met, fresh, failed, after int
	moved                     bool
}

var errConn = errors.New("injected connection fault")

func newWorld(c *h.C, e *fake.Env) *world {
	e.Reset()
	w := &world{c: c, e: e, store: map[string][]*rec{}, ids: map[string]bool{}, empty: map[string]time.Time{}, until: map[string]time.Time{}}
	w.kind = rapid.SampledFrom(fake.Kinds).Draw(c.T, "backend")
	w.faults = e.Faults(w.kind)
	w.cfg = sessions.Config{SecretKey: rapid.StringMatching(`[a-z]{1,20}`).Draw(c.T, "secret"), SessionExpire: rapid.SampledFrom([]int{45, 120, 3600, 40 * 86400}).Draw(c.T, "session expire")}
	w.cc = &sessions.CookieConfig{
		CookieName:   rapid.SampledFrom([]string{"sid", "SESSION", "s"}).Draw(c.T, "cookie name"),
		CookieSecure: rapid.Bool().Draw(c.T, "secure"),
		CookieDomain: rapid.SampledFrom([]string{"", "example.com"}).Draw(c.T, "domain"),
		CookieExpire: rapid.SampledFrom([]int{-1, 0, 60, 86400}).Draw(c.T, "cookie expire"),
	}
	var err error
	switch w.kind {
	case "redis":
		w.prov, err = sessions.NewRedisProvider(sessions.RedisConfig{Config: w.cfg, KeyPrefix: "sess:", Client: e.Pool})
	case "memcached":
		w.prov, err = sessions.NewMcProvider(sessions.McConfig{Config: w.cfg, KeyPrefix: "sess:", Client: e.Client})
	default:
		e.Sess.ResetIndexCache()
		connect := e.Connect("sess")
		w.auto = rapid.Bool().Draw(c.T, "auto expire")
		w.prov, err = sessions.NewMgoProvider(sessions.MgoConfig{Config: w.cfg, AutoExpire: w.auto,
			Connect: func(f func(*mgo.Collection) error) error {
				x := 0
				if len(w.inConn) > 0 {
					x, w.inConn = w.inConn[0], w.inConn[1:]
				}
				if x == 1 {
					w.fired++
					return errConn
				}
				err := connect(f)
				if x == 2 {
					w.fired++
					return errConn
				}
				return err
			}})
	}
	h.Env(err)
	w.m = sessions.NewSessionManager(w.prov)
	w.alike = rapid.Bool().Draw(c.T, "cookies of similar names")
	w.jar = make([]*http.Cookie, rapid.IntRange(1, 4).Draw(c.T, "clients"))
	return w
}

func (w *world) note(format string, a ...interface{}) {
	w.log = append(w.log, fmt.Sprintf(format, a...))
	for sid, rs := range w.store {
		for _, r := range rs {
			if r != nil && w.until[sid].Before(r.hi) {
				w.until[sid] = r.hi
			}
		}
	}
}

func (w *world) fail(format string, a ...interface{}) {
	w.c.Fatalf("%s, %+v, after\n  %s\n%s", w.kind, w.cfg, strings.Join(w.log, "\n  "), fmt.Sprintf(format, a...))
}

// try runs an operation, returning its error; a panic is a failure. A fault
// that happened inside must come back as an error.
func (w *world) try(what string, quiet bool, f func() error) (err error, faulted bool) {
	w.fired = 0
	h.Within(what, func() {
		if p := h.Try(func() { err = f() }); p != nil {
			w.fail("%s panicked: %v", what, p)
		}
	})
	n := w.fired
	if w.planned {
		n += len(w.faults.Fired())
		if n > 0 {
			w.note("  (store commands: %q)", w.faults.Log())
		}
		w.faults.Plan(nil)
		w.inConn = nil
		w.planned = false
	}
	if n > 0 {
		w.failed++
		w.note("  (the store failed inside %s: error %v)", what, err)
		if err == nil && !quiet {
			w.fail("%s reports success although the store failed", what)
		}
	}
	return err, n > 0
}

// unique reports whether all possible contents agree.
func (w *world) possible(sid string, now0, now1 time.Time) []vals {
	rs := w.store[sid]
	if len(rs) == 0 {
		return []vals{nil}
	}
	var out []vals
	for _, r := range rs {
		switch {
		case r == nil || now0.After(r.hi):
			out = append(out, nil)
		case now1.Before(r.lo):
			out = append(out, r.v)
		default:
			out = append(out, nil, r.v)
		}
	}
	return out
}

func (w *world) fresh0(t0, t1 time.Time, v vals) *rec {
	d := time.Duration(w.cfg.SessionExpire) * time.Second
	return &rec{v.clone(), t0.Add(d - 1100*time.Millisecond), t1.Add(d + 1100*time.Millisecond)}
}

// request makes a request of a client; with its own cookie or a replaced one.
func (w *world) request(cookie *http.Cookie) *http.Request {
	cs := []*http.Cookie{{Name: "other", Value: "x"}}
	if cookie != nil {
		cs = append(cs, cookie)
	}
	if w.alike {
		// names of cookies are case sensitive
		for _, name := range []string{strings.ToUpper(w.cc.CookieName), strings.ToLower(w.cc.CookieName), w.cc.CookieName + "x", "_" + w.cc.CookieName} {
			if name != w.cc.CookieName {
				cs = append(cs, &http.Cookie{Name: name, Value: "x"})
			}
		}
		// many of other applications
		for i := 0; i < 70; i++ {
			cs = append(cs, &http.Cookie{Name: fmt.Sprintf("app%d", i), Value: "x"})
		}
	}
	return request(cs...)
}

// apply puts what the response sets into the client's jar, and returns it.
func (w *world) apply(client int, rw *httptest.ResponseRecorder, what string) *http.Cookie {
	cs := cookies(rw)
	if len(cs) == 0 {
		return nil
	}
	k := cs[len(cs)-1]
	for _, x := range cs {
		if x.Name != w.cc.CookieName {
			w.fail("%s sets a cookie of another name: %v", what, x)
		}
	}
	if k.MaxAge < 0 {
		if k.Path != "/" || k.Domain != w.cc.CookieDomain || k.Secure != w.cc.CookieSecure {
			w.fail("%s clears another cookie (%v)", what, rw.Header())
		}
		w.jar[client] = nil
		return k
	}
	w.attributes(k, what)
	w.jar[client] = &http.Cookie{Name: k.Name, Value: k.Value}
	return k
}

func (w *world) attributes(k *http.Cookie, what string) {
	age := w.cc.CookieExpire
	if age < 0 {
		age = 0
	}
	if k.Path != "/" || !k.HttpOnly || k.Secure != w.cc.CookieSecure || k.Domain != w.cc.CookieDomain || k.MaxAge != age || k.Value == "" {
		w.fail("%s with cookie settings %+v sets the cookie %v", what, *w.cc, k)
	}
}

// holder reads the id and time of a client's cookie.
func (w *world) holder(k *http.Cookie) (sid string, at time.Time, ok bool) {
	if k == nil {
		return
	}
	return w.m.ReadSidFromRequest(w.request(k), w.cc.CookieName)
}

// check compares an object with its model.
func (w *world) check(o *object, what string) {
	got := o.s.Values()
	if !same(got, o.v) {
		w.fail("%s: the session holds %v, not %v", what, vals(got), o.v)
	}
	for k, x := range o.v {
		if !o.s.Has(k) || !reflect.DeepEqual(plain(o.s.Get(k).Value()), plain(x)) {
			w.fail("%s: Get(%q) = %#v (Has %v), not %#v", what, k, o.s.Get(k).Value(), o.s.Has(k), x)
		}
		if s, ok := x.(string); ok && o.s.Get(k).String() != s {
			w.fail("%s: Get(%q).String() = %q, not %q", what, k, o.s.Get(k).String(), s)
		}
	}
	if o.s.Has("no such key") || o.s.Get("no such key").Value() != nil {
		w.fail("%s: a key that was never set is present", what)
	}
	// what Values returns is a copy
	got["no such key"] = 1
	if o.s.Has("no such key") {
		w.fail("%s: changing the map Values returns changes the session", what)
	}
}

// isNew registers an id that must be new.
func (w *world) isNew(sid, what string) {
	if sid == "" || w.ids[sid] {
		w.fail("%s gives the id %q again", what, sid)
	}
	w.ids[sid] = true
}

// start starts a session for a client with the given cookie (nil: none; live:
// the cookie should be honoured).
func (w *world) start(client int, cookie *http.Cookie, live bool, what string) *object {
	r := w.request(cookie)
	rw := httptest.NewRecorder()
	sid, at, _ := "", time.Time{}, false
	if live {
		var ok bool
		sid, at, ok = w.holder(cookie)
		if !ok {
			w.fail("%s: the client's cookie is not read", what)
		}
	}
	var s sessions.SessionStore
	var created time.Time
	t0 := time.Now()
	n0 := w.e.Now()
	err, faulted := w.try(what, false, func() (err error) {
		s, created, err = w.m.Start(w.cc, rw, r)
		return
	})
	n1 := w.e.Now()
	t1 := time.Now()
	set := w.apply(client, rw, what)
	if err != nil {
		if !faulted {
			w.fail("%s: %v", what, err)
		}
		return nil
	}
	if s == nil {
		w.fail("%s gives no session", what)
	}
	o := &object{s: s, client: client}
	if !live {
		w.fresh++
		w.isNew(s.Sid(), what)
		if set == nil || set.MaxAge < 0 {
			w.fail("%s sets no cookie", what)
		}
		got, gotAt, ok := w.holder(set)
		if !ok || got != s.Sid() {
			w.fail("%s sets a cookie for id %q (%v), the session is %q", what, got, ok, s.Sid())
		}
		if created.Before(t0) || created.After(t1) || !gotAt.Equal(created) {
			w.fail("%s: created at %v, the cookie says %v, now is %v", what, created, gotAt, t1)
		}
		o.v = vals{}
		w.check(o, what)
		// a second start in the same request sees the new cookie
		again, _, err := w.m.Start(w.cc, httptest.NewRecorder(), r)
		if err != nil || again.Sid() != s.Sid() {
			w.fail("a second Start in the same request: %v, %v", again, err)
		}
		return o
	}
	if set != nil {
		w.fail("%s sets a cookie although the client has one: %v", what, set)
	}
	if s.Sid() != sid {
		w.fail("%s gives the id %q, the client's is %q", what, s.Sid(), sid)
	}
	if !created.Equal(at) {
		w.fail("%s: created at %v, the cookie says %v", what, created, at)
	}
	// the contents are one of those possible
	got := s.Values()
	ps := w.possible(sid, n0, n1)
	hit := false
	for i, p := range ps {
		if same(got, p) {
			hit = true
			o.v = p.clone()
			if len(ps) > 1 {
				// now it is known; a record and an empty one look alike
				var keep []*rec
				for j, q := range ps {
					if same(got, q) && j < len(w.store[sid]) {
						keep = append(keep, w.store[sid][j])
					}
				}
				if len(ps) == len(w.store[sid]) {
					w.store[sid] = keep
				}
			}
			_ = i
			break
		}
	}
	if !hit {
		w.fail("%s: the session holds %v, saved was %v", what, vals(got), ps)
	}
	if len(ps) == 1 && ps[0] != nil && w.moved {
		w.met++
	}
	if len(got) > 0 {
		w.met++
		if w.failed > 0 {
			w.after++
		}
	}
	w.check(o, what)
	return o
}

// flush saves an object.
func (w *world) flush(o *object) {
	what := fmt.Sprintf("Flush of client %d's session", o.client)
	w.note("%s %v", what, o.v)
	n0 := w.e.Now()
	err, faulted := w.try(what, false, o.s.Flush)
	n1 := w.e.Now()
	if err != nil && !faulted {
		w.fail("%s: %v", what, err)
	}
	if o.closed || !o.dirty {
		// an empty session may be kept, or nothing
		w.empty[o.s.Sid()] = n1.Add(time.Duration(w.cfg.SessionExpire+63) * time.Second)
		return
	}
	sid := o.s.Sid()
	r := w.fresh0(n0, n1, o.v)
	if err == nil {
		o.dirty = false
		w.store[sid] = []*rec{r}
		return
	}
	old := w.store[sid]
	if len(old) == 0 {
		old = []*rec{nil}
	}
	w.store[sid] = append(append([]*rec(nil), old...), r)
}

func missed(err error) bool { return err == caches.ErrMissedKey || err == sessions.ErrNotFoundSession }

// gone says that an id was deleted, or may have been.
func (w *world) gone(sid string, surely bool) {
	if surely {
		delete(w.store, sid)
		return
	}
	if len(w.store[sid]) > 0 {
		w.store[sid] = append(append([]*rec(nil), w.store[sid]...), nil)
	}
}
