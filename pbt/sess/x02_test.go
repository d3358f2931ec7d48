package sess

import (
	"encoding/base64"
	"fmt"
	"io"
	"log"
	"net/http"
	"net/http/httptest"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/wujiu2020/strip/sessions"
	"pgregory.net/rapid"

	"verif/pbt/internal/fake"
	"verif/pbt/internal/h"
)

func sessionKeys() *rapid.Generator[string] {
	return rapid.SampledFrom([]string{"a", "b", "uid", "é", "a.b", "$set", ""})
}

// actions are the steps both session checks share.
func (w *world) actions() map[string]func(*rapid.T) {
	c := w.c
	client := func() int { return rapid.IntRange(0, len(w.jar)-1).Draw(c.T, "client") }
	open := func() *object {
		if len(w.objs) == 0 {
			return nil
		}
		return w.objs[rapid.IntRange(0, len(w.objs)-1).Draw(c.T, "object")]
	}
	keep := func(o *object) {
		if o == nil {
			return
		}
		w.objs = append(w.objs, o)
		if len(w.objs) > 4 {
			w.objs = w.objs[1:]
		}
	}
	mine := func(i int) (*http.Cookie, bool) {
		k := w.jar[i]
		if k == nil {
			return nil, false
		}
		_, _, ok := w.holder(k)
		// a cookie past its time is no longer honoured
		if _, at, signed := sessions.DecodeSecureValue(k.Value, w.cfg.SecretKey); !signed {
			w.fail("client %d holds a cookie that does not decode: %v", i, k)
		} else if left := time.Duration(w.cfg.SessionExpire)*time.Second - time.Since(at); left > 2*time.Second && !ok {
			w.fail("client %d's cookie is not honoured though it has %v left", i, left)
		} else if left < -2*time.Second && ok {
			w.fail("client %d's cookie is honoured %v after its end", i, -left)
		}
		return k, ok
	}
	return map[string]func(*rapid.T){
		"start": func(t *rapid.T) {
			i := client()
			k, live := mine(i)
			what := fmt.Sprintf("Start for client %d", i)
			if k == nil {
				what += " (no cookie)"
			} else if !live {
				what += " (old cookie)"
			}
			w.note("%s", what)
			keep(w.start(i, k, live, what))
		},
		"work": func(t *rapid.T) {
			// a whole request that stores something
			i := client()
			k, live := mine(i)
			what := fmt.Sprintf("Start for client %d", i)
			w.note("%s", what)
			o := w.start(i, k, live, what)
			if o == nil {
				return
			}
			for n := rapid.IntRange(1, 2).Draw(t, "values"); n > 0; n-- {
				k, v := sessionKeys().Draw(t, "key"), anyValue().Draw(t, "value")
				w.note("client %d (%s): Set(%q, %#v)", o.client, o.s.Sid(), k, v)
				o.s.Set(k, own(v))
				o.v[k] = v
				o.dirty = true
			}
			w.check(o, "Set")
			w.flush(o)
			if rapid.Bool().Draw(t, "goes on") {
				keep(o)
			}
		},
		"stranger": func(t *rapid.T) {
			// somebody without a right to any session
			i := client()
			k := w.jar[i]
			forge := rapid.SampledFrom([]string{"none", "empty", "garbage", "unsigned", "altered", "other-secret", "other-name", "expired"}).Draw(t, "forgery")
			var bad *http.Cookie
			sid := "AAAAAAAAAAAAAAAAAAAA"
			if k != nil {
				if s, _, ok := w.holder(k); ok {
					sid = s
				}
			}
			switch forge {
			case "empty":
				bad = &http.Cookie{Name: w.cc.CookieName}
			case "garbage":
				bad = &http.Cookie{Name: w.cc.CookieName, Value: rapid.StringMatching(`[A-Za-z0-9_%=-]{0,60}`).Draw(t, "value")}
			case "unsigned":
				bad = &http.Cookie{Name: w.cc.CookieName, Value: rapid.SampledFrom([]string{sid, base64.URLEncoding.EncodeToString([]byte(fmt.Sprintf("%s,%d,", sid, time.Now().UnixNano())))}).Draw(t, "value")}
			case "altered":
				if k == nil {
					return
				}
				p := rapid.IntRange(0, len(k.Value)-1).Draw(t, "at")
				v := k.Value[:p] + rapid.SampledFrom([]string{"", "A", "z", "0"}).Draw(t, "to") + k.Value[p+1:]
				if v == k.Value {
					return
				}
				bad = &http.Cookie{Name: w.cc.CookieName, Value: v}
			case "other-secret":
				v, _ := sessions.EncodeSecureValue(sid, w.cfg.SecretKey+"x", time.Now())
				bad = &http.Cookie{Name: w.cc.CookieName, Value: v}
			case "other-name":
				if k == nil {
					return
				}
				bad = &http.Cookie{Name: w.cc.CookieName + "x", Value: k.Value}
			case "expired":
				v, _ := sessions.EncodeSecureValue(sid, w.cfg.SecretKey, time.Now().Add(-time.Duration(w.cfg.SessionExpire+1)*time.Second))
				bad = &http.Cookie{Name: w.cc.CookieName, Value: v}
			}
			what := fmt.Sprintf("Start for a stranger (%s cookie, from client %d's)", forge, i)
			w.note("%s", what)
			old := w.jar[i]
			w.start(i, bad, false, what)
			w.jar[i] = old
		},
		"set": func(t *rapid.T) {
			// also in a destroyed one, which stays destroyed
			o := open()
			if o == nil {
				return
			}
			k, v := sessionKeys().Draw(t, "key"), anyValue().Draw(t, "value")
			w.note("client %d (%s): Set(%q, %#v)", o.client, o.s.Sid(), k, v)
			o.s.Set(k, own(v))
			o.v[k] = v
			o.dirty = !o.closed
			w.check(o, "Set")
		},
		"fill": func(t *rapid.T) {
			// many values or a large one
			o := open()
			if o == nil || o.closed || rapid.IntRange(0, 3).Draw(t, "really") > 0 {
				return
			}
			n, size := 1, 40
			if rapid.Bool().Draw(t, "many") {
				n = rapid.IntRange(10, 70).Draw(t, "values")
			} else {
				size = 40 + h.Size(t, "size", 70000)
			}
			w.note("client %d (%s): Set of %d texts of %d bytes", o.client, o.s.Sid(), n, size)
			for i := 0; i < n; i++ {
				k := fmt.Sprintf("k%d", i)
				o.v[k] = h.Text(size)
				o.s.Set(k, o.v[k])
			}
			o.dirty = true
			w.check(o, "Set")
			w.flush(o)
		},
		"change": func(t *rapid.T) {
			// take a value out, change it and put it back
			o := open()
			if o == nil || o.closed || len(o.v) == 0 {
				return
			}
			var ks []string
			for k := range o.v {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			k := rapid.SampledFrom(ks).Draw(t, "changed key")
			n := rapid.IntRange(0, 99).Draw(t, "new part")
			v := o.s.Get(k).Value()
			switch x := v.(type) {
			case map[string]interface{}:
				x["n"] = n
			case []interface{}:
				if len(x) == 0 {
					return
				}
				x[0] = n
			case []string:
				x[0] = fmt.Sprint(n)
			case []int:
				x[0] = n
			case []byte:
				if len(x) == 0 {
					return
				}
				x[0] = byte(n)
			case string:
				if d, err := strconv.Atoi(x); err != nil {
					v = []byte(x)
				} else {
					v = d
				}
			case int, int64, bool:
				v = fmt.Sprint(x)
			default:
				return
			}
			w.note("client %d (%s): %q becomes %#v in place", o.client, o.s.Sid(), k, v)
			o.s.Set(k, v)
			o.v[k] = own(v)
			o.dirty = true
			w.check(o, "Set")
			if h.Pct(t, 60, "and saved") {
				w.flush(o)
			}
		},
		"settings": func(t *rapid.T) {
			// what Config returns is the caller's
			cfg := w.prov.Config()
			cfg.SecretKey += "x"
			cfg.SessionExpire = 1
			if cfg := w.prov.Config(); cfg.SecretKey != w.cfg.SecretKey || cfg.SessionExpire != w.cfg.SessionExpire {
				w.fail("after changing what Config returned it returns %+v", *cfg)
			}
		},
		"unset": func(t *rapid.T) {
			o := open()
			if o == nil || o.closed {
				return
			}
			k := sessionKeys().Draw(t, "key")
			w.note("client %d: Delete(%q)", o.client, k)
			o.s.Delete(k)
			delete(o.v, k)
			o.dirty = true
			w.check(o, "Delete")
		},
		"clean": func(t *rapid.T) {
			o := open()
			if o == nil || o.closed || rapid.IntRange(0, 2).Draw(t, "really") > 0 {
				return
			}
			w.note("client %d: Clean()", o.client)
			o.s.Clean()
			o.v = vals{}
			o.dirty = true
			w.check(o, "Clean")
		},
		"flush": func(t *rapid.T) {
			if o := open(); o != nil {
				w.flush(o)
			}
		},
		"flush2": func(t *rapid.T) {
			if o := open(); o != nil {
				w.flush(o)
			}
		},
		"touch": func(t *rapid.T) {
			o := open()
			if o == nil || o.closed {
				return
			}
			sid := o.s.Sid()
			w.note("client %d: Touch()", o.client)
			n0 := w.e.Now()
			err, faulted := w.try("Touch", false, o.s.Touch)
			n1 := w.e.Now()
			there := true
			some := false
			for _, p := range w.possible(sid, n0, n1) {
				there = there && p != nil
				some = some || p != nil
			}
			if err == nil && !some {
				w.fail("Touch of a session that is not stored succeeds")
			}
			if err != nil && !faulted && there {
				w.fail("Touch: %v", err)
			}
			if err == nil {
				for j, r := range w.store[sid] {
					if r != nil && !n0.After(r.hi) {
						w.store[sid][j] = w.fresh0(n0, n1, r.v)
					}
				}
			} else if faulted {
				// it may have been extended
				for _, r := range w.store[sid] {
					if r != nil && !n0.After(r.hi) {
						x := w.fresh0(n0, n1, r.v)
						if x.hi.After(r.hi) {
							r.hi = x.hi
						}
					}
				}
			}
		},
		"destroy": func(t *rapid.T) {
			o := open()
			if o == nil || rapid.IntRange(0, 1).Draw(t, "really") > 0 {
				return
			}
			sid := o.s.Sid()
			w.note("client %d: Destroy()", o.client)
			err, faulted := w.try("Destroy", false, o.s.Destroy)
			if err != nil && !faulted && !missed(err) {
				w.fail("Destroy: %v", err)
			}
			o.closed, o.v, o.dirty = true, vals{}, false
			w.gone(sid, err == nil || (!faulted && missed(err)))
			if len(o.s.Values()) != 0 {
				w.fail("a destroyed session still holds %v", vals(o.s.Values()))
			}
		},
		"logout": func(t *rapid.T) {
			i := client()
			k, live := mine(i)
			if !live {
				return
			}
			sid, _, _ := w.holder(k)
			w.note("the manager destroys client %d's session", i)
			rw := httptest.NewRecorder()
			err, faulted := w.try("SessionManager.Destroy", true, func() error { return w.m.Destroy(w.cc, rw, w.request(k)) })
			if err != nil && !faulted {
				w.fail("SessionManager.Destroy: %v", err)
			}
			w.apply(i, rw, "SessionManager.Destroy")
			if w.jar[i] != nil {
				w.fail("SessionManager.Destroy does not clear the cookie: %v", rw.Header())
			}
			w.gone(sid, !faulted)
			for _, o := range w.objs {
				// objects of requests still running could save it again
				if o.s.Sid() == sid {
					o.closed = true
				}
			}
			var left []*object
			for _, o := range w.objs {
				if o.s.Sid() != sid {
					left = append(left, o)
				}
			}
			w.objs = left
			if !faulted {
				// the old cookie finds nothing
				w.start(i, k, true, "Start with the cookie of a destroyed session")
				w.jar[i] = nil
			}
		},
		"regenerate": func(t *rapid.T) {
			i := client()
			k, live := mine(i)
			r := w.request(k)
			rw := httptest.NewRecorder()
			var params []map[string]interface{}
			with := vals{}
			switch rapid.IntRange(0, 2).Draw(t, "params") {
			case 1:
				params = []map[string]interface{}{nil}
			case 2:
				with["from"] = "params"
				params = []map[string]interface{}{map[string]interface{}(with.clone())}
			}
			old := ""
			if live {
				old, _, _ = w.holder(k)
			}
			what := fmt.Sprintf("Regenerate for client %d (params %v)", i, params)
			w.note("%s", what)
			var s sessions.SessionStore
			var created time.Time
			n0 := w.e.Now()
			err, faulted := w.try(what, false, func() (err error) {
				s, created, err = w.m.Regenerate(w.cc, rw, r, params...)
				return
			})
			n1 := w.e.Now()
			set := w.apply(i, rw, what)
			// requests still running with the old session are left out: they
			// could save it again
			var left []*object
			for _, o := range w.objs {
				if o.s.Sid() != old {
					left = append(left, o)
				}
			}
			w.objs = left
			if err != nil && !faulted {
				w.fail("%s: %v", what, err)
			}
			ps := w.possible(old, n0, n1)
			if err != nil {
				// a failed exchange may leave the client with either id, the
				// data must be under the one it holds
				if set != nil {
					sid, _, ok := w.holder(set)
					if !ok || sid == "" {
						w.fail("%s fails and sets an unreadable cookie", what)
					}
					if sid != old {
						w.isNew(sid, what)
						var rs []*rec
						for _, p := range ps {
							if p == nil {
								rs = append(rs, nil)
							} else {
								rs = append(rs, w.fresh0(n0, n1, p))
							}
						}
						w.store[sid] = rs
						w.gone(old, false)
					}
				}
				return
			}
			if s == nil {
				w.fail("%s gives no session", what)
			}
			w.isNew(s.Sid(), what)
			if set == nil || set.MaxAge < 0 {
				w.fail("%s sets no cookie", what)
			}
			sid, at, ok := w.holder(set)
			if !ok || sid != s.Sid() || !at.Equal(created) {
				w.fail("%s: the cookie names %q of %v, the session is %q of %v", what, sid, at, s.Sid(), created)
			}
			got := s.Values()
			o := &object{s: s, client: i}
			hit, none := false, false
			var rs []*rec
			for _, p := range ps {
				if p == nil {
					// nothing was saved: a new session with the given values
					if same(got, with) && !none {
						o.v = with.clone()
						o.dirty = len(params) > 0
						hit, none = true, true
						rs = append(rs, nil)
					}
				} else if same(got, p) {
					hit = true
					o.v = p.clone()
					rs = append(rs, w.fresh0(n0, n1, p))
				}
			}
			if none && len(rs) > 1 {
				// it looks like what was saved and like a new one
				s.Set("x", 1)
				s.Delete("x")
				o.dirty = true
			}
			if len(rs) > 1 || !none {
				w.store[sid] = rs
			}
			if !hit {
				w.fail("%s: the session holds %v; saved was %v, given %v", what, vals(got), ps, with)
			}
			w.check(o, what)
			w.gone(old, true)
			for _, p := range params {
				if p != nil {
					// the caller's map is the caller's
					s.Set("x", 1)
					if _, has := p["x"]; has {
						w.fail("%s: the session uses the caller's map", what)
					}
					s.Delete("x")
					o.dirty = true
				}
			}
			if live {
				w.start(i, &http.Cookie{Name: k.Name, Value: k.Value}, true, "Start with the cookie from before "+what)
			}
			again, _, err := w.m.Start(w.cc, httptest.NewRecorder(), r)
			if err != nil || again.Sid() != s.Sid() {
				w.fail("Start after Regenerate in the same request: %v, %v", again, err)
			}
			keep(o)
		},
		"end": func(t *rapid.T) {
			// a request ends
			if len(w.objs) > 0 {
				w.objs = w.objs[1:]
			}
		},
	}
}

// finish reads every client's session a last time.
func (w *world) finish() {
	for i, k := range w.jar {
		if k == nil {
			continue
		}
		if _, _, ok := w.holder(k); ok {
			w.note("finally, Start for client %d", i)
			w.start(i, k, true, fmt.Sprintf("the final Start for client %d", i))
		}
	}
}

// age makes a cookie older.
func (w *world) age(k *http.Cookie, d time.Duration) *http.Cookie {
	if k == nil {
		return nil
	}
	sid, at, ok := sessions.DecodeSecureValue(k.Value, w.cfg.SecretKey)
	if !ok {
		return k
	}
	v, ok := sessions.EncodeSecureValue(sid, w.cfg.SecretKey, at.Add(-d))
	if !ok {
		return nil
	}
	return &http.Cookie{Name: k.Name, Value: v}
}

// TestX02 runs histories of requests.
func TestX02(t *testing.T) {
	e, err := fake.Start()
	h.Env(err)
	h.Check(t, h.Spec{ID: "X02", Quick: 3000, Thorough: 60000, Steps: 30,
		Rule: "One to four clients and strangers with forged, altered, foreign and expired cookies make requests to one session manager over a store of a generated kind; sessions are started, set, deleted, cleaned, flushed, touched, destroyed and regenerated in any order, with overlapping session objects, and time passes. Every Start must return exactly what the model of saved sessions holds under the client's id. Non-trivial: a start found saved data and a new session was made.",
	}, func(c *h.C) {
		w := newWorld(c, e)
		acts := w.actions()
		acts["gc"] = func(t *rapid.T) {
			by := "the provider"
			if rapid.Bool().Draw(t, "manager") {
				by = "the manager"
			}
			w.note("%s collects garbage", by)
			n0 := w.e.Now()
			if by == "the manager" {
				w.m.GC(time.Hour)
			} else if err := w.prov.GC(); err != nil {
				w.fail("GC: %v", err)
			}
			n1 := w.e.Now()
			e.Mongo.Sweep()
			if w.kind != "mongo" {
				return
			}
			lo, hi := 0, 0
			for sid := range w.store {
				all, some := true, false
				for _, p := range w.possible(sid, n0, n1) {
					all, some = all && p != nil, some || p != nil
				}
				if all {
					lo++
				}
				if some {
					hi++
				}
			}
			for _, until := range w.empty {
				if n0.Before(until) {
					hi++
				}
			}
			if w.auto {
				// the server itself keeps sessions for a minute, and expired ones are not deleted again
				since := n0.Add(-62 * time.Second)
				hi = 0
				for sid, until := range w.until {
					if since.Before(until) || since.Before(w.empty[sid]) {
						hi++
					}
				}
				for sid, until := range w.empty {
					if _, too := w.until[sid]; !too && since.Before(until) {
						hi++
					}
				}
			}
			if n := e.Mongo.Len("db.sess"); n < lo || n > hi {
				w.fail("after the collection by %s %d sessions are kept, %d to %d are alive", by, n, lo, hi)
			}
		}
		acts["time"] = func(t *rapid.T) {
			half := time.Duration(w.cfg.SessionExpire) * time.Second / 2
			d := rapid.SampledFrom([]time.Duration{time.Second, half / 2, half, half + 10*time.Second, 2*half + 10*time.Second}).Draw(t, "pass")
			w.note("%v pass", d)
			w.moved = true
			w.e.Advance(d)
			for i := range w.jar {
				w.jar[i] = w.age(w.jar[i], d)
			}
		}
		c.Repeat(acts)
		w.finish()
		c.Label("%s", w.kind)
		if w.met > 0 && w.fresh > 0 {
			c.NonTrivial(w.kind + "\n" + strings.Join(w.log, "\n"))
		}
	})
}

// TestX02_ids looks at the ids of new sessions.
func TestX02_ids(t *testing.T) {
	h.Check(t, h.Spec{ID: "X02", Quick: 4, Thorough: 60,
		Rule: "A manager starts and regenerates some hundred sessions; the ids must be new, as long as the other ones, and end in five characters nobody can know from the ones before: all of them vary, and hardly two ends are alike. Non-trivial: always.",
	}, func(c *h.C) {
		m := sessions.NewSessionManager(nowhere{sessions.Config{SecretKey: "s", SessionExpire: 100}})
		cc := &sessions.CookieConfig{CookieName: "sid"}
		n := rapid.IntRange(300, 500).Draw(c.T, "sessions")
		seen, ends := map[string]bool{}, map[string]bool{}
		at := [5]map[byte]bool{}
		for i := range at {
			at[i] = map[byte]bool{}
		}
		for i := 0; i < n; i++ {
			var s sessions.SessionStore
			var err error
			if i%2 == 0 {
				s, _, err = m.Start(cc, httptest.NewRecorder(), request())
			} else {
				s, _, err = m.Regenerate(cc, httptest.NewRecorder(), request())
			}
			if err != nil {
				c.Fatalf("Start or Regenerate: %v", err)
			}
			sid := s.Sid()
			if len(sid) < 16 || seen[sid] {
				c.Fatalf("session %d has the id %q (seen before: %v)", i, sid, seen[sid])
			}
			seen[sid] = true
			end := sid[len(sid)-5:]
			ends[end] = true
			for j := range at {
				at[j][end[j]] = true
			}
		}
		if len(ends) < n-5 {
			c.Fatalf("%d ids have only %d different ends", n, len(ends))
		}
		for j := range at {
			if len(at[j]) < 12 {
				c.Fatalf("of %d ids the character %d from the end takes only %d values", n, 5-j, len(at[j]))
			}
		}
		c.Label("ids")
		c.NonTrivial(fmt.Sprint(n))
	})
}

// counting is a provider that counts its collections.
type counting struct {
	nowhere
	n   *int32
	err error
}

func (p counting) GC() error {
	atomic.AddInt32(p.n, 1)
	return p.err
}

// TestX02_gc starts the collection of managers.
func TestX02_gc(t *testing.T) {
	log.SetOutput(io.Discard)
	h.Check(t, h.Spec{ID: "X02", Quick: 40, Thorough: 300,
		Rule: "A manager's collection is started with intervals below a minute (or above): it must run at once, whether it fails or not, and not again within the first milliseconds. Non-trivial: always.",
	}, func(c *h.C) {
		n := new(int32)
		p := counting{nowhere{sessions.Config{SecretKey: "s"}}, n, nil}
		if h.Pct(c.T, 30, "fails") {
			p.err = fmt.Errorf("no store")
		}
		d := h.Pick(c.T, "interval", 0, time.Nanosecond, time.Microsecond, time.Millisecond, time.Minute, time.Hour)
		sessions.NewSessionManager(p).GC(d)
		if k := atomic.LoadInt32(n); k != 1 {
			c.Fatalf("GC(%v) has run %d collections", d, k)
		}
		time.Sleep(5 * time.Millisecond)
		if k := atomic.LoadInt32(n); k != 1 {
			c.Fatalf("GC(%v) has run %d collections within 5 ms", d, k)
		}
		c.Label("gc")
		c.NonTrivial(fmt.Sprint(d))
	})
}

// TestX02_apart has clients work at the same time on one manager.
func TestX02_apart(t *testing.T) {
	e, err := fake.Start()
	h.Env(err)
	h.Check(t, h.Spec{ID: "X02", Quick: 60, Thorough: 1500,
		Rule: "Two to six clients run generated series of requests concurrently over one manager; each must see exactly its own values. Non-trivial: all.",
	}, func(c *h.C) {
		w := newWorld(c, e)
		n := rapid.IntRange(2, 6).Draw(c.T, "at once")
		plans := make([][]int, n)
		for i := range plans {
			plans[i] = rapid.SliceOfN(rapid.IntRange(0, 9), 1, 8).Draw(c.T, "plan")
		}
		errs := make([]string, n)
		sids := make([]map[string]bool, n)
		var wg sync.WaitGroup
		for i := range plans {
			wg.Add(1)
			sids[i] = map[string]bool{}
			go func(i int) {
				defer wg.Done()
				p := h.Try(func() {
					var jar *http.Cookie
					want := vals{}
					for step, x := range plans[i] {
						r := w.request(jar)
						rw := httptest.NewRecorder()
						s, _, err := w.m.Start(w.cc, rw, r)
						if err != nil {
							errs[i] = fmt.Sprintf("Start: %v", err)
							return
						}
						sids[i][s.Sid()] = true
						if !same(s.Values(), want) {
							errs[i] = fmt.Sprintf("the session holds %v, not %v", vals(s.Values()), want)
							return
						}
						if x == 9 && step > 0 {
							if s, _, err = w.m.Regenerate(w.cc, rw, r); err != nil {
								errs[i] = fmt.Sprintf("Regenerate: %v", err)
								return
							}
							sids[i][s.Sid()] = true
						}
						k := fmt.Sprintf("k%d", x%4)
						v := fmt.Sprintf("client %d step %d", i, step)
						s.Set(k, v)
						want[k] = v
						if err := s.Flush(); err != nil {
							errs[i] = fmt.Sprintf("Flush: %v", err)
							return
						}
						for _, k := range cookies(rw) {
							jar = &http.Cookie{Name: k.Name, Value: k.Value}
						}
					}
				})
				if p != nil {
					errs[i] = fmt.Sprintf("panic: %v", p)
				}
			}(i)
		}
		wg.Wait()
		seen := map[string]int{}
		for i := range plans {
			if errs[i] != "" {
				c.Fatalf("%s, client %d of %d working at once (%v): %s", w.kind, i, n, plans, errs[i])
			}
			for s := range sids[i] {
				if j, ok := seen[s]; ok {
					c.Fatalf("%s: clients %d and %d both have the id %s", w.kind, i, j, s)
				}
				seen[s] = i
			}
		}
		c.NonTrivial(fmt.Sprint(w.kind, plans))
	})
}

// TestX02_dummy drives the store that keeps nothing.
func TestX02_dummy(t *testing.T) {
	h.Check(t, h.Spec{ID: "X02", Quick: 500, Thorough: 10000, Steps: 15,
		Rule: "The dummy session store as a map, over generated sets, deletes, cleans, flushes and a destroy. Non-trivial: two or more operations.",
	}, func(c *h.C) {
		var s sessions.SessionStore
		init := vals{}
		if rapid.Bool().Draw(c.T, "initial values") {
			init["a"] = 1
			s = sessions.NewDummySessionStore("id", map[string]interface{}{"a": 1})
		} else {
			s = sessions.NewDummySessionStore("id", nil)
		}
		w := &world{c: c, kind: "dummy"}
		o := &object{s: s, v: init}
		n := 0
		c.Repeat(map[string]func(*rapid.T){
			"": func(t *rapid.T) {
				if s.Sid() != "id" {
					w.fail("Sid() = %q", s.Sid())
				}
				w.check(o, "the dummy store")
			},
			"set": func(t *rapid.T) {
				k, v := sessionKeys().Draw(t, "key"), anyValue().Draw(t, "value")
				w.note("Set(%q, %#v)", k, v)
				s.Set(k, v)
				o.v[k] = v
				n++
			},
			"fill": func(t *rapid.T) {
				m, size := rapid.IntRange(10, 70).Draw(t, "values"), 40+h.Size(t, "size", 5000)
				w.note("Set of %d texts of %d bytes", m, size)
				for i := 0; i < m; i++ {
					k := fmt.Sprintf("k%d", i)
					o.v[k] = h.Text(size)
					s.Set(k, o.v[k])
				}
				n++
			},
			"delete": func(t *rapid.T) {
				k := sessionKeys().Draw(t, "key")
				w.note("Delete(%q)", k)
				s.Delete(k)
				delete(o.v, k)
				n++
			},
			"clean": func(t *rapid.T) {
				w.note("Clean()")
				s.Clean()
				o.v = vals{}
				n++
			},
			"flush": func(t *rapid.T) {
				w.note("Flush(), Touch()")
				if s.Flush() != nil || s.Touch() != nil {
					w.fail("Flush or Touch fails")
				}
			},
			"destroy": func(t *rapid.T) {
				if rapid.IntRange(0, 3).Draw(t, "really") > 0 {
					return
				}
				w.note("Destroy()")
				if s.Destroy() != nil {
					w.fail("Destroy fails")
				}
				o.v = vals{}
			},
		})
		if n >= 2 {
			c.NonTrivial("dummy\n" + strings.Join(w.log, "\n"))
		}
	})
}
