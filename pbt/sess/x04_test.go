package sess

import (
	"fmt"
	"net/http/httptest"
	"strings"
	"testing"
	"time"

	"github.com/wujiu2020/strip/caches"
	"github.com/wujiu2020/strip/sessions"
	"pgregory.net/rapid"

	"verif/pbt/internal/fake"
	"verif/pbt/internal/h"
)

// raw is the store below the sessions.
func (w *world) raw() caches.CacheProvider {
	var p caches.CacheProvider
	var err error
	switch w.kind {
	case "redis", "memcached":
		p, err = w.e.Cache(w.kind, "sess:", false)
	default:
		p, err = caches.NewMgoProvider(caches.MgoConfig{KeyField: "_id", ValueField: "value", ExpiredAtField: "expiredAt", AutoExpire: w.auto, Connect: w.e.Connect("sess")})
	}
	h.Env(err)
	return p
}

// TestX04 runs histories of requests while the store fails now and then.
func TestX04(t *testing.T) {
	e, err := fake.Start()
	h.Env(err)
	h.Check(t, h.Spec{ID: "X04", Quick: 3500, Thorough: 70000, Steps: 30,
		Rule: "The histories of X02, in which generated operations meet store failures: an error or a broken connection, before or after the store did what it was asked, at a generated command of the operation. The operation must report an error and the session kept under each client's id must be one the failure can have left; what could not be saved must be saved by the next flush. Non-trivial: a failure happened and saved data was read afterwards.",
	}, func(c *h.C) {
		w := newWorld(c, e)
		acts := w.actions()
		plan := func(t *rapid.T, kinds []fake.Fault) {
			if rapid.IntRange(0, 2).Draw(t, "failing store") > 0 {
				return
			}
			w.planned = true
			if w.kind == "mongo" && rapid.Bool().Draw(t, "in the connection function") {
				n := rapid.IntRange(0, 3).Draw(t, "at call")
				w.inConn = append(make([]int, n), rapid.IntRange(1, 2).Draw(t, "before or after"))
				w.faults.Plan(nil)
				w.note("(connection function call %d fails, kind %d)", n, w.inConn[n])
				return
			}
			p := map[int]fake.Fault{}
			at := rapid.SampledFrom([]int{0, 1, 0, 2, 1, 0, 3}).Draw(t, "at command")
			p[at] = rapid.SampledFrom(kinds).Draw(t, "fault")
			if rapid.IntRange(0, 3).Draw(t, "again") == 0 {
				p[at+1] = rapid.SampledFrom(kinds).Draw(t, "next fault")
			}
			w.note("(store commands fail: %v)", p)
			w.faults.Plan(p)
		}
		kinds := []fake.Fault{fake.ErrBefore, fake.ErrAfter, fake.CutBefore, fake.CutAfter}
		if w.kind == "mongo" {
			kinds = kinds[:2] // the driver takes half a second to leave a broken connection
		}
		for _, name := range []string{"start", "flush", "flush2", "touch", "destroy", "logout", "regenerate"} {
			act := acts[name]
			acts[name] = func(t *rapid.T) {
				plan(t, kinds)
				act(t)
				w.planned = false
				w.faults.Plan(nil)
				w.inConn = nil
			}
		}
		acts["damage"] = func(t *rapid.T) {
			// what is stored cannot be read for a while
			i := rapid.IntRange(0, len(w.jar)-1).Draw(t, "client")
			k := w.jar[i]
			sid, _, ok := w.holder(k)
			if !ok {
				return
			}
			n0 := w.e.Now()
			ps := w.possible(sid, n0, n0.Add(2*time.Second))
			if len(ps) != 1 || ps[0] == nil {
				return
			}
			raw := w.raw()
			was, err := raw.Get(sid)
			h.Env(err)
			b := append([]byte{}, was.Bytes()...)
			bad := b
			switch rapid.IntRange(0, 3).Draw(t, "damage") {
			case 0:
				bad = b[:len(b)-1]
			case 1:
				bad = []byte("{}")
			case 2:
				bad = append([]byte{0, 0, 0, 0}, b...)
			case 3:
				bad = b[:rapid.IntRange(0, len(b)-1).Draw(t, "cut at")]
			}
			w.note("client %d's session becomes %q", i, bad)
			h.Env(raw.Set(sid, bad, w.cfg.SessionExpire))
			var s sessions.SessionStore
			if p := h.Try(func() { s, _, err = w.m.Start(w.cc, httptest.NewRecorder(), w.request(k)) }); p != nil {
				w.fail("Start panicked: %v", p)
			}
			if err == nil {
				w.fail("Start with a session that cannot be read gives %v", vals(s.Values()))
			}
			n0 = w.e.Now()
			h.Env(raw.Set(sid, b, w.cfg.SessionExpire))
			w.store[sid] = []*rec{w.fresh0(n0, w.e.Now(), ps[0])}
			w.start(i, k, true, "Start with the session as it was")
		}
		acts["recover"] = func(t *rapid.T) {
			// everything that is still open is saved or destroyed now
			for i, o := range w.objs {
				w.note("object %d again", i)
				if o.closed {
					err := o.s.Destroy()
					if err != nil && !missed(err) {
						w.fail("Destroy, with the store working: %v", err)
					}
					w.gone(o.s.Sid(), true)
					o.v = vals{}
					continue
				}
				w.flush(o)
				if o.dirty {
					w.fail("Flush, with the store working, fails")
				}
			}
		}
		c.Repeat(acts)
		acts["recover"](c.T)
		w.finish()
		c.Label("%s", w.kind)
		if w.after > 0 {
			c.NonTrivial(fmt.Sprint(w.kind, "\n", strings.Join(w.log, "\n")))
		}
	})
}
