package sess

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/wujiu2020/strip/sessions"
	"pgregory.net/rapid"

	"verif/pbt/internal/fake"
	"verif/pbt/internal/h"
)

// visit is one request of a client.
type visit struct {
	kind   string // work, renew, leave, look, remember
	ops    []change
	save   bool
	yields int
	own    bool // with the client's own manager
	gc     bool
}

type change struct {
	op, key string
	value   interface{}
}

func (v visit) String() string {
	s := v.kind
	for _, x := range v.ops {
		s += fmt.Sprintf(" %s(%q, %#v)", x.op, x.key, x.value)
	}
	if v.save {
		s += " flush"
	}
	return s
}

// TestX05 has clients work at the same time, each on its own session.
func TestX05(t *testing.T) {
	e, err := fake.Start()
	h.Env(err)
	h.Check(t, h.Spec{ID: "X05", Quick: 2500, Thorough: 40000,
		Rule: "Two to six clients at once, each with a generated series of requests (new and known sessions, regenerations with initial values shared by all, log-outs, several simultaneous reads of one client, remember-me cookies, collections of garbage) over one session store, through one manager or several; each client must see exactly what it would see alone, ids and cookies must be its own, and no data race may happen. Non-trivial: two clients read back values they had saved.",
	}, func(c *h.C) {
		w := newWorld(c, e)
		n := rapid.IntRange(2, 6).Draw(c.T, "clients at once")
		w.cc.CookieRememberName, w.cc.RememberExpire = "remember", 3600
		shared := map[string]interface{}{"theme": "dark", "n": 1}
		plans := make([][]visit, n)
		initial := make([]bool, n)
		same0 := rapid.Bool().Draw(c.T, "all do the same")
		for i := range plans {
			initial[i] = rapid.Bool().Draw(c.T, "begins with initial values")
			if same0 && i > 0 {
				plans[i] = plans[0]
				continue
			}
			for k := rapid.IntRange(1, 6).Draw(c.T, "requests"); k > 0; k-- {
				v := visit{
					kind:   h.Pick(c.T, "kind", "work", "work", "work", "look", "renew", "leave", "remember"),
					save:   h.Pct(c.T, 80, "save"),
					own:    h.Pct(c.T, 30, "own manager"),
					gc:     h.Pct(c.T, 10, "collects"),
					yields: rapid.IntRange(0, 3).Draw(c.T, "yields"),
				}
				if v.kind == "work" || v.kind == "renew" {
					for m := rapid.IntRange(0, 4).Draw(c.T, "changes"); m > 0; m-- {
						x := change{op: h.Pick(c.T, "change", "set", "set", "set", "mine", "large", "delete", "clean"), key: h.Pick(c.T, "key", "a", "b", "uid", "theme", "é")}
						if x.op == "set" {
							x.value = anyValue().Draw(c.T, "value")
						}
						if x.op == "large" {
							x.value = 100 + h.Size(c.T, "size", 20000)
						}
						v.ops = append(v.ops, x)
					}
				}
				plans[i] = append(plans[i], v)
			}
		}

		errs := make([]string, n)
		ids := make([]map[string]bool, n)
		read := make([]int, n)
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for i := range plans {
			wg.Add(1)
			ids[i] = map[string]bool{}
			go func(i int) {
				defer wg.Done()
				<-gate
				if p := h.Try(func() { errs[i] = w.client(i, plans[i], initial[i], shared, ids[i], &read[i]) }); p != nil {
					errs[i] = fmt.Sprintf("panic: %v", p)
				}
			}(i)
		}
		h.Within("clients at once", func() {
			close(gate)
			wg.Wait()
		})
		desc := ""
		for i, p := range plans {
			desc += fmt.Sprintf("client %d (initial values: %v):\n", i, initial[i])
			for _, v := range p {
				desc += "    " + v.String() + "\n"
			}
		}
		seen := map[string]int{}
		for i := range plans {
			if errs[i] != "" {
				c.Fatalf("%s, %d clients at once\n%sclient %d: %s", w.kind, n, desc, i, errs[i])
			}
			for s := range ids[i] {
				if j, ok := seen[s]; ok {
					c.Fatalf("%s, %d clients at once\n%sclients %d and %d both have the id %s", w.kind, n, desc, i, j, s)
				}
				seen[s] = i
			}
		}
		if len(shared) != 2 || shared["theme"] != "dark" || shared["n"] != 1 {
			c.Fatalf("%s, %d clients at once\n%sthe initial values given to all became %v", w.kind, n, desc, shared)
		}
		c.Label("%s, %d clients", w.kind, n)
		k := 0
		for _, x := range read {
			if x > 0 {
				k++
			}
		}
		if k >= 2 {
			c.NonTrivial(w.kind + "\n" + desc)
		}
	})
}

// client makes the requests of one client and returns what is wrong.
func (w *world) client(i int, plan []visit, initial bool, shared map[string]interface{}, ids map[string]bool, read *int) string {
	var jar *http.Cookie
	var stored vals // nil: nothing is stored
	mine := sessions.NewSessionManager(w.prov)
	cc := *w.cc
	psk, salt := fmt.Sprintf("user%d", i), fmt.Sprintf("salt%d", i)
	var token *http.Cookie

	take := func(rw *httptest.ResponseRecorder, old string) (string, bool) {
		cs := cookies(rw)
		if len(cs) == 0 {
			return old, true
		}
		k := cs[len(cs)-1]
		jar = &http.Cookie{Name: k.Name, Value: k.Value}
		sid, _, ok := sessions.DecodeSecureValue(k.Value, w.cfg.SecretKey)
		return sid, ok && k.Name == cc.CookieName && k.MaxAge >= 0
	}
	if initial {
		rw := httptest.NewRecorder()
		s, _, err := w.m.Regenerate(&cc, rw, w.request(nil), shared)
		if err != nil {
			return fmt.Sprintf("Regenerate of no session: %v", err)
		}
		stored = vals{"theme": "dark", "n": 1}
		if !same(s.Values(), stored) {
			return fmt.Sprintf("a session with initial values holds %v", vals(s.Values()))
		}
		if err := s.Flush(); err != nil {
			return fmt.Sprintf("Flush of initial values: %v", err)
		}
		if sid, ok := take(rw, ""); !ok || sid != s.Sid() {
			return fmt.Sprintf("the cookie carries %q, the session is %q", sid, s.Sid())
		}
		ids[s.Sid()] = true
	}
	for step, v := range plan {
		at := fmt.Sprintf("request %d (%s): ", step, v)
		for y := 0; y < v.yields; y++ {
			runtime.Gosched()
		}
		m := w.m
		if v.own {
			m = mine
		}
		if v.gc {
			if err := w.prov.GC(); err != nil {
				return at + fmt.Sprintf("GC: %v", err)
			}
		}
		known := ""
		if jar != nil {
			known, _, _ = sessions.DecodeSecureValue(jar.Value, w.cfg.SecretKey)
		}
		switch v.kind {
		case "remember":
			if token == nil {
				rw := httptest.NewRecorder()
				if !m.WriteRemember(&cc, rw, psk, salt) {
					return at + "WriteRemember is refused"
				}
				token = cookies(rw)[0]
			}
			p, hash, ok := m.HasRemember(&cc, request(&http.Cookie{Name: token.Name, Value: token.Value}))
			if !ok || p != psk || !m.ValidRemember(&cc, p, salt, hash) {
				return at + fmt.Sprintf("the remember-me cookie of %s is read as %q, %v", psk, p, ok)
			}
			if m.ValidRemember(&cc, p, salt+"x", hash) {
				return at + "the remember-me cookie verifies with another salt"
			}
		case "leave":
			rw := httptest.NewRecorder()
			if err := m.Destroy(&cc, rw, w.request(jar)); err != nil {
				return at + fmt.Sprintf("Destroy: %v", err)
			}
			if jar != nil {
				if cs := cookies(rw); len(cs) != 1 || cs[0].MaxAge >= 0 {
					return at + fmt.Sprintf("the cookie is not cleared: %v", rw.Header())
				}
				// the old cookie is worth nothing any more
				s, _, err := m.Start(&cc, httptest.NewRecorder(), w.request(jar))
				if err != nil || len(s.Values()) != 0 {
					return at + fmt.Sprintf("after the log-out the old cookie finds %v, %v", s, err)
				}
			}
			jar, stored = nil, nil
		case "look":
			// several requests at once
			var wg sync.WaitGroup
			res := make([]string, 3)
			if jar == nil {
				continue
			}
			for k := range res {
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					if p := h.Try(func() {
						rw := httptest.NewRecorder()
						s, _, err := m.Start(&cc, rw, w.request(jar))
						if err != nil {
							res[k] = err.Error()
						} else if s.Sid() != known || !same(s.Values(), stored) {
							res[k] = fmt.Sprintf("session %s holds %v, not %s with %v", s.Sid(), vals(s.Values()), known, stored)
						} else if len(cookies(rw)) > 0 {
							res[k] = fmt.Sprintf("a cookie is set: %v", rw.Header())
						}
					}); p != nil {
						res[k] = fmt.Sprintf("panic: %v", p)
					}
				}(k)
			}
			wg.Wait()
			for _, r := range res {
				if r != "" {
					return at + r
				}
			}
			if len(stored) > 0 {
				*read++
			}
		default:
			r, rw := w.request(jar), httptest.NewRecorder()
			before := time.Now()
			s, made, err := m.Start(&cc, rw, r)
			if err != nil {
				return at + fmt.Sprintf("Start: %v", err)
			}
			if jar == nil && made.Before(before) {
				return at + fmt.Sprintf("a new session was made at %v, before the request of %v", made, before)
			}
			if known != "" && s.Sid() != known {
				return at + fmt.Sprintf("the session is %s, not %s", s.Sid(), known)
			}
			if !same(s.Values(), stored) {
				return at + fmt.Sprintf("the session holds %v, not %v", vals(s.Values()), stored)
			}
			if len(stored) > 0 {
				*read++
			}
			ids[s.Sid()] = true
			if v.kind == "renew" {
				old := s.Sid()
				if s, _, err = m.Regenerate(&cc, rw, r, shared); err != nil {
					return at + fmt.Sprintf("Regenerate: %v", err)
				}
				if s.Sid() == old {
					return at + "the id stays the same"
				}
				if stored == nil {
					stored = vals{"theme": "dark", "n": 1}
					if err := s.Flush(); err != nil {
						return at + fmt.Sprintf("Flush of initial values: %v", err)
					}
				}
				if !same(s.Values(), stored) {
					return at + fmt.Sprintf("the regenerated session holds %v, not %v", vals(s.Values()), stored)
				}
				ids[s.Sid()] = true
			}
			if sid, ok := take(rw, s.Sid()); !ok || sid != s.Sid() {
				return at + fmt.Sprintf("the cookie carries %q, the session is %q", sid, s.Sid())
			}
			now := stored.clone()
			for _, x := range v.ops {
				switch x.op {
				case "set":
					s.Set(x.key, own(x.value))
					now[x.key] = x.value
				case "mine":
					now[x.key] = fmt.Sprintf("client %d step %d", i, step)
					s.Set(x.key, now[x.key])
				case "large":
					now[x.key] = fmt.Sprintf("client %d step %d %s", i, step, h.Text(x.value.(int)))
					s.Set(x.key, now[x.key])
				case "delete":
					s.Delete(x.key)
					delete(now, x.key)
				case "clean":
					s.Clean()
					now = vals{}
				}
				runtime.Gosched()
			}
			if !same(s.Values(), now) {
				return at + fmt.Sprintf("the session in use holds %v, not %v", vals(s.Values()), now)
			}
			if v.save {
				if err := s.Flush(); err != nil {
					return at + fmt.Sprintf("Flush: %v", err)
				}
				if len(v.ops) > 0 || stored != nil {
					stored = now
				}
			}
		}
	}
	if jar == nil {
		return ""
	}
	s, _, err := w.m.Start(&cc, httptest.NewRecorder(), w.request(jar))
	if err != nil {
		return fmt.Sprintf("Start at the end: %v", err)
	}
	if !same(s.Values(), stored) {
		return fmt.Sprintf("at the end the session holds %v, not %v", vals(s.Values()), stored)
	}
	if strings.TrimSpace(s.Sid()) == "" {
		return "the session has no id"
	}
	return ""
}
