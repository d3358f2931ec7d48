package kv

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/wujiu2020/strip/caches"
	"github.com/wujiu2020/strip/utils"
	"pgregory.net/rapid"

	"verif/pbt/internal/fake"
	"verif/pbt/internal/h"
)

// life is what is known of an entry: it lives until some moment in [lo, hi].
type life struct {
	text    string
	n       int
	lo, hi  time.Time
	forever bool
}

// TestK02 runs histories of stores and clock advances.
func TestK02(t *testing.T) {
	e, err := fake.Start()
	h.Env(err)
	h.Check(t, h.Spec{ID: "K02", Quick: 4000, Thorough: 80000, Steps: 20,
		Rule: "A cache on a server of a generated kind whose clock the harness moves; a history of sets and touches with timeouts from one second to centuries, the default and forever, of counting, deleting, cleaning up and of clock advances up to just before, just past or far past the end of some entry, some of them in the middle of an operation. Every operation must find exactly the entries whose time has not passed. Non-trivial: an entry was met after its end and an entry was met alive after the clock had moved.",
	}, func(c *h.C) {
		e.Reset()
		defer e.Between(nil)
		kind := rapid.SampledFrom([]string{"redis", "memcached", "mongo", "mongo-key"}).Draw(c.T, "backend")
		auto := rapid.Bool().Draw(c.T, "auto expire")
		cache, err := e.Cache(kind, "p", auto)
		h.Env(err)
		slack := 5 * time.Millisecond
		if kind == "memcached" {
			slack = 1100 * time.Millisecond // it has whole seconds
		}
		begin := e.Now()
		m := map[string]*life{}
		var log []string
		dead, alive, moved := 0, 0, false
		fail := func(format string, a ...interface{}) {
			c.Fatalf("%s (auto expire %v), after\n  %s\n%s", kind, auto, strings.Join(log, "\n  "), fmt.Sprintf(format, a...))
		}
		note := func(format string, a ...interface{}) { log = append(log, fmt.Sprintf(format, a...)) }
		var ks = []string{"a", "b", "c"}
		key := func() string { return rapid.SampledFrom(ks).Draw(c.T, "key") }

		timeout := func() []int {
			return rapid.OneOf(
				rapid.SampledFrom([][]int{nil, {0}, {-1}, {-1000}}),
				rapid.Map(rapid.IntRange(5, 120), func(n int) []int { return []int{n} }),
				rapid.Map(rapid.IntRange(1, 5), func(n int) []int { return []int{n} }),
				rapid.SampledFrom([][]int{{3600}, {86400}, {29 * 86400}, {30 * 86400}, {30*86400 + 5}, {31 * 86400}, {90 * 86400}, {365 * 86400}, {3650 * 86400}}),
				rapid.SampledFrom([][]int{{1 << 31}, {1<<31 - 1}, {1 << 32}, {1<<32 + 7}, {9223372036}, {9223372037}, {9300000000}, {18446744074}, {20000000000}, {1 << 40}, {1<<63 - 1}}),
			).Draw(c.T, "timeout")
		}
		// end tells when something stored between from and to ends
		const century = 100 * 365 * 24 * time.Hour
		end := func(to []int, t0, t1 time.Time) (lo, hi time.Time, forever bool) {
			n := 0
			if len(to) > 0 {
				n = to[0]
			}
			if n == 0 {
				n = 60
			}
			if n < 0 || n > int(century/time.Second) {
				return time.Time{}, time.Time{}, true
			}
			d := time.Duration(n) * time.Second
			if kind == "memcached" && t0.Add(d).After(time.Unix(1<<31-1-86400, 0)) {
				// later than memcached can tell
				return time.Time{}, time.Time{}, true
			}
			return t0.Add(d - slack), t1.Add(d + slack), false
		}
		const (
			isDead = iota
			isAlive
			unknown
		)
		// state judges an operation that ran between t0 and t1
		state := func(k string, t0, t1 time.Time) int {
			l := m[k]
			switch {
			case l == nil:
				return isDead
			case l.forever || t1.Before(l.lo):
				if moved {
					alive++
				}
				return isAlive
			case t0.After(l.hi):
				dead++
				return isDead
			}
			return unknown
		}
		// op runs f, which reports whether it found the key
		op := func(k, what string, f func() error) (found bool, t0, t1 time.Time) {
			note("%s", what)
			var err error
			t0 = e.Now()
			h.Within(what, func() { err = f() })
			t1 = e.Now()
			s := state(k, t0, t1)
			switch err {
			case nil:
				if s == isDead {
					fail("%s finds the key, it should be gone (%s)", what, m[k].tell(t0))
				}
				return true, t0, t1
			case caches.ErrMissedKey:
				if s == isAlive {
					fail("%s does not find the key, it should be there (%s)", what, m[k].tell(t1))
				}
				if s == isDead {
					// keep it in the model: it must stay dead
					return false, t0, t1
				}
				delete(m, k)
				return false, t0, t1
			}
			fail("%s: %v", what, err)
			return
		}
		get := func(k string) {
			var v utils.StrTo
			found, _, _ := op(k, "Get("+k+")", func() (err error) { v, err = cache.Get(k); return })
			if found && string(v) != m[k].text {
				fail("Get(%s) = %q, not %q", k, v, m[k].text)
			}
			if !found && v != "" {
				fail("Get(%s) = %q and the missed-key error", k, v)
			}
		}
		// between lets time pass in the middle of the next operation
		between := func(t *rapid.T) {
			if rapid.IntRange(0, 5).Draw(t, "time passes inside") > 0 {
				return
			}
			after := rapid.IntRange(0, 4).Draw(t, "after commands")
			d := time.Duration(rapid.SampledFrom([]int{1, 10, 60, 61, 120, 3600, 86400 * 31}).Draw(t, "seconds")) * time.Second
			n := 0
			note("(time passes after %d commands: %v)", after, d)
			e.Between(func() {
				if n == after {
					moved = true
					e.Advance(d)
				}
				n++
			})
		}
		c.Repeat(map[string]func(*rapid.T){
			"": func(*rapid.T) { e.Between(nil) },
			"set": func(t *rapid.T) {
				k, to := key(), timeout()
				n := rapid.IntRange(0, 99).Draw(t, "value")
				between(t)
				note("Set(%s, %d, %v)", k, n, to)
				t0 := e.Now()
				if err := cache.Set(k, n, to...); err != nil {
					fail("Set: %v", err)
				}
				lo, hi, ever := end(to, t0, e.Now())
				m[k] = &life{text: fmt.Sprint(n), n: n, lo: lo, hi: hi, forever: ever}
			},
			"touch": func(t *rapid.T) {
				k, to := key(), timeout()
				between(t)
				found, t0, t1 := op(k, fmt.Sprintf("Touch(%s, %v)", k, to), func() error { return cache.Touch(k, to...) })
				if found {
					l := m[k]
					l.lo, l.hi, l.forever = end(to, t0, t1)
				}
			},
			"count": func(t *rapid.T) {
				k := key()
				between(t)
				by := rapid.IntRange(0, 9).Draw(t, "by")
				down := rapid.Bool().Draw(t, "down")
				if l := m[k]; down && l != nil && l.n < by {
					down = false
				}
				var found bool
				if down {
					found, _, _ = op(k, fmt.Sprintf("Decr(%s, %d)", k, by), func() error { return cache.Decr(k, by) })
					by = -by
				} else {
					found, _, _ = op(k, fmt.Sprintf("Incr(%s, %d)", k, by), func() error { return cache.Incr(k, by) })
				}
				if found {
					m[k].n += by
					m[k].text = fmt.Sprint(m[k].n)
				}
			},
			"delete": func(t *rapid.T) {
				k := key()
				between(t)
				if found, _, _ := op(k, "Delete("+k+")", func() error { return cache.Delete(k) }); found {
					delete(m, k)
				}
			},
			"get": func(t *rapid.T) {
				between(t)
				get(key())
			},
			"has": func(t *rapid.T) {
				k := key()
				op(k, "Has("+k+")", func() error {
					ok, err := cache.Has(k)
					if err == nil && !ok {
						err = caches.ErrMissedKey
					}
					return err
				})
			},
			"gc": func(t *rapid.T) {
				note("GC()")
				n0 := e.Now()
				if err := cache.GC(); err != nil {
					fail("GC: %v", err)
				}
				if (kind == "mongo" || kind == "mongo-key") && !auto {
					// what has ended is gone
					most := 0
					for _, l := range m {
						if l.forever || !n0.After(l.hi) {
							most++
						}
					}
					if n := e.Mongo.Len("db.cp"); n > most {
						fail("after GC %d documents are stored, at most %d live", n, most)
					}
				}
				if rapid.Bool().Draw(t, "sweep") {
					e.Mongo.Sweep()
				}
				// nothing that lives may go, and nothing comes back
				for _, k := range ks {
					get(k)
				}
			},
			"advance": func(t *rapid.T) {
				var d time.Duration
				if l := m[key()]; l != nil && !l.forever && rapid.IntRange(0, 3).Draw(t, "to an end") > 0 {
					d = l.hi.Sub(e.Now()) + time.Duration(rapid.SampledFrom([]int{-400, -400, 10, 100, 2000, 86400_000}).Draw(t, "ms past"))*time.Millisecond
					if d < l.hi.Sub(e.Now()) {
						d -= 2 * slack // just before the end
					}
				} else {
					d = time.Duration(rapid.SampledFrom([]int{1, 20, 59, 61, 600, 86400, 86400 * 31, 86400 * 400, 86400 * 4000}).Draw(t, "seconds")) * time.Second
				}
				// forever is 27 years on MongoDB
				if d <= 0 || e.Now().Add(d).Sub(begin) > 27*365*24*time.Hour {
					return
				}
				// memcached's times end in 2038
				if kind == "memcached" && e.Now().Add(d).Sub(begin) > 4*365*24*time.Hour {
					return
				}
				moved = true
				note("%v pass", d)
				e.Advance(d)
			},
		})
		e.Between(nil)
		for _, k := range ks {
			get(k)
		}
		c.Label("%s", kind)
		if dead > 0 {
			c.Label("met after the end")
		}
		if dead > 0 && alive > 0 {
			c.NonTrivial(kind + "\n" + strings.Join(log, "\n"))
		}
	})
}

func (l *life) tell(now time.Time) string {
	if l == nil {
		return "it was never stored or is deleted"
	}
	if l.forever {
		return "it lives forever"
	}
	return fmt.Sprintf("its end is %v from now", l.lo.Sub(now).Round(time.Second))
}
