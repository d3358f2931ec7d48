package kv

import (
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/globalsign/mgo"
	"github.com/wujiu2020/strip/caches"
	"pgregory.net/rapid"

	"verif/pbt/internal/fake"
	"verif/pbt/internal/h"
)

// state is what a key may have at the moment: a text and the seconds it stays,
// 0 for ever.
type state struct {
	text string
	stay int
}

type states map[state]bool

var absent = state{"(absent)", 0}

func (s states) String() string {
	var ks []string
	for k := range s {
		ks = append(ks, fmt.Sprintf("%s for %ds", k.text, k.stay))
	}
	sort.Strings(ks)
	return strings.Join(ks, " or ")
}

var errConnect = errors.New("injected failure to connect")

// TestK04 runs operations while the server fails.
func TestK04(t *testing.T) {
	e, err := fake.Start()
	h.Env(err)
	base := map[string]int{}
	h.Check(t, h.Spec{ID: "K04", Quick: 4000, Thorough: 60000,
		Rule: "One cache on a server of a generated kind; a history of 4-25 operations on two keys, during which any of the first four commands of an operation gets an error reply or a broken connection before or after its effect (MongoDB: error replies, or its connection function fails before or after its work; Redis: the server refuses connections), as may making the cache. The model keeps all states the failures can have left; every result must fit one of them, a failed operation must say so with an error other than the missed key, and the number of open connections must not grow; at the end up to three hours pass, and what is left must fit the timeout of a state. Non-trivial: a fault hit an operation and a later one succeeded.",
	}, func(c *h.C) {
		e.Reset()
		kind := h.Pick(c.T, "backend", "redis", "redis", "memcached", "mongo", "mongo-key")
		failBefore, failAfter, connected := false, false, false
		connect := func(f func(*mgo.Collection) error) error {
			if failBefore {
				failBefore, connected = false, true
				return errConnect
			}
			err := e.Connect("c")(f)
			if failAfter {
				failAfter, connected = false, true
				return errConnect
			}
			return err
		}
		var cache caches.CacheProvider
		var err error
		open := func() {
			switch kind {
			case "mongo":
				e.Sess.ResetIndexCache()
				cache, err = caches.NewMgoProvider(caches.MgoConfig{KeyField: "_id", ValueField: "value", ExpiredAtField: "expiredAt", Connect: connect})
			case "mongo-key":
				e.Sess.ResetIndexCache()
				cache, err = caches.NewMgoProvider(caches.MgoConfig{KeyField: "key", ValueField: "v", ExpiredAtField: "exp", Connect: connect})
			default:
				cache, err = e.Cache(kind, "p", false)
			}
		}
		if h.Pct(c.T, 20, "fault at first") {
			how := h.Pick(c.T, "how", "command", "command", "down", "before", "after")
			faults := e.Faults(kind)
			met := false
			switch how {
			case "command":
				f := h.Pick(c.T, "fault", fake.ErrBefore, fake.ErrAfter)
				if kind == "redis" {
					f = h.Pick(c.T, "cut", f, fake.CutBefore, fake.CutAfter)
				}
				if kind != "memcached" {
					faults.Plan(map[int]fake.Fault{h.Pick(c.T, "command", 0, 0, 1, 1, 2, 3): f})
				}
			case "down":
				if kind == "redis" {
					e.Down()
				}
			case "before":
				failBefore = true
			case "after":
				failAfter = true
			}
			if p := h.Try(open); p != nil {
				c.Fatalf("%s: making the cache panics at a failure (%s): %v", kind, how, p)
			}
			met = len(faults.Fired()) > 0 || connected || e.Up() > 0
			cmds := faults.Log()
			faults.Plan(nil)
			failBefore, failAfter, connected = false, false, false
			if met != (err != nil) {
				c.Fatalf("%s: making the cache met a failure: %v (%s, %q), and reports %v", kind, met, how, cmds, err)
			}
			c.Label("made with a failure %v", met)
		}
		open()
		h.Env(err)
		mongo := strings.HasPrefix(kind, "mongo")
		model := map[string]states{"a": {absent: true}, "b": {absent: true}}
		var log []string
		fail := func(format string, a ...interface{}) {
			c.Fatalf("%s, after\n  %s\n%s", kind, strings.Join(log, "\n  "), fmt.Sprintf(format, a...))
		}
		faults := e.Faults(kind)
		hurt, after := false, false
		for n := rapid.IntRange(4, 25).Draw(c.T, "operations"); n > 0; n-- {
			key := h.Pick(c.T, "key", "a", "a", "b")
			op := h.Pick(c.T, "op", "set", "set", "get", "get", "has", "delete", "incr", "decr", "touch", "forever", "clean", "gc")
			num := rapid.IntRange(0, 1000).Draw(c.T, "number")
			what := op + " " + key
			if op == "set" || op == "incr" || op == "decr" {
				what += fmt.Sprint(" ", num)
			}
			plan := map[int]fake.Fault{}
			connected = false
			if h.Pct(c.T, 35, "fault") {
				if kind == "redis" && h.Pct(c.T, 25, "down") {
					e.Down()
				} else if mongo && h.Pct(c.T, 40, "connection") {
					if rapid.Bool().Draw(c.T, "after") {
						failAfter = true
					} else {
						failBefore = true
					}
				} else {
					kinds := []fake.Fault{fake.ErrBefore, fake.ErrAfter}
					if !mongo {
						kinds = append(kinds, fake.CutBefore, fake.CutAfter)
					}
					plan[h.Pick(c.T, "command", 0, 0, 0, 1, 2, 3, 4)] = rapid.SampledFrom(kinds).Draw(c.T, "what")
				}
			}
			faults.Plan(plan)
			var got string
			h.Within(what, func() {
				switch op {
				case "set":
					err = cache.Set(key, num, 3600)
				case "get":
					v, er := cache.Get(key)
					got, err = string(v), er
				case "has":
					b, er := cache.Has(key)
					got, err = strconv.FormatBool(b), er
				case "delete":
					err = cache.Delete(key)
				case "incr":
					err = cache.Incr(key, num)
				case "decr":
					err = cache.Decr(key, num)
				case "touch":
					err = cache.Touch(key, 7200)
				case "forever":
					err = cache.Touch(key, -1)
				case "clean":
					err = cache.Clean()
				case "gc":
					err = cache.GC()
				}
			})
			fired, cmds := faults.Fired(), faults.Log()
			faults.Plan(nil)
			failBefore, failAfter = false, false
			refused := e.Up()
			hit := len(fired) > 0 || connected || refused > 0
			// the answer to a command that only tidies up changes nothing
			for i := range plan {
				if len(fired) > 0 && i < len(cmds) && strings.HasPrefix(cmds[i], "UNWATCH") {
					hit = false
				}
			}
			log = append(log, fmt.Sprintf("%s: %q %v   faults %v %v, %d connections refused, in %d commands", what, got, err, fired, connected, refused, len(cmds)))
			// what it does to a text
			effect := func(s state) (state, bool) {
				switch op {
				case "set":
					return state{strconv.Itoa(num), 3600}, true
				case "delete":
					return absent, s != absent
				case "clean":
					return absent, true
				case "incr", "decr":
					if s == absent {
						return s, false
					}
					n, _ := strconv.Atoi(s.text)
					if op == "incr" {
						return state{strconv.Itoa(n + num), s.stay}, true
					}
					if n -= num; n < 0 && kind == "memcached" {
						n = 0 // its counters stop there
					}
					return state{strconv.Itoa(n), s.stay}, true
				case "touch", "forever":
					if s == absent {
						return s, false
					}
					return state{s.text, map[string]int{"touch": 7200}[op]}, true
				case "get":
					return s, s != absent
				}
				return s, true
			}
			keys := []string{key}
			if op == "clean" {
				keys = []string{"a", "b"}
			}
			if hit {
				hurt = true
				if err == nil {
					fail("%s met a failure and reports success", what)
				}
				if err == caches.ErrMissedKey {
					fail("%s met a failure and says the key is missing", what)
				}
				if got != "" && got != "false" {
					fail("%s met a failure and gives %q", what, got)
				}
				for _, k := range keys {
					next := states{}
					for s := range model[k] {
						next[s] = true
						e, _ := effect(s)
						next[e] = true
					}
					model[k] = next
				}
				continue
			}
			if err != nil && err != caches.ErrMissedKey {
				fail("%s fails although the server works: %v", what, err)
			}
			after = after || hurt
			for _, k := range keys {
				next := states{}
				for s := range model[k] {
					e, found := effect(s)
					if found != (err == nil) || op == "get" && found && got != s.text || op == "has" && (got == "true") != (s != absent) {
						continue
					}
					next[e] = true
				}
				if len(next) == 0 {
					fail("%s: the key was %v", what, model[k])
				}
				model[k] = next
			}
		}
		// every state says how long the key stays
		passed := h.Pick(c.T, "time passed", 0, 0, 3000, 4000, 10000)
		if passed > 0 {
			e.Advance(time.Duration(passed) * time.Second)
		}
		for _, k := range []string{"a", "b"} {
			v, err := cache.Get(k)
			text := string(v)
			if err == caches.ErrMissedKey {
				text = absent.text
			} else if err != nil {
				fail("Get(%s) fails although the server works: %v", k, err)
			}
			fits := false
			for s := range model[k] {
				if s.stay != 0 && s.stay < passed {
					s = absent
				}
				fits = fits || s.text == text
			}
			if !fits {
				fail("%ds later Get(%s) = %s, the key was %v", passed, k, text, model[k])
			}
		}
		// connections are closed by the other end, which takes it a moment
		most := map[string]int{"redis": 2, "memcached": 2}[kind]
		if mongo {
			if most = base[kind]; most == 0 {
				most = e.Conns(kind) + 4
				base[kind] = most
			}
		}
		for i := 0; e.Conns(kind) > most; i++ {
			if i > 500 {
				fail("%d connections are open, there should be at most %d", e.Conns(kind), most)
			}
			time.Sleep(10 * time.Millisecond)
		}
		c.Label("%s", kind)
		if after {
			c.NonTrivial(fmt.Sprint(kind, "\n", strings.Join(log, "\n")))
		}
	})
}
