package kvc

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/wujiu2020/strip/caches"
	"pgregory.net/rapid"

	"verif/pbt/internal/fake"
	"verif/pbt/internal/h"
)

// call is one operation of a client and what came of it.
type call struct {
	key, op string
	n       int64

	got  int64 // Get, Has
	text string
	miss bool
	err  error
}

func (o call) String() string {
	s := fmt.Sprintf("%s(%s", o.op, o.key)
	if o.op == "set" || o.op == "incr" || o.op == "decr" {
		s += fmt.Sprintf(", %d", o.n)
	}
	return s + ")"
}

func (o call) result() string {
	switch {
	case o.err != nil:
		return o.err.Error()
	case o.miss:
		return "missing"
	case o.op == "get" || o.op == "has":
		return fmt.Sprint(o.got)
	}
	return "done"
}

type cell struct {
	on bool
	n  int64
}

// model is one key of a cache used by one client at a time.
var model = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		by := map[string][]porcupine.Operation{}
		for _, o := range h {
			k := o.Input.(call).key
			by[k] = append(by[k], o)
		}
		var out [][]porcupine.Operation
		for _, k := range h2keys(by) {
			out = append(out, by[k])
		}
		return out
	},
	Init: func() interface{} { return cell{} },
	Step: func(state, in, out interface{}) (bool, interface{}) {
		s, o, r := state.(cell), in.(call), out.(call)
		switch o.op {
		case "set":
			return true, cell{true, o.n}
		case "get":
			if !s.on {
				return r.miss, s
			}
			return !r.miss && r.got == s.n, s
		case "has":
			return (r.got == 1) == s.on, s
		case "delete":
			return r.miss == !s.on, cell{}
		case "touch":
			return r.miss == !s.on, s
		case "incr", "decr":
			if !s.on {
				return r.miss, s
			}
			d := o.n
			if o.op == "decr" {
				d = -d
			}
			return !r.miss, cell{true, s.n + d}
		}
		return false, s
	},
}

func h2keys(m map[string][]porcupine.Operation) (ks []string) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return
}

func (o *call) do(c caches.CacheProvider) {
	err := error(nil)
	switch o.op {
	case "set":
		err = c.Set(o.key, o.n, 3600)
	case "get":
		v, e := c.Get(o.key)
		err = e
		if e == nil {
			o.text = string(v)
			o.got, err = v.Int64()
		}
	case "has":
		b, e := c.Has(o.key)
		err = e
		if b {
			o.got = 1
		}
	case "delete":
		err = c.Delete(o.key)
	case "touch":
		err = c.Touch(o.key, 7200)
	case "incr":
		err = c.Incr(o.key, int(o.n))
	case "decr":
		err = c.Decr(o.key, int(o.n))
	}
	if err == caches.ErrMissedKey {
		o.miss = true
	} else {
		o.err = err
	}
}

var (
	envOnce sync.Once
	clients []*fake.Client
)

const most = 4

// sched grants commands of the clients one at a time.
type sched struct {
	mu     sync.Mutex
	who    map[string]int
	learn  int // client whose connection is being learned, or -1
	arrive chan int
	grant  []chan struct{}
	on     bool
}

func (s *sched) hold(addr string) {
	s.mu.Lock()
	if s.learn >= 0 {
		s.who[addr] = s.learn
	}
	i, ok := s.who[addr]
	on := s.on && ok
	s.mu.Unlock()
	if !on {
		return
	}
	s.arrive <- i
	<-s.grant[i]
}

func TestK03(t *testing.T) {
	e, err := fake.Start()
	h.Env(err)
	envOnce.Do(func() {
		for i := 0; i < most; i++ {
			c, err := e.NewClient()
			h.Env(err)
			clients = append(clients, c)
		}
	})
	h.Check(t, h.Spec{ID: "K03", Quick: 1500, Thorough: 60000,
		Rule: "2-4 clients with connections of their own (or one shared cache, freely running) do 2-6 sets, gets, counts, deletes, touches and existence tests each on one or two keys of a server of a generated kind, the commands of all of them carried out in a generated order; the history of calls and results must be one that the same calls one after another could give (porcupine, a counter cell per key). Non-trivial: two operations of different clients overlapped on one key and one of them changed it.",
	}, func(c *h.C) {
		e.Reset()
		kind := h.Pick(c.T, "backend", "redis", "redis", "memcached", "mongo", "mongo-key", "mongo-key")
		auto := strings.HasPrefix(kind, "mongo") && h.Pct(c.T, 40, "auto expire")
		free := h.Pct(c.T, 25, "free")
		n := rapid.IntRange(2, most).Draw(c.T, "clients")
		keys := []string{"a", "b"}[:h.Pick(c.T, "keys", 1, 1, 2)]
		prefix := h.Pick(c.T, "prefix", "p", "q:")
		if kind[0] == 'm' && kind != "memcached" {
			e.Sess.ResetIndexCache()
		}
		next := int64(1000)
		gen := func(t *rapid.T) *call {
			o := &call{key: h.Pick(t, "key", keys...), op: h.Pick(t, "op", "set", "get", "get", "incr", "incr", "decr", "delete", "touch", "has")}
			switch o.op {
			case "set":
				// values tell where they come from
				next *= 2
				o.n = next
			case "incr", "decr":
				o.n = int64(rapid.IntRange(1, 9).Draw(t, "by"))
				if h.Pct(t, 15, "negative") {
					o.n = -o.n
				}
			}
			return o
		}
		// all start with setting the same key
		rush := h.Pct(c.T, 30, "rush")
		plan := make([][]*call, n)
		for i := range plan {
			if rush {
				next *= 2
				plan[i] = append(plan[i], &call{key: "a", op: "set", n: next})
			}
			for k := rapid.IntRange(2, 6).Draw(c.T, "calls"); k > 0; k-- {
				plan[i] = append(plan[i], gen(c.T))
			}
		}
		s := &sched{who: map[string]int{}, learn: -1, arrive: make(chan int, n), on: false}
		e.Hold(s.hold)
		defer e.Hold(nil)
		cs := make([]caches.CacheProvider, n)
		for i := range cs {
			s.grant = append(s.grant, make(chan struct{}))
			s.mu.Lock()
			s.learn = i
			s.mu.Unlock()
			var err error
			if free && i > 0 {
				cs[i] = cs[0]
			} else if cs[i], err = clients[i].Cache(kind, prefix, auto); err == nil {
				_, err = cs[i].Has("warm-up")
			}
			if err != nil {
				c.Fatalf("a new %s cache: %v", kind, err)
			}
		}
		s.mu.Lock()
		s.learn = -1
		s.mu.Unlock()
		first := h.Pct(c.T, 60, "present at first") && !rush
		if first {
			if err := cs[0].Set("a", 500, 3600); err != nil {
				c.Fatalf("%s: Set: %v", kind, err)
			}
		}
		s.mu.Lock()
		s.on = !free
		s.mu.Unlock()

		var clock int64
		var mu sync.Mutex
		var hist []porcupine.Operation
		if first {
			hist = append(hist, porcupine.Operation{ClientId: n, Input: call{key: "a", op: "set", n: 500}, Call: -2, Output: call{}, Return: -1})
		}
		done := make(chan int, n)
		run := func(i int) {
			for _, o := range plan[i] {
				in := *o
				at := atomic.AddInt64(&clock, 1)
				o.do(cs[i])
				to := atomic.AddInt64(&clock, 1)
				mu.Lock()
				hist = append(hist, porcupine.Operation{ClientId: i, Input: in, Call: at, Output: *o, Return: to})
				mu.Unlock()
			}
			done <- i
		}
		var order []int
		h.Within(fmt.Sprint(kind, plan), func() {
			for i := range plan {
				go run(i)
			}
			active, held := n, map[int]bool{}
			for active > 0 {
				for len(held) < active {
					select {
					case i := <-s.arrive:
						held[i] = true
					case <-done:
						active--
					}
				}
				if active == 0 {
					break
				}
				var is []int
				for i := range held {
					is = append(is, i)
				}
				sort.Ints(is)
				i := is[rapid.IntRange(0, len(is)-1).Draw(c.T, "next")]
				order = append(order, i)
				delete(held, i)
				s.grant[i] <- struct{}{}
			}
		})
		e.Hold(nil)
		desc := func() string {
			sort.Slice(hist, func(i, j int) bool { return hist[i].Call < hist[j].Call })
			var ls []string
			for _, o := range hist {
				ls = append(ls, fmt.Sprintf("client %d: %v from %d to %d: %v", o.ClientId, o.Input, o.Call, o.Return, o.Output.(call).result()))
			}
			return fmt.Sprintf("%s (auto expire %v), free %v, commands in the order of clients %v\n  %s", kind, auto, free, order, strings.Join(ls, "\n  "))
		}
		for _, o := range hist {
			if r := o.Output.(call); r.err != nil {
				c.Fatalf("%s\n%v fails: %v", desc(), o.Input, r.err)
			}
		}
		switch porcupine.CheckOperationsTimeout(model, hist, 20*time.Second) {
		case porcupine.Illegal:
			c.Fatalf("%s\nno order of these calls gives these results", desc())
		case porcupine.Unknown:
			c.Label("undecided")
		}
		c.Label("%s free %v", kind, free)
		for i, a := range hist {
			for _, b := range hist[:i] {
				x, y := a.Input.(call), b.Input.(call)
				if a.ClientId != b.ClientId && x.key == y.key && a.Call < b.Return && b.Call < a.Return && strings.Contains("set incr decr delete", x.op) {
					c.NonTrivial(desc())
				}
			}
		}
	})
}
