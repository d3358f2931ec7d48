package kv

import (
	"fmt"
	"strconv"
	"strings"
	"testing"

	"github.com/wujiu2020/strip/caches"
	"github.com/wujiu2020/strip/utils"
	"pgregory.net/rapid"

	"verif/pbt/internal/fake"
	"verif/pbt/internal/h"
)

type myString string

// value is something to store with the text that must come back.
type value struct {
	v    interface{}
	text string
	num  bool // can be counted on every backend
	bad  bool // can be counted on none
}

func values() *rapid.Generator[value] {
	str := rapid.OneOf(rapid.SampledFrom([]string{"", "a", "12a", "hello world", "x\r\ny", "END\r\n", "9 ", " 9", "10 ", "0 ", "100  ", "7\n", "-3", "$-1\r\n", "true", "é\x00\xff", "0x10", "{\"a\":1}"}),
		rapid.String(), rapid.Map(rapid.SliceOfN(rapid.Byte(), 0, 300), func(b []byte) string { return string(b) }))
	return rapid.Custom(func(t *rapid.T) value {
		switch rapid.IntRange(0, 12).Draw(t, "type") {
		case 0, 1:
			s := str.Draw(t, "string")
			_, err := strconv.ParseFloat(strings.TrimSpace(s), 64)
			return value{s, s, false, err != nil}
		case 2:
			s := str.Draw(t, "bytes")
			return value{[]byte(s), s, false, false}
		case 3:
			b := rapid.Bool().Draw(t, "bool")
			return value{b, strconv.FormatBool(b), false, false}
		case 4:
			n := rapid.SampledFrom([]float64{0.1, 1.5, -2.25, 1e21, 3, 1e-7, 123456789.125}).Draw(t, "float64")
			return value{n, strconv.FormatFloat(n, 'f', -1, 64), false, false}
		case 5:
			n := rapid.SampledFrom([]float32{0.1, 1.5, -2.25, 3.3, 1e-7}).Draw(t, "float32")
			return value{n, strconv.FormatFloat(float64(n), 'f', -1, 32), false, false}
		case 6:
			s := str.Draw(t, "named string")
			return value{myString(s), s, false, false}
		case 7:
			s := str.Draw(t, "StrTo")
			return value{utils.StrTo(s), s, false, false}
		case 8:
			if rapid.Bool().Draw(t, "countable") {
				n := rapid.Uint64Range(0, 1<<40).Draw(t, "uint64")
				return value{n, strconv.FormatUint(n, 10), true, false}
			}
			n := rapid.Uint64().Draw(t, "uint64")
			return value{n, strconv.FormatUint(n, 10), false, false}
		case 9:
			n := rapid.Int8Range(0, 127).Draw(t, "int8")
			return value{n, strconv.Itoa(int(n)), true, false}
		case 12:
			v := h.Pick[interface{}](t, "composed", []int{1, 2}, []string{"a", "b c"}, []string{}, [2]bool{true}, map[string]int{"x": 1}, struct{ A, B int }{3, 4}, nil)
			return value{v, fmt.Sprintf("%#v", v), false, true}
		case 10:
			n := rapid.Int64Range(0, 1<<40).Draw(t, "int64")
			return value{n, strconv.FormatInt(n, 10), true, false}
		default:
			n := rapid.OneOf(rapid.IntRange(0, 1100), rapid.SampledFrom([]int{0, 1, 9, 10, 99, 100, 2147483647, 2147483648})).Draw(t, "int")
			return value{n, strconv.Itoa(n), true, false}
		}
	})
}

// entry is what the model keeps of a key.
type entry struct {
	text     string
	num, bad bool
}

func keys() *rapid.Generator[string] {
	few := rapid.SampledFrom([]string{"a", "b"})
	return rapid.OneOf(few, few, few, rapid.SampledFrom([]string{"a", "b", "ab", "a:b", "user/1", "é", "KEY", "key", "_id", "value", "$set", "a.b", strings.Repeat("k", 180)}))
}

// TestK01 runs operation histories over several caches of one server.
func TestK01(t *testing.T) {
	e, err := fake.Start()
	h.Env(err)
	h.Check(t, h.Spec{ID: "K01", Quick: 3000, Thorough: 60000, Steps: 25,
		Rule: "Two or three caches with different prefixes (collections for MongoDB) on one server of a generated kind; a history of up to about fifty sets (of thirteen types of values), gets, deletes, increments, decrements, touches, cleanups and existence tests on any of them, compared call by call and at the end key by key with one map per cache. Non-trivial: at least five operations, one of them on a present and one on a missing key.",
	}, func(c *h.C) {
		e.Reset()
		kind := rapid.SampledFrom([]string{"redis", "memcached", "mongo", "mongo-key"}).Draw(c.T, "backend")
		prefixes := [][]string{{"", "p:"}, {"a", "b"}, {"x_", "y_", "z"}, {"k1", "k2"}}[rapid.IntRange(1, 3).Draw(c.T, "prefixes")]
		auto := rapid.Bool().Draw(c.T, "auto expire")
		var cs []caches.CacheProvider
		var ms []map[string]entry
		for _, p := range prefixes {
			x, err := e.Cache(kind, p, auto)
			h.Env(err)
			cs = append(cs, x)
			ms = append(ms, map[string]entry{})
		}
		var log []string
		hits, misses := 0, 0
		fail := func(format string, a ...interface{}) {
			c.Fatalf("%s, prefixes %q, after\n  %s\n%s", kind, prefixes, strings.Join(log, "\n  "), fmt.Sprintf(format, a...))
		}
		note := func(i int, format string, a ...interface{}) {
			log = append(log, fmt.Sprintf("cache %d: ", i)+fmt.Sprintf(format, a...))
		}
		want := func(what string, got error, present bool) {
			if present {
				hits++
				if got != nil {
					fail("%s of a present key: %v", what, got)
				}
			} else {
				misses++
				if got != caches.ErrMissedKey {
					fail("%s of a missing key: error %v, not the missed-key error", what, got)
				}
			}
		}
		timeout := func() []int {
			// none of these passes during the case
			return rapid.SampledFrom([][]int{nil, {0}, {-1}, {3600}, {86400}, {40 * 86400}}).Draw(c.T, "timeout")
		}
		look := func(i int, k string) {
			var got utils.StrTo
			var err error
			h.Within("Get", func() { got, err = cs[i].Get(k) })
			m, ok := ms[i][k]
			want("Get("+k+")", err, ok)
			if string(got) != m.text {
				fail("cache %d: Get(%q) = %q, not %q", i, k, got, m.text)
			}
		}
		which := func() (int, string) {
			return rapid.IntRange(0, len(cs)-1).Draw(c.T, "cache"), keys().Draw(c.T, "key")
		}
		count := func(t *rapid.T, name string, sign int64) {
			i, k := which()
			m, ok := ms[i][k]
			if ok && !m.num && !m.bad {
				return // left open: text that may or may not count
			}
			var by []int
			n := int64(1)
			if rapid.IntRange(0, 3).Draw(t, "with count") > 0 {
				by = []int{rapid.OneOf(rapid.IntRange(-20, 200), rapid.SampledFrom([]int{0, 1, 2147483648, -1, 1<<33 + 5, -1<<33 - 7, 1 << 41})).Draw(t, "count")}
				n = int64(by[0])
			}
			cur := int64(0)
			if ok && m.num {
				cur, _ = strconv.ParseInt(m.text, 10, 64)
				if cur > 0 && rapid.IntRange(0, 5).Draw(t, "down to about nothing") == 0 {
					n = -sign * (cur - rapid.Int64Range(0, min(cur, 9)).Draw(t, "left"))
					by = []int{int(n)}
				}
			}
			next := cur + sign*n
			if ok && m.num && kind == "memcached" && next < 0 {
				return // memcached counts from zero up
			}
			note(i, "%s(%q, %v)", name, k, by)
			f := cs[i].Incr
			if sign < 0 {
				f = cs[i].Decr
			}
			var err error
			h.Within(name, func() { err = f(k, by...) })
			switch {
			case ok && m.bad:
				if err == nil || err == caches.ErrMissedKey {
					fail("%s of %q, no number, returns %v", name, m.text, err)
				}
			default:
				want(name, err, ok)
				if ok {
					m.text = strconv.FormatInt(next, 10)
					ms[i][k] = m
				}
			}
			look(i, k)
		}
		c.Repeat(map[string]func(*rapid.T){
			"set": func(t *rapid.T) {
				i, k := which()
				v := values().Draw(t, "value")
				to := timeout()
				note(i, "Set(%q, %T %q, %v)", k, v.v, v.text, to)
				if err := cs[i].Set(k, v.v, to...); err != nil {
					fail("Set: %v", err)
				}
				ms[i][k] = entry{v.text, v.num, v.bad}
				look(i, k)
			},
			"get": func(t *rapid.T) {
				i, k := which()
				note(i, "Get(%q)", k)
				look(i, k)
			},
			"has": func(t *rapid.T) {
				i, k := which()
				note(i, "Has(%q)", k)
				got, err := cs[i].Has(k)
				if _, ok := ms[i][k]; err != nil || got != ok {
					fail("Has(%q) = %v, %v, not %v", k, got, err, ok)
				}
			},
			"delete": func(t *rapid.T) {
				i, k := which()
				note(i, "Delete(%q)", k)
				err := cs[i].Delete(k)
				_, ok := ms[i][k]
				want("Delete", err, ok)
				delete(ms[i], k)
				look(i, k)
			},
			"touch": func(t *rapid.T) {
				i, k := which()
				to := timeout()
				note(i, "Touch(%q, %v)", k, to)
				err := cs[i].Touch(k, to...)
				_, ok := ms[i][k]
				want("Touch", err, ok)
				look(i, k)
			},
			"incr": func(t *rapid.T) { count(t, "Incr", 1) },
			"decr": func(t *rapid.T) { count(t, "Decr", -1) },
			"gc": func(t *rapid.T) {
				i, _ := which()
				note(i, "GC()")
				if err := cs[i].GC(); err != nil {
					fail("GC: %v", err)
				}
				e.Mongo.Sweep()
			},
			"clean": func(t *rapid.T) {
				if rapid.IntRange(0, 5).Draw(t, "really") > 0 {
					return
				}
				i, _ := which()
				note(i, "Clean()")
				if err := cs[i].Clean(); err != nil {
					fail("Clean: %v", err)
				}
				ms[i] = map[string]entry{}
				if kind == "redis" || kind == "memcached" {
					// these clean the whole server
					for j := range ms {
						ms[j] = map[string]entry{}
					}
				}
			},
		})
		for i := range cs {
			for _, k := range []string{"a", "b", "ab", "key", "KEY", "user/1"} {
				look(i, k)
			}
			for k := range ms[i] {
				look(i, k)
			}
		}
		c.Label("%s", kind)
		if len(log) >= 5 && hits > 0 && misses > 0 {
			c.NonTrivial(kind + "\n" + strings.Join(log, "\n"))
		}
	})
}
