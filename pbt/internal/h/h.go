// Package h is the harness every property check runs in: it configures
// rapid, counts and classifies the generated cases and writes down what a
// run covered.
package h

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Spec describes one generated check of a property.
type Spec struct {
	ID       string // property
	Rule     string // how cases are made and what makes one non-trivial
	Quick    int    // cases in the quick tier
	Thorough int    // cases in the thorough tier
	Steps    int    // average length of action sequences (0: rapid's default)
}

type record struct {
	mu       sync.Mutex
	Tests    []string
	Evals    int
	Distinct map[uint64]bool
	Labels   map[string]int
	Rules    []string
	Samples  []string
}

var (
	recMu sync.Mutex
	recs  = map[string]*record{}
)

func rec(id string) *record {
	recMu.Lock()
	defer recMu.Unlock()
	r := recs[id]
	if r == nil {
		r = &record{Distinct: map[uint64]bool{}, Labels: map[string]int{}}
		recs[id] = r
	}
	return r
}

// Thorough tells whether the thorough tier is running.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// C is one generated case.
type C struct {
	*rapid.T
	r  *record
	nt bool // counted as non-trivial
}

// Label counts the case in a class of the histogram.
func (c *C) Label(format string, args ...interface{}) {
	l := format
	if len(args) > 0 {
		l = fmt.Sprintf(format, args...)
	}
	c.r.mu.Lock()
	c.r.Labels[l]++
	c.r.mu.Unlock()
}

// NonTrivial marks the case as non-trivial by the rule of its Spec; key is
// the case written out (equal keys are the same case). A case counts once.
func (c *C) NonTrivial(key string) {
	f := fnv.New64a()
	f.Write([]byte(key))
	s := f.Sum64()
	c.r.mu.Lock()
	if !c.nt && !c.r.Distinct[s] {
		c.nt = true
		c.r.Distinct[s] = true
		n := len(c.r.Distinct)
		// first few, then exponentially rarer
		if n <= 2 || n&(n-1) == 0 {
			if len(key) > 700 {
				key = key[:700] + "..."
			}
			if len(c.r.Samples) >= 8 {
				c.r.Samples = append(c.r.Samples[:2], c.r.Samples[3:]...)
			}
			c.r.Samples = append(c.r.Samples, key)
		}
	}
	c.r.mu.Unlock()
}

// Env reports that the environment, not the code under test, failed.
func Env(err error) {
	if err != nil {
		fmt.Printf("VERIF-ENVIRONMENT: %v\n", err)
		os.Exit(4)
	}
}

// Within runs f, which takes microseconds when nothing blocks, and kills the
// process when it has not returned after a minute; the driver confirms such a
// death in a fresh process before it reports it.
func Within(what string, f func()) {
	done := make(chan struct{})
	var p interface{}
	go func() {
		defer close(done)
		defer func() { p = recover() }()
		f()
	}()
	t := time.NewTimer(60 * time.Second)
	defer t.Stop()
	select {
	case <-done:
		if p != nil {
			panic(p)
		}
	case <-t.C:
		buf := make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		fmt.Printf("VERIF-HANG: %s has not returned after 60 s\n%s\n", what, buf)
		os.Exit(3)
	}
}

// Check runs prop on generated cases.
func Check(t *testing.T, s Spec, prop func(c *C)) {
	t.Helper()
	r := rec(s.ID)
	r.mu.Lock()
	r.Tests = append(r.Tests, t.Name())
	r.Rules = append(r.Rules, t.Name()+": "+s.Rule)
	r.mu.Unlock()
	defer flush()

	n := s.Quick
	if Thorough() {
		n = s.Thorough
		if n == 0 {
			n = s.Quick * 20
		}
	}
	if v := os.Getenv("VERIF_CASES"); v != "" {
		if x, err := strconv.Atoi(v); err == nil {
			n = x
		}
	}
	must(flag.Set("rapid.checks", strconv.Itoa(n)))
	steps := s.Steps
	if steps == 0 {
		steps = 30
	}
	must(flag.Set("rapid.steps", strconv.Itoa(steps)))
	rapid.Check(t, func(rt *rapid.T) {
		r.mu.Lock()
		r.Evals++
		r.mu.Unlock()
		prop(&C{T: rt, r: r})
	})
}

// Example runs a plain regression case that bypasses the generators.
func Example(t *testing.T, id, name string, f func(t *testing.T)) {
	r := rec(id)
	r.mu.Lock()
	r.Evals++
	r.Labels["regression example"]++
	r.mu.Unlock()
	defer flush()
	t.Run(name, f)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func flush() {
	dir := os.Getenv("VERIF_EV_DIR")
	if dir == "" {
		return
	}
	recMu.Lock()
	defer recMu.Unlock()
	for id, r := range recs {
		r.mu.Lock()
		out := map[string]interface{}{
			"tests":               r.Tests,
			"evaluations":         r.Evals,
			"distinct_nontrivial": len(r.Distinct),
			"labels":              r.Labels,
			"rules":               r.Rules,
			"samples":             r.Samples,
		}
		b, err := json.MarshalIndent(out, "", " ")
		r.mu.Unlock()
		must(err)
		must(os.WriteFile(dir+"/"+id+".json", b, 0o644))
	}
}

// Keys returns the sorted keys of a map.
func Keys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Pct draws true in about p of 100 cases.
func Pct(t *rapid.T, p int, label string) bool {
	return rapid.IntRange(0, 99).Draw(t, label) >= 100-p
}

// Pick draws one of the given values.
func Pick[V any](t *rapid.T, label string, vs ...V) V {
	return rapid.SampledFrom(vs).Draw(t, label)
}

// Try runs f and returns the value it panicked with, if any.
func Try(f func()) (p interface{}) {
	defer func() {
		p = recover()
		if p != nil && strings.Contains(reflect.TypeOf(p).PkgPath(), "pgregory.net/rapid") {
			panic(p) // rapid's own control flow
		}
	}()
	f()
	return nil
}
