package logx

import (
	"fmt"
	"log"
	"regexp"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/wujiu2020/strip"
	"pgregory.net/rapid"

	"verif/pbt/internal/h"
)

// chatty is a value that logs while it is formatted.
type chatty struct {
	l    strip.Logger
	text string
}

func (c chatty) String() string {
	c.l.Warn(c.text)
	return "value " + c.text
}

// shout is one call of a program.
type shout struct {
	logger int
	level  int
	format int // 0: plain
	args   []interface{}
	shared bool // the arguments are those of other goroutines too
	inner  int  // logger of a chatty argument, or -1
	panics bool
}

var reMark = regexp.MustCompile(`<([0-9]+):[0-9]+>`)

func (o shout) do(g, i int, ls []strip.Logger) {
	v := o.args
	mark := fmt.Sprintf("<%d:%d>", g, i)
	if !o.shared {
		v = append([]interface{}{mark}, v...)
	}
	if o.inner >= 0 {
		v = append(v[:len(v):len(v)], chatty{ls[o.inner], mark})
	}
	if o.panics {
		ls[o.logger].Recover(func() { panic(mark) })
		return
	}
	f := []string{"", strings.Repeat("%v;", len(v)), "none", "%s"}[o.format]
	k := 0
	if o.format > 0 {
		k = 1
	}
	calls[o.level-1][k](ls[o.logger:o.logger+1], f, v)
}

// TestL03 compares the records of concurrent calls with those of the same calls one after another.
func TestL03(t *testing.T) {
	h.Check(t, h.Spec{ID: "L03", Quick: 1500, Thorough: 80000,
		Rule: "1-3 loggers with generated settings and one output (some of them the same logger) used by 2-6 goroutines for 1-8 calls each of all levels and forms, with arguments of their own or shared slices of arguments, values that log while they are formatted, and recovered panics, under the race detector; the records of each goroutine must be those, in the order of, the same calls made alone, each written at once. Non-trivial: three records of two goroutines.",
	}, func(c *h.C) {
		var ss []settings
		for n := rapid.IntRange(1, 3).Draw(c.T, "loggers"); n > 0; n-- {
			s := genSettings(c)
			s.global = strip.LevelDebug
			if s.parser == "all" {
				s.parser = ""
			}
			ss = append(ss, s)
		}
		var common []interface{}
		for i := rapid.IntRange(0, 3).Draw(c.T, "shared"); i > 0; i-- {
			common = append(common, h.Pick[interface{}](c.T, "shared arg", "s", 5, "a\nb", strip.LineOpt{Depth: 1}, strip.LineOpt{Stack: true}))
		}
		common = append(make([]interface{}, 0, 8), common...)
		plan := make([][]shout, rapid.IntRange(2, 6).Draw(c.T, "goroutines"))
		for g := range plan {
			for i := rapid.IntRange(1, 8).Draw(c.T, "calls"); i > 0; i-- {
				o := shout{logger: rapid.IntRange(0, len(ss)-1).Draw(c.T, "logger"), level: rapid.IntRange(1, 8).Draw(c.T, "level"),
					format: h.Pick(c.T, "format", 0, 0, 1, 1, 2, 3), inner: -1}
				if h.Pct(c.T, 30, "shared args") {
					o.shared, o.args = true, common
				} else {
					o.args = genArgs(c.T)
				}
				if h.Pct(c.T, 15, "chatty") {
					o.inner = rapid.IntRange(0, len(ss)-1).Draw(c.T, "inner")
				}
				o.panics = h.Pct(c.T, 10, "panics")
				plan[g] = append(plan[g], o)
			}
		}
		color := h.Pct(c.T, 30, "colour")
		run := func(together bool) []string {
			sink := new(h.Sink)
			out := log.New(sink, "", 0)
			var ls []strip.Logger
			for _, s := range ss {
				ls = append(ls, s.make(out, color))
			}
			var wg sync.WaitGroup
			start := make(chan struct{})
			if !together {
				close(start)
			}
			for g := range plan {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					<-start
					for i, o := range plan[g] {
						o.do(g, i, ls)
					}
				}(g)
				if !together {
					wg.Wait()
				}
			}
			if together {
				close(start)
				wg.Wait()
			}
			return sink.Take()
		}
		split := func(recs []string) (map[string][]string, []string) {
			by := map[string][]string{}
			var rest []string
			for _, r := range recs {
				r = rePC.ReplaceAllString(r, "(pc)")
				if m := reMark.FindStringSubmatch(r); m != nil {
					by[m[1]] = append(by[m[1]], r)
				} else {
					rest = append(rest, r)
				}
			}
			sort.Strings(rest)
			return by, rest
		}
		old := strip.GlobalLevel
		strip.GlobalLevel = strip.LevelDebug
		defer func() { strip.GlobalLevel = old }()
		var alone, recs []string
		h.Within("logging", func() { alone, recs = run(false), run(true) })
		a, arest := split(alone)
		b, brest := split(recs)
		for g := range plan {
			k := fmt.Sprint(g)
			if strings.Join(a[k], "\x00") != strings.Join(b[k], "\x00") {
				c.Fatalf("settings %+v\ncalls of goroutine %d: %+v\nrecords alone:\n%q\nrecords with the others running:\n%q", ss, g, plan[g], a[k], b[k])
			}
		}
		if strings.Join(arest, "\x00") != strings.Join(brest, "\x00") {
			c.Fatalf("settings %+v\ncalls %+v\nother records alone:\n%q\nwith the others running:\n%q", ss, plan, arest, brest)
		}
		if len(a) > 1 && len(alone) > 2 {
			c.NonTrivial(fmt.Sprintf("%d loggers, %d goroutines: %.300q", len(ss), len(plan), recs))
		}
	})
}
