package utilx

import (
	"context"
	"fmt"
	"log"
	"reflect"
	"testing"
	"time"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/utils"
	"github.com/wujiu2020/strip/utils/helpers"
	"pgregory.net/rapid"

	"verif/pbt/internal/h"
	other "verif/pbt/utilx/other"
)

// ctxType is one type of context value.
type ctxType interface {
	name() string
	// attach derives a context holding a value made from n in the given form
	attach(ctx context.Context, form, n int, extra ...string) (context.Context, held)
	// check looks the type up and compares with what should be found
	check(ctx context.Context, want *held, extra ...string) string
}

// held is an attached value.
type held struct {
	ptr interface{} // *T, the value's place (nil pointer if nil)
	n   int
	nil bool
}

type kindOf[T any] struct {
	label string
	mk    func(n int) T
}

func (k kindOf[T]) name() string { return k.label }

func (k kindOf[T]) attach(ctx context.Context, form, n int, extra ...string) (context.Context, held) {
	switch form {
	case 0: // *T
		v := k.mk(n)
		return utils.CtxWithValue(ctx, &v, extra...), held{ptr: &v, n: n}
	case 1: // **T
		v := k.mk(n)
		p := &v
		return utils.CtxWithValue(ctx, &p, extra...), held{ptr: p, n: n}
	case 2: // nil *T
		var p *T
		return utils.CtxWithValue(ctx, p, extra...), held{ptr: p, n: n, nil: true}
	}
	var p *T // **T with nil inside
	return utils.CtxWithValue(ctx, &p, extra...), held{ptr: p, n: n, nil: true}
}

func (k kindOf[T]) check(ctx context.Context, want *held, extra ...string) string {
	for _, how := range []string{"value", "pointer", "preset pointer"} {
		var v T
		preset := k.mk(-7)
		p := &preset
		if how == "pointer" {
			p = nil
		}
		find := func() error {
			if how == "value" {
				return utils.CtxFindValue(ctx, &v, extra...)
			}
			return utils.CtxFindValue(ctx, &p, extra...)
		}
		var err error
		if e := h.Try(func() { err = find() }); e != nil {
			return fmt.Sprintf("looking up %s as a %s panics: %v", k.label, how, e)
		}
		if want == nil {
			if err != utils.CtxValueNotFound {
				return fmt.Sprintf("looking up %s as a %s: error %v, nothing of the type is attached", k.label, how, err)
			}
			if e := h.Try(func() { utils.MustCtxFindValue(ctx, &v, extra...) }); e != error(utils.CtxValueNotFound) {
				return fmt.Sprintf("MustCtxFindValue of %s, which is not attached, panics with %v", k.label, e)
			}
			continue
		}
		if err != nil {
			return fmt.Sprintf("looking up %s as a %s: %v", k.label, how, err)
		}
		if how == "value" {
			if !want.nil && !reflect.DeepEqual(v, k.mk(want.n)) {
				return fmt.Sprintf("looking up %s as a value gives %#v, expected number %d", k.label, v, want.n)
			}
			continue
		}
		if want.nil {
			if p != nil {
				return fmt.Sprintf("looking up %s as a %s gives %#v, expected nil", k.label, how, *p)
			}
			continue
		}
		if p != want.ptr.(*T) {
			return fmt.Sprintf("looking up %s as a %s does not give the attached pointer number %d", k.label, how, want.n)
		}
	}
	return ""
}

type CtxA struct{ N int }
type ctxB struct{ N int }
type ctxStr string
type ctxFace interface{ Num() int }
type ctxFace2 interface{ Num() int }
type ctxImpl int
type ctxGen[T any] struct {
	N int
	V T
}

func (i ctxImpl) Num() int { return int(i) }

func localA() ctxType {
	type Local struct{ N int }
	return kindOf[Local]{"Local of localA", func(n int) Local { return Local{n} }}
}

func localB() ctxType {
	type Local struct{ S string }
	return kindOf[Local]{"Local of localB", func(n int) Local { return Local{fmt.Sprint(n)} }}
}

func localC() ctxType {
	type Local struct{ N int }
	return kindOf[Local]{"Local of localC", func(n int) Local { return Local{n} }}
}

var ctxTypes = []ctxType{
	kindOf[CtxA]{"CtxA", func(n int) CtxA { return CtxA{n} }},
	kindOf[ctxB]{"ctxB", func(n int) ctxB { return ctxB{n} }},
	kindOf[other.CtxA]{"other.CtxA", func(n int) other.CtxA { return other.CtxA{N: n} }},
	kindOf[ctxStr]{"ctxStr", func(n int) ctxStr { return ctxStr(fmt.Sprint(n)) }},
	kindOf[ctxFace]{"ctxFace", func(n int) ctxFace { return ctxImpl(n) }},
	kindOf[ctxFace2]{"ctxFace2", func(n int) ctxFace2 { return ctxImpl(n) }},
	kindOf[error]{"error", func(n int) error { return ctxErr(n) }},
	kindOf[interface{}]{"interface{}", func(n int) interface{} { return n }},
	kindOf[[]int]{"[]int", func(n int) []int { return []int{n} }},
	kindOf[[]string]{"[]string", func(n int) []string { return []string{fmt.Sprint(n)} }},
	kindOf[map[string]int]{"map[string]int", func(n int) map[string]int { return map[string]int{"n": n} }},
	kindOf[struct{ X int }]{"struct{X int}", func(n int) struct{ X int } { return struct{ X int }{n} }},
	kindOf[[2]int]{"[2]int", func(n int) [2]int { return [2]int{n, 1} }},
	kindOf[ctxGen[int]]{"ctxGen[int]", func(n int) ctxGen[int] { return ctxGen[int]{n, n} }},
	kindOf[ctxGen[string]]{"ctxGen[string]", func(n int) ctxGen[string] { return ctxGen[string]{n, "x"} }},
	kindOf[time.Duration]{"time.Duration", func(n int) time.Duration { return time.Duration(n) }},
	localA(), localB(), localC(),
}

type ctxErr int

func (e ctxErr) Error() string { return fmt.Sprint(int(e)) }

type ctxNode struct {
	ctx  context.Context
	held map[string]held // type and name
	log  strip.Logger
	path string
}

func TestU02(t *testing.T) {
	names := []string{"", "a", "b", ":", "a:b", "CtxA:", "A", "ctxa:"}
	h.Check(t, h.Spec{ID: "U02", Quick: 3000, Thorough: 100000,
		Rule: "a tree of up to 14 contexts made by attaching values (19 types, 4 forms, optional names), logger values, foreign values, cancellations; every context is asked for every type at the end; non-trivial: a type attached twice on one path, or attached in one branch and not in another",
	}, func(c *h.C) {
		bg, stop := context.WithCancel(context.Background())
		defer stop()
		nodes := []*ctxNode{{ctx: bg, held: map[string]held{}}}
		over, branch := false, false
		used := map[string]bool{}
		pool := ctxTypes
		if h.Pct(c.T, 60, "few types") { // often the same few types
			pool = []ctxType{rapid.SampledFrom(ctxTypes).Draw(c.T, "t1"), rapid.SampledFrom(ctxTypes).Draw(c.T, "t2"), rapid.SampledFrom(ctxTypes).Draw(c.T, "t3")}
		}
		steps := rapid.IntRange(3, 13).Draw(c.T, "steps")
		for i := 1; i <= steps; i++ {
			from := nodes[rapid.IntRange(0, len(nodes)-1).Draw(c.T, "from")]
			n := &ctxNode{held: map[string]held{}, log: from.log}
			for k, v := range from.held {
				n.held[k] = v
			}
			switch rapid.IntRange(0, 9).Draw(c.T, "op") {
			case 0:
				var cancel func()
				n.ctx, cancel = context.WithCancel(from.ctx)
				if rapid.Bool().Draw(c.T, "cancel") {
					cancel()
				} else {
					defer cancel()
				}
				n.path = from.path + "/cancel"
			case 1:
				n.ctx = context.WithValue(from.ctx, h.Pick[interface{}](c.T, "foreign", "k", 1, ctxStr("x"), reflect.TypeOf(1)), "foreign")
				n.path = from.path + "/foreign"
			case 2:
				l := strip.Logger(strip.NewLogger(log.New(new(h.Sink), "", 0)))
				n.ctx = helpers.WithLogger(from.ctx, l)
				n.log = l
				n.path = from.path + "/logger"
			default:
				typ := rapid.SampledFrom(pool).Draw(c.T, "type")
				form := h.Pick(c.T, "form", 0, 0, 0, 1, 1, 1, 2, 3)
				name := h.Pick(c.T, "name", "", "", "", "a", "b", ":", "a:b", "CtxA:")
				var extra []string
				if name != "" || rapid.Bool().Draw(c.T, "empty name") {
					extra = []string{name}
				}
				var v held
				if e := h.Try(func() { n.ctx, v = typ.attach(from.ctx, form, i, extra...) }); e != nil {
					c.Fatalf("attaching a %s (form %d) panics: %v", typ.name(), form, e)
				}
				key := typ.name() + "\x00" + name
				_, had := n.held[key]
				over = over || had
				branch = branch || used[key] && !had
				used[key] = true
				n.held[key] = v
				n.path = fmt.Sprintf("%s/%s form %d name %q", from.path, typ.name(), form, name)
			}
			nodes = append(nodes, n)
		}
		ask := map[string]bool{}
		for _, ty := range pool {
			ask[ty.name()] = true
		}
		for _, n := range nodes {
			for _, typ := range ctxTypes {
				if !ask[typ.name()] && !h.Thorough() && n != nodes[len(nodes)-1] {
					continue
				}
				for _, name := range names {
					var want *held
					if v, ok := n.held[typ.name()+"\x00"+name]; ok {
						want = &v
					}
					var extra []string
					if name != "" {
						extra = []string{name}
					}
					if msg := typ.check(n.ctx, want, extra...); msg != "" {
						c.Fatalf("context %s, name %q: %s", n.path, name, msg)
					}
				}
			}
			want := n.log
			if want == nil {
				want = helpers.X
			}
			if got := helpers.GetLogger(n.ctx); got != want {
				c.Fatalf("context %s: GetLogger gives %v, expected %v", n.path, got, want)
			}
		}
		c.Label("contexts %d", len(nodes))
		if over || branch {
			key := ""
			for _, n := range nodes {
				key += n.path + "; "
			}
			c.NonTrivial(key)
		}
	})
}

func TestU02_Misuse(t *testing.T) {
	h.Check(t, h.Spec{ID: "U02", Quick: 300, Thorough: 3000,
		Rule: "values that cannot be context values (base types, non-pointers, three pointers deep) must be refused by attach and find alike; non-trivial: every case",
	}, func(c *h.C) {
		b, i, i64, s, f, by, u := true, 1, int64(1), "s", 1.5, byte(1), uint(1)
		a := CtxA{1}
		pa := &a
		ppa := &pa
		v := h.Pick[interface{}](c.T, "value", &b, &i, &i64, &s, &f, &by, &u, 1, "s", a, ctxStr("x"), []int{1}, map[string]int{}, &ppa)
		c.NonTrivial(fmt.Sprintf("%T", v))
		if e := h.Try(func() { utils.CtxWithValue(context.Background(), v) }); e == nil {
			c.Fatalf("attaching a %T is accepted", v)
		}
		if e := h.Try(func() { utils.CtxFindValue(context.Background(), v) }); e == nil {
			c.Fatalf("finding a %T is accepted", v)
		}
	})
}
