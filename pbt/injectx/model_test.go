package injectx

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/wujiu2020/strip/inject"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
)

// The pool of types that are provided and asked for. Every value carries an
// identity number.

type TA struct{ Id int }
type TB struct{ Id int }
type Gen[X any] struct{ Id int }
type Str string

type J0 interface{ J0() int }
type J1 interface{ J1() int }

type Impl struct{ Id int } // implements both
func (i *Impl) J0() int    { return i.num() }
func (i *Impl) J1() int    { return i.num() }
func (i *Impl) num() int {
	if i == nil {
		return 0
	}
	return i.Id
}

type Impl2 struct{ Id int }

func (i Impl2) J0() int { return i.Id }

// two types of the same package that are printed alike
func localOne() reflect.Type {
	type local struct{ Id int }
	return reflect.TypeOf(local{})
}
func localTwo() reflect.Type {
	type local struct{ Id int }
	return reflect.TypeOf(local{})
}

// base is a type values are provided for (never a pointer).
type base struct {
	typ reflect.Type
	mk  func(id int) reflect.Value // a value of typ
	id  func(v reflect.Value) int
}

func structBase(t reflect.Type) base {
	return base{t, func(id int) reflect.Value {
		v := reflect.New(t).Elem()
		v.Field(0).SetInt(int64(id))
		return v
	}, func(v reflect.Value) int { return int(v.Field(0).Int()) }}
}

func typeOf[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

var bases = []base{
	structBase(typeOf[TA]()),
	structBase(typeOf[TB]()),
	structBase(typeOf[Gen[int]]()),
	structBase(typeOf[Gen[string]]()),
	structBase(localOne()),
	structBase(localTwo()),
	structBase(typeOf[struct{ Id int }]()),
	structBase(typeOf[struct {
		Id  int
		Two int
	}]()),
	{typeOf[[]int](), func(id int) reflect.Value { return reflect.ValueOf([]int{id}) }, func(v reflect.Value) int {
		if v.Len() == 0 {
			return 0
		}
		return int(v.Index(0).Int())
	}},
	{typeOf[[]string](), func(id int) reflect.Value { return reflect.ValueOf([]string{strconv.Itoa(id)}) }, func(v reflect.Value) int {
		if v.Len() == 0 {
			return 0
		}
		n, _ := strconv.Atoi(v.Index(0).String())
		return n
	}},
	{typeOf[map[string]int](), func(id int) reflect.Value { return reflect.ValueOf(map[string]int{"id": id}) }, func(v reflect.Value) int {
		return v.Interface().(map[string]int)["id"]
	}},
	{typeOf[string](), func(id int) reflect.Value { return reflect.ValueOf(strconv.Itoa(id)) }, func(v reflect.Value) int {
		n, _ := strconv.Atoi(v.String())
		return n
	}},
	{typeOf[Str](), func(id int) reflect.Value { return reflect.ValueOf(Str(strconv.Itoa(id))) }, func(v reflect.Value) int {
		n, _ := strconv.Atoi(v.String())
		return n
	}},
	{typeOf[J0](), func(id int) reflect.Value {
		v := reflect.New(typeOf[J0]()).Elem()
		if id%2 == 0 {
			v.Set(reflect.ValueOf(&Impl{id}))
		} else {
			v.Set(reflect.ValueOf(Impl2{id}))
		}
		return v
	}, func(v reflect.Value) int {
		if v.IsNil() {
			return 0
		}
		return v.Interface().(J0).J0()
	}},
	{typeOf[J1](), func(id int) reflect.Value {
		v := reflect.New(typeOf[J1]()).Elem()
		v.Set(reflect.ValueOf(&Impl{id}))
		return v
	}, func(v reflect.Value) int {
		if v.IsNil() {
			return 0
		}
		return v.Interface().(J1).J1()
	}},
	structBase(typeOf[Impl]()),
}

// ident is the identity of a value of the base type or a pointer to it; 0 for
// a nil pointer or zero value.
func (b base) ident(v reflect.Value) int {
	for v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return 0
		}
		if v.Type() == typeOf[*Impl]() {
			return v.Interface().(*Impl).Id
		}
		v = v.Elem()
	}
	if v.Type() == typeOf[Impl]() {
		return v.Interface().(Impl).Id
	}
	return b.id(v)
}

type key struct {
	base int
	name string
}

func (k key) String() string {
	s := fmt.Sprintf("%v", bases[k.base].typ)
	if s == "injectx.local" {
		s += strconv.Itoa(k.base)
	}
	if k.name != "" {
		s += "@" + k.name
	}
	return s
}

type want struct {
	k   key
	typ reflect.Type // as what it is asked for
}

func (w want) String() string { return fmt.Sprintf("%v as %v", w.k, w.typ) }

type mprov struct {
	id     int
	value  bool
	vid    int          // identity of the value
	typ    reflect.Type // type of the provided value
	deps   []want
	panics bool
	nilOut bool
}

// inst is a resolved value.
type inst struct {
	id  int
	typ reflect.Type
}

type minj struct {
	parent *minj
	provs  map[key]*mprov
	cache  map[key]inst
}

// model is the reference of a tree of injectors.
type model struct {
	next int // next identity
	runs []string
}

type mpanic struct{ id int }

func (in *minj) get(k key) *mprov {
	for ; in != nil; in = in.parent {
		if p := in.provs[k]; p != nil {
			return p
		}
	}
	return nil
}

// assign models an assignment of a resolved value: a pointer also gives the
// value it points to.
func assign(o inst, to reflect.Type) (int, bool) {
	if o.typ.AssignableTo(to) || o.typ.Kind() == reflect.Ptr && o.typ.Elem().AssignableTo(to) {
		return o.id, true
	}
	return 0, false
}

func (m *model) resolve(in *minj, k key, stack map[key]bool) (inst, bool) {
	p := in.get(k)
	if p == nil || stack[k] {
		return inst{}, false
	}
	if o, ok := in.cache[k]; ok {
		return o, true
	}
	if p.value {
		return inst{p.vid, p.typ}, true
	}
	stack[k] = true
	args, ok := m.args(in, p.deps, stack)
	delete(stack, k)
	if !ok {
		return inst{}, false
	}
	m.runs = append(m.runs, fmt.Sprintf("ctor%d%v", p.id, args))
	if p.panics {
		panic(mpanic{p.id})
	}
	id := 0
	if !p.nilOut {
		m.next++
		id = m.next
	}
	o := inst{id, p.typ}
	in.cache[k] = o
	return o, true
}

func (m *model) args(in *minj, deps []want, stack map[key]bool) ([]int, bool) {
	args := []int{}
	for _, d := range deps {
		o, ok := m.resolve(in, d.k, stack)
		if !ok {
			return nil, false
		}
		id, ok := assign(o, d.typ)
		if !ok {
			return nil, false
		}
		args = append(args, id)
	}
	return args, true
}

// world holds the injectors under test next to their models.
type world struct {
	c    *h.C
	m    model
	injs []inject.Injector
	mods []*minj
	runs []string // what really ran
	next int
	prov int
	log  []string

	nested, errs, cached int
}

func (w *world) add(parent int) {
	inj, mod := inject.New(), &minj{provs: map[key]*mprov{}, cache: map[key]inst{}}
	if parent >= 0 {
		if h.Pct(w.c.T, 15, "another parent first") {
			inj.SetParent(rapid.SampledFrom(w.injs).Draw(w.c.T, "first parent"))
		}
		inj.SetParent(w.injs[parent])
		mod.parent = w.mods[parent]
	}
	w.injs, w.mods = append(w.injs, inj), append(w.mods, mod)
}

var nBases = len(bases)

func genKey(t *rapid.T, pool int) key {
	return key{rapid.IntRange(0, pool-1).Draw(t, "type"), h.Pick(t, "name", "", "", "", "", "x", "y", h.Pick(t, "odd name", "X", " x", "y ", "xy", " "))}
}

// genWant asks for a key as a plain type or as a pointer.
func genWant(t *rapid.T, k key) want {
	typ := bases[k.base].typ
	if typ.Kind() != reflect.Interface && h.Pct(t, 60, "ptr") {
		typ = reflect.PtrTo(typ)
	}
	return want{k, typ}
}

// function builds a real function with the given parameters.
func (w *world) function(deps []want, outs []reflect.Type, body func(args []int) []reflect.Value) interface{} {
	ins := make([]reflect.Type, len(deps))
	dep := inject.Dep{}
	for i, d := range deps {
		ins[i] = d.typ
		if d.k.name != "" {
			dep[i] = d.k.name
		}
	}
	f := reflect.MakeFunc(reflect.FuncOf(ins, outs, false), func(in []reflect.Value) []reflect.Value {
		args := []int{}
		for i, v := range in {
			args = append(args, bases[deps[i].k.base].ident(v))
		}
		return body(args)
	}).Interface()
	if len(dep) > 0 {
		return inject.Provide{dep, f}
	}
	return f
}

// out builds the value of identity id as type typ for the base.
func mkOut(b base, typ reflect.Type, id int) reflect.Value {
	if id == 0 {
		return reflect.Zero(typ)
	}
	if typ == typeOf[*Impl]() {
		return reflect.ValueOf(&Impl{id})
	}
	v := b.mk(id)
	if typ == b.typ {
		return v
	}
	p := reflect.New(b.typ)
	p.Elem().Set(v)
	return p
}

// register provides k in injector i in one of the spellings of the interface.
func (w *world) register(i int, k key, real interface{}, as bool, desc string) {
	t := w.c.T
	inj := w.injs[i]
	typ := bases[k.base].typ
	var asv interface{}
	if as || h.Pct(t, 30, "provide as") {
		asv = reflect.Zero(reflect.PtrTo(typ)).Interface()
	}
	how := h.Pick(t, "how", "Provide", "Object", "*Object", "ProvideAs")
	if how == "Provide" && (k.name != "" || asv != nil) {
		how = "ProvideAs"
	}
	switch how {
	case "Provide":
		inj.Provide(real)
	case "Object":
		inj.Provide(inject.Object{Value: real, Type: asv, Name: k.name})
	case "*Object":
		inj.Provide(&inject.Object{Value: real, Type: asv, Name: k.name})
	case "ProvideAs":
		if k.name != "" || h.Pct(t, 50, "give name") {
			inj.ProvideAs(real, asv, k.name)
		} else {
			inj.ProvideAs(real, asv)
		}
	}
	w.log = append(w.log, fmt.Sprintf("inj%d %s %v: %s", i, how, k, desc))
	delete(w.mods[i].cache, k)
}

func (w *world) provideValue(i int, k key) {
	t := w.c.T
	b := bases[k.base]
	w.m.next++
	w.next++
	id := w.next
	p := &mprov{value: true, vid: id}
	as := false
	var real interface{}
	if b.typ.Kind() == reflect.Interface && h.Pct(t, 60, "impl") {
		real, as = &Impl{id}, true
		p.typ = typeOf[*Impl]()
	} else {
		real = mkOut(b, reflect.PtrTo(b.typ), id).Interface()
		p.typ = reflect.PtrTo(b.typ)
	}
	w.register(i, k, real, as, fmt.Sprintf("value %d", id))
	w.mods[i].provs[k] = p
}

func (w *world) provideCtor(i int, k key, deps []want) {
	t := w.c.T
	b := bases[k.base]
	w.prov++
	p := &mprov{id: w.prov, deps: deps}
	as := false
	out := b.typ
	switch {
	case b.typ.Kind() == reflect.Interface:
		if h.Pct(t, 50, "impl") {
			out, as = typeOf[*Impl](), true
		}
	case h.Pct(t, 70, "pointer"):
		out = reflect.PtrTo(b.typ)
	}
	p.typ = out
	p.panics = h.Pct(t, 4, "panics")
	p.nilOut = h.Pct(t, 6, "nil")
	outs := []reflect.Type{out}
	if h.Pct(t, 20, "second result") {
		outs = append(outs, typeOf[int]())
	}
	id := p.id
	f := w.function(deps, outs, func(args []int) []reflect.Value {
		w.runs = append(w.runs, fmt.Sprintf("ctor%d%v", id, args))
		if p.panics {
			panic(mpanic{id})
		}
		vid := 0
		if !p.nilOut {
			w.next++
			vid = w.next
		}
		r := []reflect.Value{mkOut(b, out, vid)}
		if len(outs) > 1 {
			r = append(r, reflect.ValueOf(7))
		}
		return r
	})
	w.register(i, k, f, as, fmt.Sprintf("ctor%d%v %v panics=%v nil=%v", id, deps, out, p.panics, p.nilOut))
	w.mods[i].provs[k] = p
}

// both runs the model and the code and compares what ran and what panicked.
func (w *world) both(what string, model func() bool, real func() error) bool {
	w.log = append(w.log, what)
	w.m.runs, w.runs = nil, nil
	var ok bool
	mp := h.Try(func() { ok = model() })
	var err error
	var rp interface{}
	h.Within(what, func() { rp = h.Try(func() { err = real() }) })
	if !reflect.DeepEqual(mp, rp) {
		w.c.Fatalf("%s\npanic: %v, want %v", w, rp, mp)
	}
	if strings.Join(w.runs, ",") != strings.Join(w.m.runs, ",") {
		w.c.Fatalf("%s\nran %v, want %v", w, w.runs, w.m.runs)
	}
	if mp != nil {
		// identities stay in step
		if w.next != w.m.next {
			w.c.Fatalf("%s\nvalues made: %d, want %d", w, w.next, w.m.next)
		}
		return false
	}
	if (err == nil) != ok {
		w.c.Fatalf("%s\nerror %v, want success %v", w, err, ok)
	}
	if len(w.runs) > 1 {
		w.nested++
	}
	if !ok {
		w.errs++
	}
	return ok
}

func (w *world) String() string { return strings.Join(w.log, "\n") }

func (w *world) find(i int, wt want) {
	t := w.c.T
	dst := reflect.New(wt.typ)
	b := bases[wt.k.base]
	preset := 0
	if wt.typ == b.typ && b.typ.Kind() != reflect.Interface && h.Pct(t, 30, "preset") {
		preset = -5
		dst.Elem().Set(mkOut(b, b.typ, preset))
	}
	var id int
	if w.both(fmt.Sprintf("inj%d.Find(%v)", i, wt), func() bool {
		o, ok := w.m.resolve(w.mods[i], wt.k, map[key]bool{})
		if !ok {
			return false
		}
		id, ok = assign(o, wt.typ)
		if ok && id == 0 && o.typ.Kind() == reflect.Ptr && !o.typ.AssignableTo(wt.typ) {
			id = preset // nothing there to copy
		}
		return ok
	}, func() error {
		if wt.k.name == "" && h.Pct(t, 50, "no name") {
			return w.injs[i].Find(dst.Interface())
		}
		return w.injs[i].Find(dst.Interface(), wt.k.name)
	}) {
		if got := b.ident(dst.Elem()); got != id {
			w.c.Fatalf("%s\nfound %d, want %d", w, got, id)
		}
	} else if got := b.ident(dst.Elem()); got != preset {
		w.c.Fatalf("%s\ndestination became %d although it failed", w, got)
	}
}

func (w *world) exists(i int, k key) {
	b := bases[k.base]
	typ := b.typ
	if typ.Kind() != reflect.Interface {
		typ = reflect.PtrTo(typ)
	}
	dst := reflect.New(typ)
	p := w.mods[i].get(k)
	w.both(fmt.Sprintf("inj%d.Exists(%v)", i, k), func() bool { return p != nil }, func() error {
		return w.injs[i].Exists(dst.Interface(), k.name)
	})
	if p != nil && p.value {
		if got := b.ident(dst.Elem()); got != p.vid {
			w.c.Fatalf("%s\nExists gave %d, want %d", w, got, p.vid)
		}
	} else if got := b.ident(dst.Elem()); got != 0 {
		w.c.Fatalf("%s\nExists gave %d for a constructor", w, got)
	}
}

func (w *world) invoke(i int, deps []want, outs []want) {
	var want []int
	types := []reflect.Type{}
	for _, o := range outs {
		types = append(types, o.typ)
	}
	panics := h.Pct(w.c.T, 4, "panics")
	f := w.function(deps, types, func(args []int) []reflect.Value {
		w.runs = append(w.runs, fmt.Sprintf("called%v", args))
		if panics {
			panic(mpanic{-1})
		}
		r := []reflect.Value{}
		for _, o := range outs {
			w.next++
			r = append(r, mkOut(bases[o.k.base], o.typ, w.next))
		}
		return r
	})
	var res []reflect.Value
	if w.both(fmt.Sprintf("inj%d.Invoke(%v) %v panics=%v", i, deps, outs, panics), func() bool {
		args, ok := w.m.args(w.mods[i], deps, map[key]bool{})
		if !ok {
			return false
		}
		w.m.runs = append(w.m.runs, fmt.Sprintf("called%v", args))
		if panics {
			panic(mpanic{-1})
		}
		for range outs {
			w.m.next++
			want = append(want, w.m.next)
		}
		return true
	}, func() (err error) {
		res, err = w.injs[i].Invoke(f)
		return
	}) {
		if len(res) != len(outs) {
			w.c.Fatalf("%s\n%d results, want %d", w, len(res), len(outs))
		}
		for j, o := range outs {
			if res[j].Type() != o.typ || bases[o.k.base].ident(res[j]) != want[j] {
				w.c.Fatalf("%s\nresult %d is %v, want %v %d", w, j, res[j], o.typ, want[j])
			}
		}
	}
}
