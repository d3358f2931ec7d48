package web

import (
	"errors"
	"fmt"
	"html"
	"log"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"testing"

	"github.com/wujiu2020/strip"
	"pgregory.net/rapid"

	"verif/pbt/internal/h"
	"verif/pbt/web/places"
	"verif/pbt/web/places/inner"
)

// The places that panic are marked by comments at their lines.

//go:noinline
func panicDirect(v interface{}) {
	panic(v) // at direct
}

//go:noinline
func panicDeep(n int, v interface{}) {
	if n == 0 {
		panic(v) // at deep
	}
	panicDeep(n-1, v) // at again
}

var (
	anyInt  int
	anyText string
	anyMap  map[string]int
	anyPtr  *struct{ x [9]int }
)

//go:noinline
func panicMap() {
	anyMap["x"] = 1 // at map
}

//go:noinline
func panicPointer() {
	anyInt = anyPtr.x[3] // at pointer
}

//go:noinline
func panicIndex(s []int, i int) {
	anyInt = s[i] // at index
}

//go:noinline
func panicConvert(v interface{}) {
	anyText = v.(fmt.Stringer).String() // at convert
}

//go:noinline
func panicDeferred(v interface{}) {
	defer func() {
		panic(v) // at deferred
	}()
	anyInt++
}

//go:noinline
func panicAgain(v interface{}) {
	defer func() {
		recover()
		panic(v) // at repanic
	}()
	panic("the first one")
}

//go:noinline
func panicLibrary(n int) {
	anyText = strings.Repeat("x", n) // at library
}

//go:noinline
func panicClose(c chan int) {
	close(c) // at close
}

type panicController struct {
	Ctx strip.Context `inject`
}

var panicValue interface{}

func (p *panicController) Do() {
	panic(panicValue) // at method
}

type panicProvided struct{}

// site is a marked line.
type site struct {
	file string
	line int
}

var sources = map[string][]string{}

// source is the text of a line, if its file can be read.
func source(file string, line int) (string, bool) {
	text, known := sources[file]
	if !known {
		if b, err := os.ReadFile(file); err == nil {
			text = strings.Split(string(b), "\n")
		}
		sources[file] = text
	}
	if text == nil {
		return "", false
	}
	if line < 1 || line > len(text) {
		return "", true
	}
	return strings.TrimSpace(text[line-1]), true
}

// sites finds the marked lines of this file and the package places.
func sites() (own map[string]bool, at map[string]site) {
	_, file, _, _ := runtime.Caller(0)
	own, at = map[string]bool{}, map[string]site{}
	for _, name := range []string{"h06_test.go", "places/context.go", "places/value.go", "places/xvalue.go", "places/inner/value.go"} {
		f := filepath.Join(filepath.Dir(file), name)
		own[f] = true
		b, err := os.ReadFile(f)
		h.Env(err)
		for i, l := range strings.Split(string(b), "\n") {
			if k := strings.Index(l, " // at "); k > 0 {
				at[strings.TrimSpace(l[k+7:])] = site{f, i + 1}
			}
		}
	}
	const gone = "/nonexistent/verif/gone.go"
	own[gone] = true
	at["in gone"], at["in call gone"] = site{gone, 1}, site{gone, 3}
	return
}

// names of the functions at the marks, as far as they have one.
var names = map[string]string{"direct": "panicDirect", "deep": "panicDeep", "again": "panicDeep", "map": "panicMap", "pointer": "panicPointer", "index": "panicIndex", "convert": "panicConvert",
	"library": "panicLibrary", "close": "panicClose", "method": "(*panicController).Do", "in context": "InContext", "in value": "InValue", "call": "Call", "in twin": "Value", "in like": "CallX", "in var": "InVar"}

type frame struct {
	file string
	line int
	next string // what is said about it
}

var reFrame = regexp.MustCompile(`^(/?[^\t].*):([0-9]+) \(?0x[0-9a-f]+\)?$`)

func frames(text string) (fs []frame) {
	for _, l := range strings.Split(text, "\n") {
		if m := reFrame.FindStringSubmatch(l); m != nil {
			var n int
			fmt.Sscan(m[2], &n)
			fs = append(fs, frame{m[1], n, ""})
		} else if strings.HasPrefix(l, "\t") && len(fs) > 0 {
			fs[len(fs)-1].next += l
		}
	}
	return
}

type namedError struct{ text string }

func (e namedError) Error() string { return e.text }

type named struct {
	A string
	B int
}

var reTag = regexp.MustCompile(`<[^>]*>`)

// TestH06 panics at known places with generated values and reads the reports.
func TestH06(t *testing.T) {
	mine, lines := sites()
	h.Check(t, h.Spec{ID: "H06", Quick: 1200, Thorough: 60000,
		Rule: "Panics with generated values (texts with markup, formats and newlines, errors, numbers, structs, runtime errors) at 19 kinds of places (handlers, nested calls, controller methods, files that are gone, filters, constructors, deferred functions, panics on the way out of panics, the library and runtime) in all run modes; the log record and the page must show the value, and the frames of the panicking code and its callers in order with their functions and all frames with the text of their source lines; the page must have the same tags for every value. Non-trivial: a page, or a panic below the handler.",
	}, func(c *h.C) {
		texts := rapid.OneOf(rapid.SampledFrom([]string{"bang", "<b>bang</b>", "</title><script>alert(1)</script>", "a & b", "100%d %s", "two\nlines", "\"quoted\" 'single'", "", "</pre></div>", "<!--", "é <", "&lt;b&gt;", "/x (y)"}), rapid.StringN(0, 20, -1), rapid.Custom(func(t *rapid.T) string { return h.Text(h.Size(t, "long", 20000)) }))
		var value, plain interface{}
		shown := ""
		switch s := texts.Draw(c.T, "text"); h.Pick(c.T, "value", "string", "string", "error", "wrapped", "named", "struct", "tagged", "int", "float", "pointer") {
		case "string":
			value, plain, shown = s, "x", s
		case "error":
			value, plain, shown = errors.New(s), errors.New("x"), s
		case "wrapped":
			value, plain, shown = fmt.Errorf("w: %w", namedError{s}), fmt.Errorf("w: %w", namedError{"x"}), "w: "+s
		case "named":
			value, plain, shown = namedError{s}, namedError{"x"}, s
		case "struct":
			value, plain, shown = named{s, 7}, named{"x", 7}, s
		case "tagged":
			// a type whose name reads like markup
			type plainText struct{ S string }
			value, plain, shown = struct {
				S string `<b>x</b>`
			}{s}, plainText{"x"}, s
		case "int":
			value, plain, shown = 12345, 12345, "12345"
		case "float":
			value, plain, shown = 1.25, 1.25, "1.25"
		case "pointer":
			value, plain, shown = &named{s, 7}, &named{"x", 7}, s
		}
		place := h.Pick(c.T, "place", "direct", "deep", "map", "pointer", "index", "convert", "deferred", "repanic", "library", "close", "method", "handler", "same file names", "twins", "no source", "filter", "provider", "route filter")
		n := rapid.IntRange(0, 20).Draw(c.T, "depth")
		if place == "deep" && h.Pct(c.T, 10, "very deep") {
			n = rapid.IntRange(20, 400).Draw(c.T, "depth")
		}
		mode := h.Pick(c.T, "mode", "dev", "dev", "dev", "test", "prod", "")
		want := []string{place}
		ask := func(v interface{}) (*httptest.ResponseRecorder, []string) {
			sp := strip.New()
			sink := new(h.Sink)
			l := strip.NewLogger(log.New(sink, "", 0))
			l.SetFlatLine(false)
			l.SetLineInfo(h.Pct(c.T, 50, "line info"))
			sp.SetLogger(l)
			sp.Config.RunMode = strip.Mode(mode)
			if h.Pct(c.T, 30, "earlier filter") {
				sp.Filter(func(rw http.ResponseWriter) { rw.Header().Set("X-Early", "1") })
			}
			sp.Filter(strip.RecoveryFilter(), strip.GenericOutFilter())
			panicValue = v
			args := []interface{}{}
			var act interface{} = func() {}
			switch place {
			case "direct":
				act, want = func() {
					panicDirect(v) // at handler direct
				}, []string{"direct", "handler direct"}
			case "deep":
				act, want = func() {
					panicDeep(n, v) // at handler deep
				}, []string{"deep"}
				for i := 0; i < n; i++ {
					want = append(want, "again")
				}
				want = append(want, "handler deep")
			case "map":
				act, want = func() {
					panicMap() // at handler map
				}, []string{"map", "handler map"}
			case "pointer":
				act, want = func() {
					panicPointer() // at handler pointer
				}, []string{"pointer", "handler pointer"}
			case "index":
				act, want = func() {
					panicIndex([]int{1, 2}, n+2) // at handler index
				}, []string{"index", "handler index"}
			case "convert":
				act, want = func() {
					panicConvert(named{}) // at handler convert
				}, []string{"convert", "handler convert"}
			case "deferred":
				act, want = func() {
					panicDeferred(v) // at handler deferred
				}, []string{"deferred"}
			case "repanic":
				act, want = func() {
					panicAgain(v) // at handler repanic
				}, []string{"repanic"}
			case "library":
				act, want = func() {
					panicLibrary(-1 - n) // at handler library
				}, []string{"library", "handler library"}
			case "close":
				act, want = func() {
					panicClose(nil) // at handler close
				}, []string{"close", "handler close"}
			case "same file names":
				act, want = func() {
					places.Call(func() {
						places.InValue(v) // at handler in value
					})
				}, []string{"in context", "in value", "handler in value", "call"}
			case "twins":
				places.V = v
				act, want = func() {
					places.CallX(places.InVar) // at handler like
				}, []string{"in context", "in value", "in var", "in like", "handler like"}
				if n%2 == 0 {
					act, want = func() {
						inner.Value(places.InVar) // at handler twin
					}, []string{"in context", "in value", "in var", "in twin", "handler twin"}
				}
			case "no source":
				act, want = func() {
					do := func() {
						panicDirect(v) // at over gone
					}
					places.CallGone(do) // at under gone
				}, []string{"direct", "over gone", "in gone", "in call gone", "under gone"}
				if n%2 == 0 {
					places.V = v
					act, want = func() {
						places.CallGone(places.InVar) // at handler gone
					}, []string{"in context", "in value", "in var", "in gone", "in call gone", "handler gone"}
				}
			case "method":
				sp.Routers(strip.Router("/x", strip.Get(&panicController{}).Action("Do")))
				want = []string{"method"}
			case "handler":
				act, want = func() {
					panic(v) // at handler itself
				}, []string{"handler itself"}
			case "filter":
				sp.Filter(func() {
					panic(v) // at filter
				})
			case "route filter":
				args = append(args, func(ctx strip.Context) {
					panicDirect(v) // at route filter
				})
				want = []string{"direct", "route filter"}
			case "provider":
				sp.Provide(func() *panicProvided {
					panic(v) // at provider
				})
				act = func(p *panicProvided) {}
			}
			if place != "method" {
				if len(args) > 0 {
					sp.Routers(strip.Router("/x", strip.Filter(args...), strip.Get(act)))
				} else {
					sp.Routers(strip.Router("/x", strip.Get(act)))
				}
			}
			rec := httptest.NewRecorder()
			sp.ServeHTTP(rec, httptest.NewRequest("GET", "/x", nil))
			return rec, sink.Take()
		}
		rec, recs := ask(value)
		own := true // the value is the generated one
		switch place {
		case "map":
			own, shown = false, "assignment to entry in nil map"
		case "pointer":
			own, shown = false, "nil pointer dereference"
		case "index":
			own, shown = false, fmt.Sprintf("index out of range [%d] with length 2", n+2)
		case "convert":
			own, shown = false, "missing method String"
		case "library":
			own, shown = false, "negative Repeat count"
		case "close":
			own, shown = false, "close of nil channel"
		}
		what := fmt.Sprintf("mode %q, panic %s (depth %d) with %T %#v", mode, place, n, value, value)
		if rec.Code != 500 {
			c.Fatalf("%s: status %d", what, rec.Code)
		}
		if len(recs) != 1 {
			c.Fatalf("%s: %d records: %q", what, len(recs), recs)
		}
		trace := func(where, report string) {
			fs := frames(report)
			at := -1
			for i, f := range fs {
				if mine[f.file] {
					if (site{f.file, f.line}) == lines[want[0]] {
						at = i
					}
					break
				}
			}
			if at < 0 {
				c.Fatalf("%s: the panicking line %v is not the first one of the program in the stack of the %s:\n%s", what, lines[want[0]], where, report)
			}
			for i, w := range want {
				if at+i >= len(fs) || (site{fs[at+i].file, fs[at+i].line}) != lines[w] {
					c.Fatalf("%s: frame %d from the panic in the %s should be line %v (%s):\n%s", what, i, where, lines[w], w, report)
				}
				if fn := names[w]; fn != "" && !strings.HasPrefix(fs[at+i].next, "\t"+fn+": ") {
					c.Fatalf("%s: frame %d from the panic in the %s is in %s, it says %q", what, i, where, fn, fs[at+i].next)
				}
			}
			for _, f := range fs {
				src, ok := source(f.file, f.line)
				if ok && (!strings.Contains(f.next, ": ") || !strings.HasSuffix(f.next, ": "+src)) {
					c.Fatalf("%s: the line %s:%d is %q, the %s says %q", what, f.file, f.line, src, where, f.next)
				}
				if !ok && f.next != "" {
					// there is no text to show, and it is not that of another file
					for _, g := range fs {
						if other, ok := source(g.file, f.line); ok && other != "" && strings.HasSuffix(f.next, ": "+other) {
							c.Fatalf("%s: %s can not be read, the %s says of line %d %q, which is in %s", what, f.file, where, f.line, f.next, g.file)
						}
					}
				}
			}
		}
		trace("record", recs[0])
		if own {
			if !strings.Contains(recs[0], fmt.Sprintf("%#v", value)) && !strings.Contains(recs[0], fmt.Sprintf("%v", value)) {
				c.Fatalf("%s: the value is not in the record\n%s", what, recs[0])
			}
		} else if !strings.Contains(recs[0], shown) && !strings.Contains(recs[0], "runtime.") {
			c.Fatalf("%s: the record does not say %q\n%s", what, shown, recs[0])
		}
		body := rec.Body.String()
		if mode != "dev" {
			if body != "" {
				c.Fatalf("%s: the client gets %q", what, body)
			}
			if len(want) > 1 {
				c.NonTrivial(what)
			}
			return
		}
		if ct := rec.Header().Get("Content-Type"); !strings.HasPrefix(ct, "text/html") {
			c.Fatalf("%s: the page is %q", what, ct)
		}
		for _, tag := range []string{"title", "h1"} {
			i, j := strings.Index(body, "<"+tag+">"), strings.Index(body, "</"+tag+">")
			if i < 0 || j < i {
				c.Fatalf("%s: the page has no %s", what, tag)
			}
			got := html.UnescapeString(body[i+len(tag)+2 : j])
			if !strings.Contains(got, shown) {
				c.Fatalf("%s: the %s is %q", what, tag, got)
			}
			if strings.Contains(body[i+len(tag)+2:j], "<") {
				c.Fatalf("%s: markup in the %s: %q", what, tag, body[i:j])
			}
		}
		trace("page", html.UnescapeString(reTag.ReplaceAllString(body, "")))
		if own {
			other, _ := ask(plain)
			a, b := reTag.FindAllString(body, -1), reTag.FindAllString(other.Body.String(), -1)
			if strings.Join(a, "") != strings.Join(b, "") {
				c.Fatalf("%s: the value changes the structure of the page:\n%.600s", what, body[strings.Index(body, "<body>"):])
			}
		}
		c.Label("%s", place)
		c.NonTrivial(what)
	})
}
