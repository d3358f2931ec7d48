package logx

import (
	"errors"
	"fmt"
	"regexp"
	"strings"
	"testing"

	"github.com/wujiu2020/strip"
	"pgregory.net/rapid"

	"verif/pbt/internal/h"
)

// printer keeps what reaches the log output.
type printer struct {
	recs []string
	odd  string
}

func (p *printer) Print(v ...interface{}) {
	if len(v) != 1 {
		p.odd = fmt.Sprintf("Print called with %d values", len(v))
	} else if s, ok := v[0].(string); !ok {
		p.odd = fmt.Sprintf("Print called with a %T", v[0])
	} else {
		p.recs = append(p.recs, s)
		return
	}
}

type settings struct {
	reqID              string // not empty: a request logger
	level              strip.Level
	global             strip.Level
	prefix             string
	setPrefix          bool
	parser             string
	line, short, flat  bool
	stack              strip.Level
	depth              int
	order              int // order in which the settings are made
	defaultFlat, again bool
}

func (s settings) make(out strip.LogPrinter, color bool) strip.Logger {
	var l strip.LoggerAdv
	if s.reqID != "" {
		r := strip.NewReqLogger(out, s.reqID)
		if r.ReqId() != s.reqID {
			panic("ReqId is " + r.ReqId())
		}
		l = r
	} else {
		l = strip.NewLogger(out)
	}
	ops := []func(){
		func() { l.SetLevel(s.level) },
		func() {
			if s.setPrefix {
				l.SetPrefix("gone")
				l.SetPrefix(s.prefix)
			}
		},
		func() {
			if s.parser != "" {
				l.SetPrefixParser(s.parse)
			}
		},
		func() { l.SetLineInfo(s.line) },
		func() { l.SetShortLine(s.short) },
		func() {
			if !s.defaultFlat {
				l.SetFlatLine(s.flat)
			}
		},
		func() { l.EnableLogStack(s.stack) },
		func() {
			if s.depth != 4 {
				l.SetFuncDepth(s.depth)
			}
		},
		func() { l.SetColorMode(color) },
	}
	for i := range ops {
		ops[(i*2+s.order)%len(ops)]()
	}
	return l
}

func (s settings) parse(v []interface{}) (string, []interface{}) {
	switch s.parser {
	case "constant":
		return "{p}", v
	case "first":
		if len(v) > 0 {
			if x, ok := v[0].(string); ok {
				return "{" + x + "}", v[1:]
			}
		}
		return "", v
	}
	return "{none}", nil
}

var tags = []string{"[EMERGENCY]", "[ALERT]", "", "[ERROR]", "[WARN]", "[NOTICE]", "[INFO]", "[DEBUG]"}

func tag(level int) string {
	if level == 3 { // the label is misspelled; either form will do
		if strip.DefaultLevelTag[2] == "[CRITICAL]" {
			return "[CRITICAL]"
		}
		return "[CRITCIAL]"
	}
	return tags[level-1]
}

var reColor = regexp.MustCompile("\x1b\\[[0-9;]*m")
var rePC = regexp.MustCompile(`\(0x[0-9a-f]+\)`)

// oneLine is a text in flat mode.
func oneLine(s string) string {
	return strings.ReplaceAll(strings.TrimSuffix(s, "\n"), "\n", "\\n")
}

func genSettings(c *h.C) settings {
	t := c.T
	s := settings{
		level:       strip.Level(rapid.IntRange(0, 9).Draw(t, "level")),
		global:      strip.LevelDebug,
		line:        rapid.Bool().Draw(t, "line"),
		short:       h.Pct(t, 30, "short"),
		flat:        rapid.Bool().Draw(t, "flat"),
		depth:       4,
		order:       rapid.IntRange(0, 8).Draw(t, "order"),
		defaultFlat: h.Pct(t, 20, "default flat"),
	}
	if s.defaultFlat {
		s.flat = true
	}
	if h.Pct(t, 50, "verbose") {
		s.level = strip.LevelDebug
	}
	if h.Pct(t, 30, "global") {
		s.global = strip.Level(rapid.IntRange(0, 9).Draw(t, "global level"))
	}
	if h.Pct(t, 30, "req") {
		s.reqID = rapid.StringMatching(`[a-zA-Z0-9%]{1,16}`).Draw(t, "reqid")
	}
	if h.Pct(t, 50, "prefix") {
		s.setPrefix = true
		s.prefix = h.Pick(t, "prefix text", "", "[x]", "a b ", "%s", "\n")
	}
	if h.Pct(t, 30, "parser") {
		s.parser = h.Pick(t, "parser kind", "constant", "first", "all")
	}
	if h.Pct(t, 30, "stack") {
		s.stack = strip.Level(rapid.IntRange(0, 8).Draw(t, "stack level"))
	}
	if h.Pct(t, 30, "depth") {
		s.depth = h.Pick(t, "depth", 4, 5, 6, 0, -1, 1000)
	}
	return s
}

func genArgs(t *rapid.T) []interface{} {
	if h.Pct(t, 5, "large") {
		var a []interface{}
		for n := rapid.IntRange(1, 40).Draw(t, "many"); n > 0; n-- {
			a = append(a, n)
		}
		text := h.Text(h.Size(t, "text", 100000))
		if lines := 1 + h.Size(t, "lines", 300); len(text) > lines && h.Pct(t, 50, "lined") {
			text = strings.Repeat(text[:len(text)/lines]+"\n", lines)
		}
		return append(a, text, "end")
	}
	return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) interface{} {
		return h.Pick[interface{}](t, "arg", "x", "two words", "a\nb", "", "\n", 1, -2.5, nil, true, errors.New("bad"), []int{1, 2}, strip.LineOpt{Hidden: true, Depth: 2}, "PANIC", "STACK of", "panic of", "Stack", "a\r\nb", "%d", struct{ A string }{"q\n"})
	}), 0, 4).Draw(t, "args")
}

func TestL01(t *testing.T) {
	h.Check(t, h.Spec{ID: "L01", Quick: 15000, Thorough: 600000,
		Rule: "settings of a plain or request logger (level, global level, prefix, prefix parser, line information, short, flat, stack, call depth), one of 16 calls with format, values and optional trailing LineOpt, made once with and once without colour from known places; non-trivial: the record is emitted and has line information, a stack, a prefix or several lines",
	}, func(c *h.C) {
		s := genSettings(c)
		old := strip.GlobalLevel
		strip.GlobalLevel = s.global
		defer func() { strip.GlobalLevel = old }()

		lv := rapid.IntRange(1, 8).Draw(c.T, "call level")
		form := rapid.IntRange(0, 1).Draw(c.T, "formatting")
		f := h.Pick(c.T, "format", "plain", "%v", "%v and %d\n", "a\nb %s", "", "100%", "%!", "STACK %v", "PANIC: x", "panic: %v", "stack x", "a\r\nb %v", "%[1]v %[1]v")
		args := genArgs(c.T)
		opt := strip.LineOpt{}
		all := append([]interface{}(nil), args...)
		hasOpt := h.Pct(c.T, 40, "opt")
		if n := len(args); n > 0 && !hasOpt {
			if o, ok := args[n-1].(strip.LineOpt); ok {
				args, opt = args[:n-1], o
				hasOpt = true
			}
		} else if hasOpt {
			opt = strip.LineOpt{Depth: h.Pick(c.T, "opt depth", 0, 0, 1, 2), Stack: h.Pct(c.T, 25, "opt stack"), Hidden: h.Pct(c.T, 30, "hidden")}
			all = append(all, opt)
		}
		do := calls[lv-1][form]
		special := ""
		if h.Pct(c.T, 15, "other source") {
			lv, form = 4, 1
			switch rapid.IntRange(0, 3).Draw(c.T, "source") {
			case 0:
				do, special = shortCall, "/home/u/go/src/app/pkg/main.go"
			case 1:
				do, special = shortCall2, "/home/u/app/main.go"
			case 2:
				do, special = shortCall3, "/home/u/go/src/app/src/pkg/main.go"
			case 3:
				do, special = shortCall4, "/src/main.go"
			}
		}

		plain, color := new(printer), new(printer)
		ls := []strip.Logger{s.make(plain, false), s.make(color, true)}
		snap := fmt.Sprint(all)
		var sites []site
		if e := h.Try(func() { sites = chain(do, ls, f, all) }); e != nil {
			c.Fatalf("%+v: logging %q %#v panics: %v", s, f, all, e)
		}
		if fmt.Sprint(all) != snap {
			c.Fatalf("the logging call changed its values: %s, were %s", fmt.Sprint(all), snap)
		}

		desc := fmt.Sprintf("logger %+v, call level %d formatting %d with format %q values %#v", s, lv, form, f, all)
		if plain.odd != "" || color.odd != "" {
			c.Fatalf("%s: %s%s", desc, plain.odd, color.odd)
		}
		on := lv <= int(s.level) && lv <= int(s.global)
		if !on {
			if len(plain.recs)+len(color.recs) != 0 {
				c.Fatalf("%s: level is off and records are %q %q", desc, plain.recs, color.recs)
			}
			c.Label("off")
			return
		}
		if len(plain.recs) != 1 || len(color.recs) != 1 {
			c.Fatalf("%s: records are %q, in colour %q", desc, plain.recs, color.recs)
		}
		c.Label("on")

		prefix := ""
		if s.reqID != "" {
			prefix = "[" + s.reqID + "]"
		}
		if s.setPrefix {
			prefix += s.prefix
		}
		if s.parser != "" {
			var p string
			p, args = s.parse(args)
			prefix += p
		}
		msg := fmt.Sprintln(args...)
		if form == 1 {
			msg = fmt.Sprintf(f, args...)
		}
		depth := s.depth + opt.Depth
		info := ""
		if s.line && !opt.Hidden && depth > 0 && depth < 100 {
			if depth < 4 {
				return // places inside the logger
			}
			at := sites[depth-4]
			file := at.file
			if s.short {
				if i := strings.Index(file, "/src/"); i >= 0 {
					file = file[i+5:]
				}
			}
			if special != "" && depth == 4 && !strings.HasSuffix(special, file) {
				c.Fatalf("harness: place is %s, expected in %s", file, special)
			}
			info = fmt.Sprintf(`["%s:%d"]`, file, at.line)
		}
		want := tag(lv) + prefix + info + " " + msg
		marked := strings.HasPrefix(msg, "PANIC") || strings.HasPrefix(msg, "STACK")
		if marked && len(msg) == 5 {
			return
		}
		stack := (int(s.stack) >= lv || opt.Stack) && !marked
		got := plain.recs[0]
		if s.flat {
			if strings.Contains(got, "\n") {
				c.Fatalf("%s: flat record is %q", desc, got)
			}
			got = oneLine(got)
			if !stack {
				want = oneLine(want)
			} else {
				want = strings.ReplaceAll(want, "\n", "\\n")
			}
		}
		if !stack && got != want {
			c.Fatalf("%s: record is\n%q, expected\n%q", desc, got, want)
		}
		if stack {
			nl := "\n"
			if s.flat {
				nl = "\\n"
			}
			if depth >= 4 && depth < 100 {
				at := sites[depth-4]
				want += fmt.Sprintf("%s%s:%d (0x", nl, at.file, at.line)
			}
			if !strings.HasPrefix(got, want) {
				c.Fatalf("%s: record is\n%q, expected to start with\n%q", desc, got, want)
			}
		}
		col := color.recs[0]
		if !reColor.MatchString(col) {
			c.Fatalf("%s: no colour in colour mode: %q", desc, col)
		}
		if x, y := rePC.ReplaceAllString(reColor.ReplaceAllString(col, ""), ""), rePC.ReplaceAllString(plain.recs[0], ""); x != y {
			c.Fatalf("%s: colour mode changes the record to\n%q, without\n%q", desc, x, y)
		}
		if info != "" || stack || prefix != "" || strings.Contains(msg, "\n") {
			c.NonTrivial(desc)
		}
	})
}

func TestL01_Recover(t *testing.T) {
	h.Check(t, h.Spec{ID: "L01", Quick: 2000, Thorough: 60000,
		Rule: "Recover over functions that panic with values or run-time errors at several depths, or do not panic; non-trivial: a panic is logged",
	}, func(c *h.C) {
		s := genSettings(c)
		s.depth = 4
		old := strip.GlobalLevel
		strip.GlobalLevel = s.global
		defer func() { strip.GlobalLevel = old }()
		out := new(printer)
		l := s.make(out, false)
		kind := h.Pick(c.T, "kind", "none", "value", "error", "percent", "percent error", "number", "nil map", "index", "inner")
		nest := rapid.IntRange(0, 40).Draw(c.T, "nest")
		bad, badPercent := errors.New("bad"), errors.New("90%d %v%%")
		ran := 0
		var f func(int)
		f = func(n int) {
			if n > 0 {
				f(n - 1)
				return
			}
			ran++
			switch kind {
			case "value":
				panic("text")
			case "error":
				panic(bad)
			case "percent":
				panic("100% %d %s%!")
			case "percent error":
				panic(badPercent)
			case "number":
				panic(42)
			case "nil map":
				var m map[string]int
				m["a"] = 1
			case "index":
				var l []int
				_ = l[ran]
			case "inner": // recovered inside, then another panic
				l.Recover(func() {})
				panic("outer")
			}
		}
		var lvs []strip.Level
		lv := 4
		if rapid.Bool().Draw(c.T, "with level") {
			lv = rapid.IntRange(1, 8).Draw(c.T, "level")
			lvs = append(lvs, strip.Level(lv))
		}
		var err interface{}
		var at site
		if e := h.Try(func() { err, at = recoverAt(l, func() { f(nest) }, lvs...) }); e != nil {
			c.Fatalf("Recover panics: %v", e)
		}
		if ran != 1 {
			c.Fatalf("Recover ran the function %d times", ran)
		}
		desc := fmt.Sprintf("logger %+v, Recover at level %d of %s", s, lv, kind)
		switch kind {
		case "none":
			if err != nil || len(out.recs) != 0 {
				c.Fatalf("%s: returns %v, records %q", desc, err, out.recs)
			}
			return
		case "value":
			if err != "text" {
				c.Fatalf("%s: returns %v", desc, err)
			}
		case "error":
			if err != error(bad) {
				c.Fatalf("%s: returns %v", desc, err)
			}
		case "percent":
			if err != "100% %d %s%!" {
				c.Fatalf("%s: returns %v", desc, err)
			}
		case "percent error":
			if err != error(badPercent) {
				c.Fatalf("%s: returns %v", desc, err)
			}
		case "number":
			if err != 42 {
				c.Fatalf("%s: returns %v", desc, err)
			}
		case "inner":
			if err != "outer" {
				c.Fatalf("%s: returns %v", desc, err)
			}
		default:
			if _, ok := err.(error); !ok {
				c.Fatalf("%s: returns %v", desc, err)
			}
		}
		if on := lv <= int(s.level) && lv <= int(s.global); !on {
			if len(out.recs) != 0 {
				c.Fatalf("%s: level is off, records %q", desc, out.recs)
			}
			return
		}
		if len(out.recs) != 1 {
			c.Fatalf("%s: records %q", desc, out.recs)
		}
		c.NonTrivial(desc + fmt.Sprint(nest))
		if s.parser != "" {
			return
		}
		want := tag(lv)
		if s.reqID != "" {
			want += "[" + s.reqID + "]"
		}
		if s.setPrefix {
			want += s.prefix
		}
		if s.line {
			file := at.file
			if s.short {
				if i := strings.Index(file, "/src/"); i >= 0 {
					file = file[i+5:]
				}
			}
			want += fmt.Sprintf(`["%s:%d"]`, file, at.line)
		}
		want += " " + fmt.Sprintln(err)
		got := out.recs[0]
		if s.flat {
			want = strings.ReplaceAll(want, "\n", "\\n")
			if strings.Contains(got, "\n") {
				c.Fatalf("%s: flat record is %q", desc, got)
			}
		}
		if !strings.HasPrefix(got, want) || len(got) == len(want) {
			c.Fatalf("%s: record is\n%q, expected a stack after\n%q", desc, got, want)
		}
	})
}
