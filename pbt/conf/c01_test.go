package conf

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"
	"testing/iotest"
	"unicode"

	"github.com/wujiu2020/strip/config"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
)

type sections map[string]map[string]string

func (s sections) set(sec, key, val string) {
	if sec == "" {
		sec = "default"
	}
	if s[sec] == nil {
		s[sec] = map[string]string{}
	}
	s[sec][key] = val
}

func (s sections) section(sec string) {
	if s[sec] == nil {
		s[sec] = map[string]string{}
	}
}

// envName is where the environment overrides a key.
func envName(name string) string {
	name = strings.Replace(name, "::", "_", 1)
	for _, c := range []string{".", "-", ":", " "} {
		name = strings.Replace(name, c, "_", -1)
	}
	return strings.ToUpper(name)
}

// diff compares everything readable from c with s.
func (s sections) diff(c config.Configer, env bool) string {
	for sec, kv := range s {
		got := c.ListSection(sec)
		if !reflect.DeepEqual(got, kv) {
			return fmt.Sprintf("section %q is %q, want %q", sec, got, kv)
		}
		if strings.Contains(sec, "::") || sec == "" || strings.HasSuffix(sec, ":") {
			continue // not addressable by Find
		}
		for k, v := range kv {
			name := sec + "::" + k
			if os.Getenv(envName(name)) == "" || env {
				if got := c.Find(name); got != v {
					return fmt.Sprintf("%q is %q, want %q", name, got, v)
				}
			}
			if sec == "default" && !strings.Contains(k, "::") && os.Getenv(envName(k)) == "" {
				if got := c.Find(k); got != v {
					return fmt.Sprintf("%q is %q, want %q", k, got, v)
				}
			}
		}
		if got := c.Find(sec + "::no such key\x00"); got != "" {
			return fmt.Sprintf("missing key of %q is %q", sec, got)
		}
	}
	for _, sec := range []string{"no such section", "s1", "default", "a b"} {
		if _, ok := s[sec]; !ok {
			if got := c.ListSection(sec); got != nil {
				return fmt.Sprintf("section %q is %q, it was never written", sec, got)
			}
		}
	}
	return ""
}

func trimmed(s string) bool { return strings.TrimSpace(s) == s }

var keyAlpha = []rune("abcK1_.-:= #;[]\"`é中\t'\\/$%ﻻ")

func genText(t *rapid.T, label string, max int) string {
	return rapid.StringOfN(rapid.OneOf(rapid.SampledFrom(keyAlpha), rapid.RuneFrom(nil, unicode.L, unicode.N, unicode.P, unicode.Zs)), 0, max, -1).Draw(t, label)
}

func sp(t *rapid.T) string { return h.Pick(t, "space", "", "", " ", "  ", "\t", " \t ") }

// genKey returns a key and how it is written.
func genKey(t *rapid.T) (key, text string) {
	for i := 0; i < 3; i++ {
		switch h.Pick(t, "key kind", "plain", "plain", "free", "free") {
		case "plain":
			key = h.Pick(t, "key", "a", "b", "c", "key.1", "key-2", "x y", "é", "ﻻ", "\ufefb-1")
		default:
			key = genText(t, "key", 8)
		}
		if key == "" || key == "-" || strings.ContainsAny(key, "\n\r\u2028\u2029\x85") {
			continue
		}
		var forms []string
		if trimmed(key) && !strings.ContainsAny(key, "=:") && !strings.ContainsAny(key[:1], "#;\"`[") {
			forms = append(forms, key, key)
		}
		if !strings.Contains(key, `"`) {
			forms = append(forms, `"`+key+`"`)
		}
		if !strings.Contains(key, "`") {
			forms = append(forms, "`"+key+"`")
		}
		if !strings.Contains(key, `"""`) && !strings.HasSuffix(key, `"`) {
			forms = append(forms, `"""`+key+`"""`)
		}
		if len(forms) == 0 {
			continue
		}
		return key, rapid.SampledFrom(forms).Draw(t, "key form")
	}
	return "k", "k"
}

func genValue(t *rapid.T) (val, text string) {
	switch h.Pick(t, "value kind", "free", "free", "word", "empty", "long") {
	case "free":
		val = genText(t, "value", 12)
	case "word":
		val = h.Pick(t, "value", "1", "true", "http://a.b/c?d=e&f#g", "a;b", "x # y", "a ; b", "v // w", "a ;", "a\\", "a\\n b", "$HOME", "${a}", "%(a)s", "a,b , c", "'q'", `"quoted"`, "`", `"""`, `""`, "a`b", "[x]")
	case "long":
		val = strings.Repeat(h.Pick(t, "piece", "abc ", "0123456789", "=\t"), rapid.IntRange(1, 2000).Draw(t, "times")) + "."
		if h.Pct(t, 5, "huge") {
			val = strings.Repeat(val, 1+150000/len(val))
		}
	}
	val = strings.Map(func(r rune) rune {
		if r == '\n' || r == '\r' {
			return '_'
		}
		return r
	}, val)
	forms := []string{"`" + val + "`", `"""` + val + `"""`}
	if trimmed(val) && !(strings.HasPrefix(val, "`") && len(val) >= 2) && !(strings.HasPrefix(val, `"""`) && len(val) >= 6) {
		forms = append(forms, val, val, val)
	}
	return val, rapid.SampledFrom(forms).Draw(t, "value form")
}

type doc struct {
	lines []string
	want  sections
	bad   string // the malformed line, if any
	blank bool   // it is an empty section name
	n     int    // assignments
}

func genDoc(t *rapid.T, mayFail bool) doc {
	d := doc{want: sections{}}
	sec := ""
	opened := map[string]bool{}
	auto, autoOK := 1, true
	badAt := -1
	n := rapid.IntRange(0, 14).Draw(t, "lines")
	if mayFail && h.Pct(t, 30, "malformed") {
		badAt = rapid.IntRange(0, n).Draw(t, "malformed at")
	}
	for i := 0; i <= n; i++ {
		if i == badAt {
			d.bad = h.Pick(t, "malformed line", "justtext", "= value", ": v", `"open = v`, "`open = v", `"key" novalue`, "`key`", "k = `open", `k = """open`, `k : """open"`, "[]", "[  ]", "[noend", `"""key = 1`, "k = `open\"")
			d.blank = strings.HasPrefix(d.bad, "[") && strings.HasSuffix(d.bad, "]")
			d.lines = append(d.lines, sp(t)+d.bad+sp(t))
			continue
		}
		if i == n {
			break
		}
		var l string
		switch h.Pick(t, "line", "kv", "kv", "kv", "kv", "section", "comment", "blank", "auto") {
		case "blank":
			l = sp(t)
		case "comment":
			l = sp(t) + h.Pick(t, "mark", "#", ";", "; ", "##") + genText(t, "comment", 15)
			if d.bad == "" && strings.ContainsAny(l, "\n") {
				l = "#"
			}
		case "section":
			name := h.Pick(t, "section", "s1", "s2", "a b", "default", "x.y", "é", "[in]", "a=b", "#s", "q::r")
			l = sp(t) + "[" + sp(t) + name + sp(t) + "]" + sp(t)
			sec = name
			auto, autoOK = 1, !opened[name]
			opened[name] = true
			if d.bad == "" {
				d.want.section(sec)
			}
		case "auto":
			if !autoOK || sec == "default" || sec == "" && opened["default"] {
				continue
			}
			v, vt := genValue(t)
			l = sp(t) + "-" + sp(t) + h.Pick(t, "sep", "=", ":") + sp(t) + vt
			if d.bad == "" {
				d.want.set(sec, fmt.Sprintf("#%d", auto), v)
				d.n++
			}
			auto++
		case "kv":
			k, kt := genKey(t)
			v, vt := genValue(t)
			if strings.HasPrefix(kt, "[") {
				continue
			}
			l = sp(t) + kt + sp(t) + h.Pick(t, "sep", "=", ":") + sp(t) + vt
			if strings.HasPrefix(k, "#") && d.want[sec][k] != "" {
				continue
			}
			if d.bad == "" {
				d.want.set(sec, k, v)
				d.n++
			}
		}
		d.lines = append(d.lines, l)
	}
	return d
}

func (d doc) text(t *rapid.T) []byte {
	var b bytes.Buffer
	if h.Pct(t, 15, "BOM") {
		b.WriteString("\xef\xbb\xbf")
	}
	nl := h.Pick(t, "newline", "\n", "\n", "\r\n")
	for i, l := range d.lines {
		b.WriteString(l)
		if i < len(d.lines)-1 || h.Pct(t, 60, "last newline") {
			b.WriteString(nl)
		}
	}
	return b.Bytes()
}

func TestC01(t *testing.T) {
	dir := t.TempDir()
	h.Check(t, h.Spec{ID: "C01", Quick: 12000, Thorough: 300000,
		Rule: "documents written from generated sections, keys and values in all quoting styles, with comments, blank lines, numbered keys, byte order marks and either line end, read from a file or readers of odd shapes; a third have one malformed line, some a failing reader. Non-trivial: at least three assignments."},
		func(c *h.C) {
			d := genDoc(c.T, true)
			text := d.text(c.T)
			var cf config.Configer
			var err error
			src := h.Pick(c.T, "source", "reader", "file", "one byte", "data+EOF", "failing", "half")
			readErr := errors.New("broken disk")
			switch src {
			case "reader":
				cf, err = config.LoadIniFromReader(bytes.NewReader(text))
			case "one byte":
				cf, err = config.LoadIniFromReader(iotest.OneByteReader(bytes.NewReader(text)))
			case "half":
				cf, err = config.LoadIniFromReader(iotest.HalfReader(bytes.NewReader(text)))
			case "data+EOF":
				cf, err = config.LoadIniFromReader(iotest.DataErrReader(bytes.NewReader(text)))
			case "failing":
				k := rapid.IntRange(0, len(text)).Draw(c.T, "fails after")
				cf, err = config.LoadIniFromReader(io.MultiReader(bytes.NewReader(text[:k]), iotest.ErrReader(readErr)))
				if err == nil {
					c.Fatalf("%q: no error although reading failed after %d bytes", text, k)
				}
				if d.bad == "" && !errors.Is(err, readErr) {
					// a line cut by the failure may be malformed, too
					c.Label("cut line")
				}
				return
			case "file":
				f := filepath.Join(dir, "c.ini")
				h.Env(os.WriteFile(f, text, 0o600))
				cf, err = config.LoadIniFile(f)
			}
			if d.bad != "" {
				if err == nil {
					c.Fatalf("%q: malformed line %q accepted", text, d.bad)
				}
				if !d.blank && !strings.Contains(err.Error(), d.bad) {
					c.Fatalf("%q: error %q does not show the line %q", text, err, d.bad)
				}
				c.Label("malformed")
				c.NonTrivial(string(text))
				return
			}
			if err != nil {
				c.Fatalf("%q: %v", text, err)
			}
			if s := d.want.diff(cf, false); s != "" {
				c.Fatalf("%q: %s", text, s)
			}
			c.Label("%s", src)
			if d.n >= 3 {
				c.NonTrivial(string(text))
			}
		})
}

// TestC01_both gives a file and a reader at once.
func TestC01_both(t *testing.T) {
	dir := t.TempDir()
	h.Check(t, h.Spec{ID: "C01", Quick: 1500, Thorough: 40000,
		Rule: "two generated documents, one in a file and one from a reader, given together or alone, some malformed, some files missing. Non-trivial: both have at least two assignments."},
		func(c *h.C) {
			a, b := genDoc(c.T, true), genDoc(c.T, true)
			if h.Pct(c.T, 60, "both well-formed") {
				a, b = genDoc(c.T, false), genDoc(c.T, false)
			}
			at, bt := a.text(c.T), b.text(c.T)
			f := filepath.Join(dir, "c.ini")
			h.Env(os.WriteFile(f, at, 0o600))
			which := h.Pick(c.T, "given", "both", "both", "both", "file", "reader", "none", "missing file")
			cfg := config.Config{FileName: f, FileReader: bytes.NewReader(bt)}
			want, bad := sections{}, ""
			add := func(d doc) {
				bad += d.bad
				for sec, kv := range d.want {
					want.section(sec)
					for k, v := range kv {
						want.set(sec, k, v)
					}
				}
			}
			switch which {
			case "both":
				add(a)
				add(b)
			case "file":
				cfg.FileReader = nil
				add(a)
			case "reader":
				cfg.FileName = ""
				add(b)
			case "none":
				cfg = config.Config{}
			case "missing file":
				cfg.FileName = filepath.Join(dir, "missing.ini")
				cf, err := config.NewConfiger(cfg)
				if !errors.Is(err, os.ErrNotExist) || cf != nil {
					c.Fatalf("a missing file and %q read as %v, %v", bt, cf, err)
				}
				return
			}
			desc := fmt.Sprintf("%s of %q and %q", which, at, bt)
			cf, err := config.NewConfiger(cfg)
			if bad != "" {
				if err == nil {
					c.Fatalf("%s: malformed line accepted (%q)", desc, bad)
				}
				return
			}
			if err != nil {
				c.Fatalf("%s: %v", desc, err)
			}
			if s := want.diff(cf, false); s != "" {
				c.Fatalf("%s: %s", desc, s)
			}
			if which == "both" && a.n >= 2 && b.n >= 2 {
				c.NonTrivial(desc)
			}
		})
}

func parse(b []byte) (sections, error) {
	c, err := config.LoadIniFromReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	// the data is read back through the sections that can be named in b
	s := sections{}
	names := map[string]bool{"default": true}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(strings.TrimPrefix(l, "\xef\xbb\xbf"))
		if len(l) > 1 && l[0] == '[' && l[len(l)-1] == ']' {
			names[strings.TrimSpace(l[1:len(l)-1])] = true
		}
	}
	for n := range names {
		if m := c.ListSection(n); m != nil {
			s[n] = m
		}
	}
	return s, nil
}

// Arbitrary text: never a panic, and properties any line-oriented reading has.
func TestC01_text(t *testing.T) {
	frag := []string{"[", "]", "=", ":", "\"", "`", `"""`, "#", ";", "-", " ", "\t", "\n", "\n", "\r\n", "a", "key", "é", "\xff", "\x00", "[s]", "[s]\n", "a=b\n", "- = 1\n", "\xef\xbb\xbf"}
	gen := rapid.Custom(func(t *rapid.T) []byte {
		if h.Pct(t, 50, "fragments") {
			return []byte(strings.Join(rapid.SliceOfN(rapid.SampledFrom(frag), 0, 40).Draw(t, "text"), ""))
		}
		return []byte(strings.Join(genDoc(t, false).lines, "\n"))
	})
	h.Check(t, h.Spec{ID: "C01", Quick: 15000, Thorough: 400000,
		Rule: "two arbitrary texts: reading never panics; inserting comments and blank lines changes nothing; what both accept is read from their concatenation, later values winning, when the second begins with a section. Non-trivial: both are accepted and assign something."},
		func(c *h.C) {
			a, b := gen.Draw(c.T, "a"), gen.Draw(c.T, "b")
			pa, ea := parse(a)
			var wa []string
			for _, l := range strings.Split(string(a), "\n") {
				wa = append(wa, h.Pick(c.T, "insert", "", "# [c]", "; k = v", "  \t "), l)
			}
			if len(a) < 3 || !bytes.HasPrefix(a, []byte("\xef\xbb\xbf")) {
				pw, ew := parse([]byte(strings.Join(wa, "\n")))
				if (ew == nil) != (ea == nil) || !reflect.DeepEqual(pa, pw) {
					c.Fatalf("%q is %q (%v), with comments and blank lines %q (%v)", a, pa, ea, pw, ew)
				}
			}
			b = append([]byte("[second]\n"), b...)
			pb, eb := parse(b)
			if eb == nil && ea == nil && !strings.HasSuffix(string(a), "\r") {
				pc, ec := parse([]byte(string(a) + "\n" + string(b)))
				if ec != nil {
					c.Fatalf("%q and %q are accepted, both together: %v", a, b, ec)
				}
				want := sections{}
				for _, p := range []sections{pa, pb} {
					for s, kv := range p {
						want.section(s)
						for k, v := range kv {
							want.set(s, k, v)
						}
					}
				}
				// sections of a can be cut at other places when it ends in a CR
				if !reflect.DeepEqual(pc, want) {
					c.Fatalf("%q then %q is %q, want %q", a, b, pc, want)
				}
				if len(pa) > 0 && len(pb) > 1 {
					c.NonTrivial(string(a) + "\x00" + string(b))
				}
				c.Label("both accepted")
			}
		})
}
