package conf

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/config"
	"github.com/wujiu2020/strip/utils/helpers"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
)

var (
	secs = []string{"", "s", "s t", "x.y"}
	keys = []string{"zq", "zq.r", "zq-r s", "Zq:é", "zq/é", "zq::b", "s.zq", "x.y.zq"}
)

// write writes kv out as a document.
func write(s sections) string {
	var b strings.Builder
	for _, sec := range h.Keys(s) {
		if sec != "default" || len(s) > 1 {
			fmt.Fprintf(&b, "[%s]\n", sec)
		}
		for _, k := range h.Keys(s[sec]) {
			fmt.Fprintf(&b, "`%s` = `%s`\n", k, s[sec][k])
		}
	}
	return b.String()
}

func genLayer(t *rapid.T, id int) sections {
	s := sections{}
	for n := rapid.IntRange(0, 6).Draw(t, "values"); n > 0; n-- {
		s.set(h.Pick(t, "section", secs...), h.Pick(t, "key", keys...), h.Pick(t, "value", "", "v", "w")+fmt.Sprint(id))
		if h.Pct(t, 15, "empty value") {
			s.set(h.Pick(t, "section", secs...), h.Pick(t, "key", keys...), "")
		}
	}
	return s
}

// foreign is somebody else's parent.
type foreign map[string]string

func (f foreign) Find(name string) string                  { return f[name] }
func (f foreign) ListSection(sec string) map[string]string { return map[string]string{"f": sec} }
func (f foreign) SetParent(config.Configer)                {}

func names() (ns []string) {
	for _, s := range secs {
		for _, k := range keys {
			if s == "" {
				ns = append(ns, k)
			} else {
				ns = append(ns, s+"::"+k)
			}
		}
	}
	return append(ns, "default::zq", "nosuch::zq", "s::nosuch", "nosuch", "", "s::", "ZQ", "Zq", "s::ZQ", "S::zq", "zq:É")
}

// own looks a name up in one layer.
func (s sections) own(name string) string {
	sec, key := "default", name
	if i := strings.Index(name, "::"); i >= 0 {
		sec, key = name[:i], name[i+2:]
		if sec == "" {
			sec = "default"
		}
	}
	return s[sec][key]
}

func TestC02(t *testing.T) {
	h.Check(t, h.Spec{ID: "C02", Quick: 6000, Thorough: 150000,
		Rule: "histories over 1-5 layers of generated values: linking parents, setting and clearing environment variables, listing sections and altering the lists, looking up every name in every layer, directly and through the application configuration. Non-trivial: a value came from a parent and one from the environment."},
		func(c *h.C) {
			n := rapid.IntRange(1, 5).Draw(c.T, "layers")
			layers := make([]sections, n)
			confs := make([]config.Configer, n)
			parent := make([]int, n) // -1 none, -2 foreign
			for i := range layers {
				layers[i] = genLayer(c.T, i)
				cf, err := config.LoadIniFromReader(strings.NewReader(write(layers[i])))
				if err != nil {
					c.Fatalf("%q: %v", write(layers[i]), err)
				}
				confs[i], parent[i] = cf, -1
			}
			f := foreign{"zq": "F", "s::zq": "FS", "nosuch": "FN", "": "NO"}
			env := map[string]string{}
			defer func() {
				for k := range env {
					os.Unsetenv(k)
				}
			}()
			var lookup func(i int, name string) (string, string)
			lookup = func(i int, name string) (string, string) {
				key := name
				if j := strings.Index(name, "::"); j >= 0 {
					key = name[j+2:]
				}
				if key == "" {
					return "", ""
				}
				if i == -2 {
					return f[name], "foreign"
				}
				if v := env[envName(name)]; v != "" {
					return v, "environment"
				}
				if v := layers[i].own(name); v != "" {
					return v, "own"
				}
				if parent[i] == -1 {
					return "", ""
				}
				v, from := lookup(parent[i], name)
				if from == "own" {
					from = "parent"
				}
				return v, from
			}
			var log []string
			seen := map[string]bool{}
			for steps := rapid.IntRange(1, 12).Draw(c.T, "steps"); steps > 0; steps-- {
				i := rapid.IntRange(0, n-1).Draw(c.T, "layer")
				switch h.Pick(c.T, "step", "parent", "parent", "parent", "env", "env", "unenv", "list", "foreign") {
				case "parent":
					// parents are earlier layers, so that no cycle arises
					p := rapid.IntRange(-1, i-1).Draw(c.T, "parent")
					if p == -1 {
						if parent[i] != -1 {
							confs[i].SetParent(nil)
							parent[i] = -1
						}
					} else {
						confs[i].SetParent(confs[p])
						parent[i] = p
					}
					log = append(log, fmt.Sprintf("parent(%d)=%d", i, p))
				case "foreign":
					confs[i].SetParent(f)
					parent[i] = -2
					log = append(log, fmt.Sprintf("parent(%d)=foreign", i))
				case "env":
					k := envName(h.Pick(c.T, "name", append(names()[:len(secs)*len(keys)], "default::zq", "default::zq", "nosuch::zq", "s::nosuch", "nosuch", "Zq")...))
					env[k] = h.Pick(c.T, "env value", "E1", "E2", "", " E3 ", "  ", "E4\n")
					os.Setenv(k, env[k])
					log = append(log, k+"="+env[k])
				case "unenv":
					for _, k := range h.Keys(env) {
						os.Unsetenv(k)
						delete(env, k)
						log = append(log, "unset "+k)
						break
					}
				case "list":
					for _, sec := range append(h.Keys(layers[i]), "none") {
						m := confs[i].ListSection(sec)
						if !reflect.DeepEqual(m, map[string]string(layers[i][sec])) {
							c.Fatalf("%v %v: section %q of %d lists %q, want %q", layers, log, sec, i, m, layers[i][sec])
						}
						for k := range m {
							m[k] = "changed"
						}
						if m != nil {
							m["added"] = "1"
						}
					}
				}
				for j := range confs {
					cfg := &strip.Config{Configer: confs[j]}
					for _, name := range names() {
						want, from := lookup(j, name)
						if got := confs[j].Find(name); got != want {
							c.Fatalf("%q %v: %q in layer %d is %q, want %q", layers, log, name, j, got, want)
						}
						seen[from] = true
						if got := cfg.Find(name); got != want {
							c.Fatalf("%q %v: %q in the configuration of layer %d is %q, want %q", layers, log, name, j, got, want)
						}
						d := want
						if d == "" {
							d = "fallback"
						}
						if got := cfg.Find(name, "fallback", "not this"); got != d {
							c.Fatalf("%q %v: %q with a default in layer %d is %q, want %q", layers, log, name, j, got, d)
						}
					}
				}
			}
			for k := range seen {
				c.Label("found in %q", k)
			}
			if seen["parent"] && seen["environment"] {
				c.NonTrivial(fmt.Sprint(layers, log))
			}
		})
}

// Files of an application: a later loaded one overrides an earlier one.
func TestC02_files(t *testing.T) {
	top := t.TempDir()
	wd, err := os.Getwd()
	h.Env(err)
	arg0 := os.Args[0]
	defer func() { os.Chdir(wd); os.Args[0] = arg0 }()
	nr := 0
	h.Check(t, h.Spec{ID: "C02", Quick: 700, Thorough: 15000,
		Rule: "generated default, application, override and added files, for all and for one mode, in the program's, the working and a given directory, some of them the same directory and some files malformed, loaded together. Non-trivial: at least three files define one key."},
		func(c *h.C) {
			nr++
			base := filepath.Join(top, fmt.Sprint(nr))
			dirs := []string{filepath.Join(base, "exe"), filepath.Join(base, "wd"), filepath.Join(base, "etc")}
			switch h.Pick(c.T, "same directories", "", "", "", "exe=wd", "etc=exe", "etc=wd") {
			case "exe=wd":
				dirs[1] = dirs[0]
			case "etc=exe":
				dirs[2] = dirs[0]
			case "etc=wd":
				dirs[2] = dirs[1]
			}
			for _, d := range dirs {
				h.Env(os.MkdirAll(d, 0o700))
			}
			defer os.RemoveAll(base)
			defer os.Chdir(wd)
			h.Env(os.Chdir(dirs[1]))
			os.Args[0] = filepath.Join(dirs[0], "prog")
			useDir := h.Pct(c.T, 70, "directory given")
			mode := h.Pick(c.T, "mode", "prod", "dev", "test")
			sp, sink := h.App()
			sp.Config.RunMode = strip.Mode(mode)
			id := 0
			var order []string // the files loaded, in order
			content := map[string]sections{}
			put := func(path string) {
				if !h.Pct(c.T, 45, "file") {
					return
				}
				id++
				s := genLayer(c.T, id)
				if h.Pct(c.T, 12, "malformed file") {
					h.Env(os.WriteFile(path, []byte(write(s)+"\nmalformed\n"), 0o600))
					return
				}
				h.Env(os.WriteFile(path, []byte(write(s)), 0o600))
				content[path] = s
			}
			n := len(dirs)
			if !useDir {
				n = 2
			}
			app := h.Pick(c.T, "application", "app", "app", "App", "my.app", "a-1")
			had := map[string]bool{}
			for _, f := range []string{"default", app, "override"} {
				for i, d := range dirs {
					for _, m := range []string{"", ".prod", ".dev"} {
						p := filepath.Join(d, f+m+".ini")
						if had[p] {
							// a file counts once, where it comes first
							continue
						}
						had[p] = true
						put(p)
						if i < n && (m == "" || m == "."+mode) {
							order = append(order, p)
						}
					}
				}
			}
			var add []string
			for k := rapid.IntRange(0, 2).Draw(c.T, "added"); k > 0; k-- {
				p := filepath.Join(base, fmt.Sprintf("added%d.ini", k))
				put(p)
				if len(order) > 0 && h.Pct(c.T, 20, "added again") {
					p = rapid.SampledFrom(order).Draw(c.T, "known file")
				}
				add = append(add, p)
				order = append(order, p)
			}
			give := ""
			if useDir {
				give = dirs[2]
				if h.Pct(c.T, 40, "relative directory") {
					give, err = filepath.Rel(dirs[1], dirs[2])
					h.Env(err)
				}
			}
			var env struct {
				A string   `conf:"zq"`
				B []string `conf:"s::zq"`
			}
			sink.Take()
			var cf strip.Configer
			if h.Pct(c.T, 30, "environment only") {
				helpers.LoadClassicEnv(sp, app, &env, give, add...)
				cf = sp.Config.Configer
			} else {
				cf = helpers.LoadConfigFiles(sp, app, &env, give, add...)
			}
			defined := 0
			for _, name := range names() {
				want, n := "", 0
				for _, p := range order {
					if v := content[p].own(name); v != "" {
						want = v
						n++
					}
				}
				if n > defined {
					defined = n
				}
				if got := cf.Find(name); got != want {
					c.Fatalf("mode %s, %v %v: %q is %q, want %q", mode, order, content, name, got, want)
				}
				if got := sp.Config.Find(name); got != want {
					c.Fatalf("mode %s, %v %v: %q of the application is %q, want %q", mode, order, content, name, got, want)
				}
				if got := sp.Config.Find(name, "fallback"); got != want && !(want == "" && got == "fallback") {
					c.Fatalf("mode %s, %v %v: %q or fallback is %q, want %q", mode, order, content, name, got, want)
				}
				if name == "zq" && env.A != want {
					c.Fatalf("mode %s, %v %v: decoded %q is %q, want %q", mode, order, content, name, env.A, want)
				}
			}
			logs := strings.Join(sink.Take(), "\n")
			for _, p := range order {
				_, err := os.Stat(p)
				_, good := content[p]
				if err == nil && !good && !strings.Contains(logs, p+" load err") {
					c.Fatalf("malformed %s was not reported: %s", p, logs)
				}
			}
			c.Label("defined in %d files", defined)
			if defined >= 3 {
				c.NonTrivial(fmt.Sprint(mode, order, content))
			}
		})
}
