package router

import (
	"fmt"
	"net/http"
	"strings"
	"testing"

	"github.com/wujiu2020/strip"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
)

func TestR01(t *testing.T) {
	h.Check(t, h.Spec{ID: "R01", Quick: 20000, Thorough: 60000,
		Rule: "a table of 1-9 templates of depth 1-5 over few literals (so they collide) and 6 request paths near it, in random spellings; compared with the brute-force choice over all templates. Non-trivial: some request matched two or more templates."},
		func(c *h.C) {
			ts := genTable(c.T, 9, 5)
			root := h.Pct(c.T, 50, "root handler")
			var got []seen
			notFound := 0
			sp, _ := h.App()
			sp.NotFound(func(rw http.ResponseWriter) { notFound++; rw.WriteHeader(404) })
			var hs []strip.Handler
			bare := make([]bool, len(ts))
			for i, tp := range ts {
				args := []strip.Handler{strip.Any(probe(fmt.Sprint(i), &got))}
				if h.Pct(c.T, 8, "no method") {
					bare[i] = true
					args = nil
				}
				hs = append(hs, strip.Router(tp.String(), args...))
			}
			all := ts
			if root {
				hs = append(hs, strip.Any(probe("root", &got)))
			}
			sp.Routers(hs...)

			for k := 0; k < 6; k++ {
				segs := genPath(c.T, ts)
				raw := spell(c.T, segs)
				got, notFound = nil, 0
				req := h.Req(h.Pick(c.T, "method", "GET", "POST", "HEAD"), raw)
				if h.Pct(c.T, 10, "escaped") {
					// the same path as it may come over the wire
					req.URL.RawPath = escape(c.T, raw)
				}
				rec := h.Do(sp, req)
				path := clean(raw)
				if len(path) == 0 {
					if root {
						want := seen{id: "root", path: "/"}
						if len(got) != 1 || got[0].String() != want.String() {
							c.Fatalf("root request %q: handlers saw %v", raw, got)
						}
					} else if len(got) != 0 || notFound != 1 {
						c.Fatalf("root request %q without root handler: handlers saw %v, notFound ran %d times", raw, got, notFound)
					}
					continue
				}
				best, caps, n := choose(all, path)
				if best >= 0 && bare[best] {
					c.Label("declared path without handler")
					best = -1
				}
				if best < 0 {
					c.Label("no match")
					if len(got) != 0 || notFound != 1 || rec.Code != 404 {
						c.Fatalf("table %v, path %q: want not found, handlers saw %v, notFound ran %d times, status %d", all, raw, got, notFound, rec.Code)
					}
					continue
				}
				want := seen{id: fmt.Sprint(best), path: all[best].String(), keys: all[best].names(), vals: caps}
				if len(got) != 1 || got[0].String() != want.String() {
					c.Fatalf("table %v, path %q:\n want %v\n saw  %v (notFound ran %d times)", all, raw, want, got, notFound)
				}
				c.Label("%d candidates", min(n, 4))
				if n > 1 {
					c.NonTrivial(fmt.Sprintf("%v <- %q => %v", all, raw, want))
				}
			}
		})

	h.Example(t, "R01", "literal prefix does not hide parameter route", func(t *testing.T) {
		var got []seen
		sp, _ := h.App()
		sp.Routers(
			strip.Router("/a/b", strip.Get(probe("0", &got))),
			strip.Router("/:p", strip.Get(probe("1", &got))),
		)
		h.Do(sp, h.Req("GET", "/a"))
		if len(got) != 1 || got[0].id != "1" || got[0].vals[0] != "a" {
			t.Fatalf("GET /a with routes /a/b and /:p: handlers saw %v", got)
		}
	})
}

// large makes the templates of a table long: a common beginning and end, long
// literals in place of some; and the same of paths.
type large struct {
	head, tail []string
	texts      map[string]string
}

func (l large) text(s string) string {
	if x, ok := l.texts[s]; ok {
		return x
	}
	return s
}

func (l large) segs(segs []string) (out []string) {
	out = append(out, l.head...)
	for _, s := range segs {
		for from, to := range l.texts {
			if s == from || strings.HasPrefix(s, from+":") {
				s = to + s[len(from):]
				break
			}
		}
		out = append(out, s)
	}
	return out
}

func TestR01_large(t *testing.T) {
	h.Check(t, h.Spec{ID: "R01", Quick: 2500, Thorough: 20000,
		Rule: "as before, with tables of up to 40 templates, deep ones below up to 40 common segments, with literals and values of up to 2000 letters and with spaces within and around them. Non-trivial: some request matched two or more templates."},
		func(c *h.C) {
			l := large{texts: map[string]string{}}
			for i := 0; i < rapid.IntRange(0, 40).Draw(c.T, "above"); i++ {
				l.head = append(l.head, fmt.Sprintf("d%d", i%7))
			}
			for _, s := range []string{"a", "b", "user"} {
				switch h.Pick(c.T, "text for "+s, "", "", "long", "spaces") {
				case "long":
					l.texts[s] = strings.ReplaceAll(h.Text(h.Size(c.T, "letters", 2000)+8), " ", "-") + s
				case "spaces":
					l.texts[s] = h.Pick(c.T, "spaced", s+" ", " "+s, s+" "+s, " "+s+" ", s+"\t")
				}
			}
			base := genTable(c.T, h.Pick(c.T, "table", 5, 15, 40), h.Pick(c.T, "depth", 3, 6, 12))
			var ts []template
			for _, tp := range base {
				var n template
				for _, s := range l.head {
					n = append(n, seg{kind: kStatic, text: s})
				}
				for _, s := range tp {
					if s.kind == kStatic {
						s.text = l.text(s.text)
					}
					n = append(n, s)
				}
				ts = append(ts, n)
			}
			var got []seen
			notFound := 0
			sp, _ := h.App()
			sp.NotFound(func(rw http.ResponseWriter) { notFound++; rw.WriteHeader(404) })
			var hs []strip.Handler
			for i, tp := range ts {
				// a template given to Router is trimmed
				hs = append(hs, strip.Router(tp.String()+"/", strip.Any(probe(fmt.Sprint(i), &got))))
			}
			sp.Routers(hs...)
			for k := 0; k < 6; k++ {
				segs := l.segs(genPath(c.T, base))
				raw := "/" + strings.Join(segs, "/") + "/"
				got, notFound = nil, 0
				h.Do(sp, h.Req("GET", raw))
				path := clean(raw)
				best, caps, n := choose(ts, path)
				if best < 0 {
					if len(got) != 0 || notFound != 1 {
						c.Fatalf("table %v, path %q: want not found, handlers saw %v, notFound ran %d times", ts, raw, got, notFound)
					}
					continue
				}
				// what is reported of the template is what was declared
				want := seen{id: fmt.Sprint(best), keys: ts[best].names(), vals: caps}
				if len(got) == 1 {
					want.path = got[0].path
				}
				if len(got) != 1 || got[0].String() != want.String() {
					c.Fatalf("table %v, path %q:\n want %v\n saw  %v (notFound ran %d times)", ts, raw, want, got, notFound)
				}
				if n > 1 {
					c.NonTrivial(fmt.Sprintf("%d templates below %d segments, texts %.60q <- %.200q", len(ts), len(l.head), fmt.Sprint(l.texts), raw))
				}
			}
		})
}
