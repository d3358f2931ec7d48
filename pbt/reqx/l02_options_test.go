package reqx

import (
	"fmt"
	"net/http"
	"strings"
	"testing"

	"github.com/wujiu2020/strip"
	reqlogger "github.com/wujiu2020/strip/request-logger"
	"pgregory.net/rapid"

	"verif/pbt/internal/h"
)

// TestL02_options: the records take the form the options ask for, which is
// the form of a request logger that was set up so by hand.
func TestL02_options(t *testing.T) {
	h.Check(t, h.Spec{ID: "L02", Quick: 1500, Thorough: 30000,
		Rule: "a handler that logs generated messages (several lines, formats, levels, hidden positions) through its request logger and through one made by hand with the same id, prefix and settings, from the same lines of source files below and outside a src directory; the records must be the same, byte for byte, the stacks that follow them apart. Non-trivial: an option is on and a message logged.",
	}, func(c *h.C) {
		out, ref := new(printer), new(printer)
		opt := reqlogger.LoggerOption{
			ColorMode: h.Pct(c.T, 40, "color"), LineInfo: h.Pct(c.T, 70, "line"), ShortLine: h.Pct(c.T, 50, "short"), FlatLine: h.Pct(c.T, 50, "flat"),
		}
		if h.Pct(c.T, 25, "stacks") {
			opt.LogStackLevel = h.Pick(c.T, "stack level", strip.LevelAlert, strip.LevelError, strip.LevelInformational, strip.LevelDebug)
		}
		pre := h.Pick(c.T, "prefix", "", "", "<p>", " ")
		if pre != "" {
			opt.PrefixFilter = func(ctx strip.Context, rw http.ResponseWriter, req *http.Request, s string) string { return pre }
		}
		drop := func(ctx strip.Context, rw http.ResponseWriter, req *http.Request, s string) string { return "" }
		opt.ReqBegFilter, opt.ReqEndFilter = drop, drop
		type message struct {
			where, level int
			f            string
			v            []interface{}
		}
		var msgs []message
		for n := rapid.IntRange(0, 4).Draw(c.T, "messages"); n > 0; n-- {
			m := message{where: rapid.IntRange(0, len(places)-1).Draw(c.T, "place"), level: rapid.IntRange(0, 9).Draw(c.T, "level")}
			m.f = h.Pick(c.T, "format", "%s", "%v\n", "a\nb %v", "%d\n\n", "plain", "%%%q")
			m.v = []interface{}{rapid.StringMatching(`[a-zé \n%]{0,12}`).Draw(c.T, "value")}
			if h.Pct(c.T, 15, "hidden") {
				m.v = append(m.v, strip.LineOpt{Hidden: true})
			}
			msgs = append(msgs, m)
		}
		sp, _ := h.App()
		sp.Filter(reqlogger.ReqLoggerFilter(out, opt))
		ran := false
		sp.Routers(strip.Any(func(l strip.Logger, rl strip.ReqLogger) {
			ran = true
			own := strip.NewReqLogger(ref, rl.ReqId())
			own.SetPrefix(pre)
			own.SetColorMode(opt.ColorMode)
			own.SetLineInfo(opt.LineInfo)
			own.SetShortLine(opt.ShortLine)
			own.SetFlatLine(opt.FlatLine)
			own.EnableLogStack(opt.LogStackLevel)
			for _, m := range msgs {
				places[m.where]([]strip.Logger{l, own}, m.level, m.f, m.v)
			}
		}))
		h.Do(sp, h.Req("GET", "/"))
		if !ran || len(out.recs) != len(ref.recs) {
			c.Fatalf("%+v %v: %d records, want %d (%v): %q", opt, msgs, len(out.recs), len(ref.recs), ran, out.recs)
		}
		for i := range out.recs {
			got, want := out.recs[i], ref.recs[i]
			// stacks show addresses
			if strings.Contains(got, "goroutine ") && strings.Contains(want, "goroutine ") {
				got, want = strings.Split(got, "goroutine ")[0], strings.Split(want, "goroutine ")[0]
			}
			if got != want {
				c.Fatalf("%+v %v: record %d is %q, want %q", opt, msgs, i, got, want)
			}
		}
		c.Label("%d messages", len(msgs))
		if len(msgs) > 0 && (opt.ColorMode || opt.LineInfo || opt.ShortLine || opt.FlatLine) {
			c.NonTrivial(fmt.Sprint(opt, msgs))
		}
	})
}
