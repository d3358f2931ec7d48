package logx

import (
	"runtime"

	"github.com/wujiu2020/strip"
)

// site is where a logging call was made.
type site struct {
	file string
	line int
}

func here() site {
	_, f, l, _ := runtime.Caller(1)
	return site{f, l}
}

type call func(ls []strip.Logger, f string, v []interface{}) site

// calls are the logging calls by level, plain and formatting; every call is
// on the line whose place it returns.
var calls = [][2]call{
	{
		func(ls []strip.Logger, f string, v []interface{}) site { for _, l := range ls { l.Emergency(v...) }; return here() },
		func(ls []strip.Logger, f string, v []interface{}) site { for _, l := range ls { l.Emergencyf(f, v...) }; return here() },
	},
	{
		func(ls []strip.Logger, f string, v []interface{}) site { for _, l := range ls { l.Alert(v...) }; return here() },
		func(ls []strip.Logger, f string, v []interface{}) site { for _, l := range ls { l.Alertf(f, v...) }; return here() },
	},
	{
		func(ls []strip.Logger, f string, v []interface{}) site { for _, l := range ls { l.Critcial(v...) }; return here() },
		func(ls []strip.Logger, f string, v []interface{}) site { for _, l := range ls { l.Critcialf(f, v...) }; return here() },
	},
	{
		func(ls []strip.Logger, f string, v []interface{}) site { for _, l := range ls { l.Error(v...) }; return here() },
		func(ls []strip.Logger, f string, v []interface{}) site { for _, l := range ls { l.Errorf(f, v...) }; return here() },
	},
	{
		func(ls []strip.Logger, f string, v []interface{}) site { for _, l := range ls { l.Warn(v...) }; return here() },
		func(ls []strip.Logger, f string, v []interface{}) site { for _, l := range ls { l.Warnf(f, v...) }; return here() },
	},
	{
		func(ls []strip.Logger, f string, v []interface{}) site { for _, l := range ls { l.Notice(v...) }; return here() },
		func(ls []strip.Logger, f string, v []interface{}) site { for _, l := range ls { l.Noticef(f, v...) }; return here() },
	},
	{
		func(ls []strip.Logger, f string, v []interface{}) site { for _, l := range ls { l.Info(v...) }; return here() },
		func(ls []strip.Logger, f string, v []interface{}) site { for _, l := range ls { l.Infof(f, v...) }; return here() },
	},
	{
		func(ls []strip.Logger, f string, v []interface{}) site { for _, l := range ls { l.Debug(v...) }; return here() },
		func(ls []strip.Logger, f string, v []interface{}) site { for _, l := range ls { l.Debugf(f, v...) }; return here() },
	},
}

// chain makes the call with callers at known places above it.
func chain(c call, ls []strip.Logger, f string, v []interface{}) []site {
	return w1(c, ls, f, v)
}

func w1(c call, ls []strip.Logger, f string, v []interface{}) []site { s := w2(c, ls, f, v); return append(s, here()) }

func w2(c call, ls []strip.Logger, f string, v []interface{}) []site { s := w3(c, ls, f, v); return append(s, here()) }

func w3(c call, ls []strip.Logger, f string, v []interface{}) []site { s := w4(c, ls, f, v); return append(s, here()) }

func w4(c call, ls []strip.Logger, f string, v []interface{}) []site { s := c(ls, f, v); return []site{s, here()} }
