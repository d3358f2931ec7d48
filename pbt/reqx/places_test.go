package reqx

import "github.com/wujiu2020/strip"

var places = []func(ls []strip.Logger, level int, f string, v []interface{}){inSrc, outside, twice}

func inSrc(ls []strip.Logger, level int, f string, v []interface{}) {
//line /home/u/go/src/app/pkg/main.go:77
	for _, l := range ls { switch level { case 0: l.Emergencyf(f, v...); case 1: l.Alert(v...); case 2: l.Critcialf(f, v...); case 3: l.Error(v...); case 4: l.Warnf(f, v...); case 5: l.Notice(v...); case 6: l.Infof(f, v...); case 7: l.Debug(v...); case 8: l.Info(v...); default: l.Errorf(f, v...) } }
}

func outside(ls []strip.Logger, level int, f string, v []interface{}) {
//line /home/u/app/main.go:12
	for _, l := range ls { switch level { case 0: l.Emergency(v...); case 1: l.Alertf(f, v...); case 2: l.Critcial(v...); case 3: l.Errorf(f, v...); case 4: l.Warn(v...); case 5: l.Noticef(f, v...); case 6: l.Info(v...); case 7: l.Debugf(f, v...); default: l.Recover(func() { panic(f) }) } }
}

func twice(ls []strip.Logger, level int, f string, v []interface{}) {
//line /home/u/go/src/app/src/pkg/main.go:31
	for _, l := range ls { switch level { case 0: l.Emergencyf(f, v...); case 1: l.Info(v...); default: l.Warn(v...) } }
}
