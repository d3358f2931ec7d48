package logx

import "github.com/wujiu2020/strip"

func recoverAt(l strip.Logger, f func(), level ...strip.Level) (interface{}, site) { e := l.Recover(f, level...); return e, here() }

func shortCall(ls []strip.Logger, f string, v []interface{}) site {
//line /home/u/go/src/app/pkg/main.go:77
	for _, l := range ls { l.Errorf(f, v...) }; return here()
}

func shortCall2(ls []strip.Logger, f string, v []interface{}) site {
//line /home/u/app/main.go:12
	for _, l := range ls { l.Errorf(f, v...) }; return here()
}

func shortCall3(ls []strip.Logger, f string, v []interface{}) site {
//line /home/u/go/src/app/src/pkg/main.go:31
	for _, l := range ls { l.Errorf(f, v...) }; return here()
}

func shortCall4(ls []strip.Logger, f string, v []interface{}) site {
//line /src/main.go:8
	for _, l := range ls { l.Errorf(f, v...) }; return here()
}
