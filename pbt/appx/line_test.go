package appx

import "github.com/wujiu2020/strip"

//line /go/src/shop/cart.go:70
func logFrom(l strip.Logger, what string) {
	switch what {
	case "error":
		l.Error("one", what)
	case "critical":
		l.Critcial("one\nstack")
	case "notice":
		l.Noticef("two\nlines %d", 2)
	default:
		l.Warn("two\nlines")
	}
}
