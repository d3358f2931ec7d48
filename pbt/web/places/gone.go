package places

// CallGone calls f from a file that is not there any more, through another
// function of that file.
//
//go:noinline
func CallGone(f func()) {
	n++
//line /nonexistent/verif/gone.go:3
	callGone(f)
	n++
}

//go:noinline
func callGone(f func()) {
	n++
//line /nonexistent/verif/gone.go:1
	f()
	n++
}
