package places

// CallX calls f from a file whose name ends like another one.
//
//go:noinline
func CallX(f func()) {
	n += 2
	n += 3
	n += 4
	n += 5
	n += 6
	n += 7
	f() // at in like
	n++
}
