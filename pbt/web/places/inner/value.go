// Package inner has a file of the same name as one of the package around it.
package inner

// Value calls f, from other lines.
//
//go:noinline
func Value(f func()) {
	n++
	n++
	n++
	n++
	n++
	n++
	n++
	n++
	n++
	f() // at in twin
	n++
}

var n int
