// Package places has code that panics, in files named like those of the library.
package places

// InContext panics.
//
//go:noinline
func InContext(v interface{}) {
	panic(v) // at in context
}

// Call calls f from this file.
//
//go:noinline
func Call(f func()) {
	n++
	f() // at call
}

var n int
