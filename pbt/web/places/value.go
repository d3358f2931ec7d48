package places

// InValue calls InContext.
//
//go:noinline
func InValue(v interface{}) {
	n++
	n++
	n++
	InContext(v) // at in value
}

// V is what InVar panics with.
var V interface{}

// InVar calls InValue.
//
//go:noinline
func InVar() {
	n++
	InValue(V) // at in var
	n++
}
