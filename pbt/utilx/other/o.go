// Package utilx has the name of the package beside it.
package utilx

type CtxA struct{ N int }
