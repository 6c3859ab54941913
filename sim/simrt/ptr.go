package simrt

import "unsafe"

//go:norace
func ptrTo[T any](p *T) unsafe.Pointer { return unsafe.Pointer(p) }
