package checks

import "unsafe"

func ptr[T any](p *T) unsafe.Pointer { return unsafe.Pointer(p) }
