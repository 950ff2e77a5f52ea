// Package yield is called at the statements of an instrumented copy of the library
package yield

import (
	"math/rand/v2"
	"runtime"
	"sync/atomic"
)

var prob atomic.Uint32
var hits, taken atomic.Int64

// Set makes about n of 1000 points yield the processor
func Set(n int) { prob.Store(uint32(n)) }

// Points returns how many points were passed and how many of them yielded
func Points() (int64, int64) { return hits.Load(), taken.Load() }

// P is a point at which another goroutine may run
func P() {
	p := prob.Load()
	if p == 0 {
		return
	}
	if counting {
		hits.Add(1)
	}
	r := rand.Uint32()
	if r%1000 >= p {
		return
	}
	if counting {
		taken.Add(1)
	}
	for n := 1 + (r>>16)%4; n > 0; n-- {
		runtime.Gosched()
	}
}
