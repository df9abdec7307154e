//go:build race

package sched

import (
	"runtime"
	"unsafe"
)

// Racing tells whether data races are looked for.
const Racing = true

// What the scheduler itself does is hidden from the race detector, so that only the synchronisation of the code under
// test orders its memory accesses.
func hide()   { runtime.RaceDisable() }
func unhide() { runtime.RaceEnable() }

// Acquire orders what follows after every Release of p so far.
func Acquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

// Release orders what came before it before later Acquires of p.
func Release(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
