//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

const Race = true

//go:norace
func raceDisable() { runtime.RaceDisable() }

//go:norace
func raceEnable() { runtime.RaceEnable() }

//go:norace
func RaceErrors() int { return runtime.RaceErrors() }

//go:norace
func Acquire(p *byte) { runtime.RaceAcquire(unsafe.Pointer(p)) }

//go:norace
func Release(p *byte) { runtime.RaceRelease(unsafe.Pointer(p)) }

//go:norace
func ReleaseMerge(p *byte) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }
