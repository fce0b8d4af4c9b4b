//go:build race

package vsched

import (
	"runtime"
	"unsafe"
)

//go:norace
func raceOff() { runtime.RaceDisable() }

//go:norace
func raceOn() { runtime.RaceEnable() }

// Acquire, Release and ReleaseMerge are happens-before edges for the detector.
//
//go:norace
func Acquire[T any](p *T) { runtime.RaceAcquire(unsafe.Pointer(p)) }

//go:norace
func Release[T any](p *T) { runtime.RaceRelease(unsafe.Pointer(p)) }

//go:norace
func ReleaseMerge[T any](p *T) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }

// Races is the number of data races reported so far.
func Races() int { return runtime.RaceErrors() }

const Detecting = true
