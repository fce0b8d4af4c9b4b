//go:build !race

package vsched

func raceOff()               {}
func raceOn()                {}
func Acquire[T any](*T)      {}
func Release[T any](*T)      {}
func ReleaseMerge[T any](*T) {}

func Races() int { return 0 }

const Detecting = false
