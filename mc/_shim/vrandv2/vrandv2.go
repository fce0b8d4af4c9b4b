// Package vrandv2 stands in for math/rand/v2: while a controlled execution runs with
// scripted randomness, draws take their extreme values instead.
package vrandv2

import (
	real "math/rand/v2"

	"github.com/xconnio/wampproto-go/verifshim/vsched"
)

func IntN(n int) int {
	if v, ok := vsched.DrawN(uint64(n)); ok && n > 0 {
		return int(v)
	}
	if c := vsched.Draw(); c >= 0 && n > 0 {
		return [...]int{0, n - 1, n / 2}[c]
	}
	return real.IntN(n)
}

func Int64N(n int64) int64 {
	if v, ok := vsched.DrawN(uint64(n)); ok && n > 0 {
		return int64(v)
	}
	if c := vsched.Draw(); c >= 0 && n > 0 {
		return [...]int64{0, n - 1, n / 2}[c]
	}
	return real.Int64N(n)
}

func Int32N(n int32) int32 {
	if v, ok := vsched.DrawN(uint64(n)); ok && n > 0 {
		return int32(v)
	}
	if c := vsched.Draw(); c >= 0 && n > 0 {
		return [...]int32{0, n - 1, n / 2}[c]
	}
	return real.Int32N(n)
}

func UintN(n uint) uint {
	if v, ok := vsched.DrawN(uint64(n)); ok && n > 0 {
		return uint(v)
	}
	if c := vsched.Draw(); c >= 0 && n > 0 {
		return [...]uint{0, n - 1, n / 2}[c]
	}
	return real.UintN(n)
}

func Uint64N(n uint64) uint64 {
	if v, ok := vsched.DrawN(uint64(n)); ok && n > 0 {
		return uint64(v)
	}
	if c := vsched.Draw(); c >= 0 && n > 0 {
		return [...]uint64{0, n - 1, n / 2}[c]
	}
	return real.Uint64N(n)
}

func Uint32N(n uint32) uint32 {
	if v, ok := vsched.DrawN(uint64(n)); ok && n > 0 {
		return uint32(v)
	}
	if c := vsched.Draw(); c >= 0 && n > 0 {
		return [...]uint32{0, n - 1, n / 2}[c]
	}
	return real.Uint32N(n)
}

func Int64() int64 {
	if v, ok := vsched.DrawBits(63); ok {
		return int64(v)
	}
	if c := vsched.Draw(); c >= 0 {
		return [...]int64{0, 1<<63 - 1, 1 << 53}[c]
	}
	return real.Int64()
}

func Int32() int32 {
	if v, ok := vsched.DrawBits(31); ok {
		return int32(v)
	}
	if c := vsched.Draw(); c >= 0 {
		return [...]int32{0, 1<<31 - 1, 1 << 20}[c]
	}
	return real.Int32()
}

func Int() int {
	if v, ok := vsched.DrawBits(63); ok {
		return int(v)
	}
	if c := vsched.Draw(); c >= 0 {
		return [...]int{0, 1<<63 - 1, 1 << 53}[c]
	}
	return real.Int()
}

func Uint64() uint64 {
	if v, ok := vsched.DrawBits(64); ok {
		return uint64(v)
	}
	if c := vsched.Draw(); c >= 0 {
		return [...]uint64{0, 1<<64 - 1, 1 << 53}[c]
	}
	return real.Uint64()
}

func Uint32() uint32 {
	if v, ok := vsched.DrawBits(32); ok {
		return uint32(v)
	}
	if c := vsched.Draw(); c >= 0 {
		return [...]uint32{0, 1<<32 - 1, 1 << 20}[c]
	}
	return real.Uint32()
}

func Uint() uint {
	if v, ok := vsched.DrawBits(64); ok {
		return uint(v)
	}
	if c := vsched.Draw(); c >= 0 {
		return [...]uint{0, 1<<64 - 1, 1 << 53}[c]
	}
	return real.Uint()
}

func Float64() float64 {
	if v, ok := vsched.DrawFrac(16); ok {
		return (float64(v) + 0.5) / 16
	}
	if c := vsched.Draw(); c >= 0 {
		return [...]float64{0, 0x1.fffffffffffffp-1, 0.5}[c]
	}
	return real.Float64()
}

func Float32() float32 {
	if v, ok := vsched.DrawFrac(16); ok {
		return (float32(v) + 0.5) / 16
	}
	if c := vsched.Draw(); c >= 0 {
		return [...]float32{0, 0x1.fffffep-1, 0.5}[c]
	}
	return real.Float32()
}

type (
	Rand    = real.Rand
	Source  = real.Source
	Zipf    = real.Zipf
	PCG     = real.PCG
	ChaCha8 = real.ChaCha8
)

func NewPCG(a, b uint64) *PCG                          { return real.NewPCG(a, b) }
func NewChaCha8(seed [32]byte) *ChaCha8                { return real.NewChaCha8(seed) }
func NewZipf(r *Rand, s, v float64, imax uint64) *Zipf { return real.NewZipf(r, s, v, imax) }
func Perm(n int) []int                                 { return real.Perm(n) }
func Shuffle(n int, swap func(i, j int))               { real.Shuffle(n, swap) }
func NormFloat64() float64                             { return real.NormFloat64() }
func ExpFloat64() float64                              { return real.ExpFloat64() }

func N[I interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}](n I) I {
	if v, ok := vsched.DrawN(uint64(n)); ok && n > 0 {
		return I(v)
	}
	if c := vsched.Draw(); c >= 0 && n > 0 {
		return [...]I{0, n - 1, n / 2}[c]
	}
	return real.N(n)
}

// source draws from a generator of the library's own.
type source struct{ s Source }

func (x source) Uint64() uint64 {
	if v, ok := vsched.DrawBits(64); ok {
		return v
	}
	return x.s.Uint64()
}

func New(s Source) *Rand { return real.New(source{s}) }
