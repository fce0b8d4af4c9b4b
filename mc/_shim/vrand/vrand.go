// Package vrand stands in for math/rand: while a controlled execution runs with
// scripted randomness, draws take their extreme values instead.
package vrand

import (
	real "math/rand"

	"github.com/xconnio/wampproto-go/verifshim/vsched"
)

func Intn(n int) int {
	if v, ok := vsched.DrawN(uint64(n)); ok && n > 0 {
		return int(v)
	}
	if c := vsched.Draw(); c >= 0 && n > 0 {
		return [...]int{0, n - 1, n / 2}[c]
	}
	return real.Intn(n)
}

func Int63n(n int64) int64 {
	if v, ok := vsched.DrawN(uint64(n)); ok && n > 0 {
		return int64(v)
	}
	if c := vsched.Draw(); c >= 0 && n > 0 {
		return [...]int64{0, n - 1, n / 2}[c]
	}
	return real.Int63n(n)
}

func Int31n(n int32) int32 {
	if v, ok := vsched.DrawN(uint64(n)); ok && n > 0 {
		return int32(v)
	}
	if c := vsched.Draw(); c >= 0 && n > 0 {
		return [...]int32{0, n - 1, n / 2}[c]
	}
	return real.Int31n(n)
}

func Int63() int64 {
	if v, ok := vsched.DrawBits(63); ok {
		return int64(v)
	}
	if c := vsched.Draw(); c >= 0 {
		return [...]int64{0, 1<<63 - 1, 1 << 53}[c]
	}
	return real.Int63()
}

func Int31() int32 {
	if v, ok := vsched.DrawBits(31); ok {
		return int32(v)
	}
	if c := vsched.Draw(); c >= 0 {
		return [...]int32{0, 1<<31 - 1, 1 << 20}[c]
	}
	return real.Int31()
}

func Int() int {
	if v, ok := vsched.DrawBits(63); ok {
		return int(v)
	}
	if c := vsched.Draw(); c >= 0 {
		return [...]int{0, 1<<63 - 1, 1 << 53}[c]
	}
	return real.Int()
}

func Uint64() uint64 {
	if v, ok := vsched.DrawBits(64); ok {
		return uint64(v)
	}
	if c := vsched.Draw(); c >= 0 {
		return [...]uint64{0, 1<<64 - 1, 1 << 53}[c]
	}
	return real.Uint64()
}

func Uint32() uint32 {
	if v, ok := vsched.DrawBits(32); ok {
		return uint32(v)
	}
	if c := vsched.Draw(); c >= 0 {
		return [...]uint32{0, 1<<32 - 1, 1 << 20}[c]
	}
	return real.Uint32()
}

func Float64() float64 {
	if v, ok := vsched.DrawFrac(16); ok {
		return (float64(v) + 0.5) / 16
	}
	if c := vsched.Draw(); c >= 0 {
		return [...]float64{0, 0x1.fffffffffffffp-1, 0.5}[c]
	}
	return real.Float64()
}

func Float32() float32 {
	if v, ok := vsched.DrawFrac(16); ok {
		return (float32(v) + 0.5) / 16
	}
	if c := vsched.Draw(); c >= 0 {
		return [...]float32{0, 0x1.fffffep-1, 0.5}[c]
	}
	return real.Float32()
}

type (
	Rand     = real.Rand
	Source   = real.Source
	Source64 = real.Source64
	Zipf     = real.Zipf
)

func NewSource(seed int64) Source                      { return real.NewSource(seed) }
func NewZipf(r *Rand, s, v float64, imax uint64) *Zipf { return real.NewZipf(r, s, v, imax) }

// source draws from a generator of the library's own.
type source struct{ s Source }

func (x source) Seed(seed int64) { x.s.Seed(seed) }
func (x source) Uint64() uint64 {
	if v, ok := vsched.DrawBits(64); ok {
		return v
	}
	if y, ok := x.s.(interface{ Uint64() uint64 }); ok {
		return y.Uint64()
	}
	return uint64(x.s.Int63())>>31 | uint64(x.s.Int63())<<32
}
func (x source) Int63() int64 {
	if v, ok := vsched.DrawBits(63); ok {
		return int64(v)
	}
	return x.s.Int63()
}

func New(s Source) *Rand                 { return real.New(source{s}) }
func Seed(seed int64)                    { real.Seed(seed) } //nolint
func Perm(n int) []int                   { return real.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { real.Shuffle(n, swap) }
func Read(p []byte) (int, error)         { return real.Read(p) } //nolint
func NormFloat64() float64               { return real.NormFloat64() }
func ExpFloat64() float64                { return real.ExpFloat64() }
