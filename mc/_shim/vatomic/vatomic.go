// Package vatomic stands in for sync/atomic: a scheduling point before each operation.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/xconnio/wampproto-go/verifshim/vsched"
)

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { vsched.Point(); return x.v.Load() }
func (x *Int32) Store(n int32)                  { vsched.Point(); x.v.Store(n) }
func (x *Int32) Swap(n int32) int32             { vsched.Point(); return x.v.Swap(n) }
func (x *Int32) CompareAndSwap(o, n int32) bool { vsched.Point(); return x.v.CompareAndSwap(o, n) }
func (x *Int32) Add(d int32) int32              { vsched.Point(); return x.v.Add(d) }
func (x *Int32) And(d int32) int32              { vsched.Point(); return x.v.And(d) }
func (x *Int32) Or(d int32) int32               { vsched.Point(); return x.v.Or(d) }

func LoadInt32(p *int32) int32          { vsched.Point(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, n int32)      { vsched.Point(); atomic.StoreInt32(p, n) }
func SwapInt32(p *int32, n int32) int32 { vsched.Point(); return atomic.SwapInt32(p, n) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	vsched.Point()
	return atomic.CompareAndSwapInt32(p, o, n)
}
func AddInt32(p *int32, d int32) int32 { vsched.Point(); return atomic.AddInt32(p, d) }
func AndInt32(p *int32, d int32) int32 { vsched.Point(); return atomic.AndInt32(p, d) }
func OrInt32(p *int32, d int32) int32  { vsched.Point(); return atomic.OrInt32(p, d) }

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { vsched.Point(); return x.v.Load() }
func (x *Int64) Store(n int64)                  { vsched.Point(); x.v.Store(n) }
func (x *Int64) Swap(n int64) int64             { vsched.Point(); return x.v.Swap(n) }
func (x *Int64) CompareAndSwap(o, n int64) bool { vsched.Point(); return x.v.CompareAndSwap(o, n) }
func (x *Int64) Add(d int64) int64              { vsched.Point(); return x.v.Add(d) }
func (x *Int64) And(d int64) int64              { vsched.Point(); return x.v.And(d) }
func (x *Int64) Or(d int64) int64               { vsched.Point(); return x.v.Or(d) }

func LoadInt64(p *int64) int64          { vsched.Point(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, n int64)      { vsched.Point(); atomic.StoreInt64(p, n) }
func SwapInt64(p *int64, n int64) int64 { vsched.Point(); return atomic.SwapInt64(p, n) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	vsched.Point()
	return atomic.CompareAndSwapInt64(p, o, n)
}
func AddInt64(p *int64, d int64) int64 { vsched.Point(); return atomic.AddInt64(p, d) }
func AndInt64(p *int64, d int64) int64 { vsched.Point(); return atomic.AndInt64(p, d) }
func OrInt64(p *int64, d int64) int64  { vsched.Point(); return atomic.OrInt64(p, d) }

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { vsched.Point(); return x.v.Load() }
func (x *Uint32) Store(n uint32)                  { vsched.Point(); x.v.Store(n) }
func (x *Uint32) Swap(n uint32) uint32            { vsched.Point(); return x.v.Swap(n) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { vsched.Point(); return x.v.CompareAndSwap(o, n) }
func (x *Uint32) Add(d uint32) uint32             { vsched.Point(); return x.v.Add(d) }
func (x *Uint32) And(d uint32) uint32             { vsched.Point(); return x.v.And(d) }
func (x *Uint32) Or(d uint32) uint32              { vsched.Point(); return x.v.Or(d) }

func LoadUint32(p *uint32) uint32           { vsched.Point(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, n uint32)       { vsched.Point(); atomic.StoreUint32(p, n) }
func SwapUint32(p *uint32, n uint32) uint32 { vsched.Point(); return atomic.SwapUint32(p, n) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	vsched.Point()
	return atomic.CompareAndSwapUint32(p, o, n)
}
func AddUint32(p *uint32, d uint32) uint32 { vsched.Point(); return atomic.AddUint32(p, d) }
func AndUint32(p *uint32, d uint32) uint32 { vsched.Point(); return atomic.AndUint32(p, d) }
func OrUint32(p *uint32, d uint32) uint32  { vsched.Point(); return atomic.OrUint32(p, d) }

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { vsched.Point(); return x.v.Load() }
func (x *Uint64) Store(n uint64)                  { vsched.Point(); x.v.Store(n) }
func (x *Uint64) Swap(n uint64) uint64            { vsched.Point(); return x.v.Swap(n) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { vsched.Point(); return x.v.CompareAndSwap(o, n) }
func (x *Uint64) Add(d uint64) uint64             { vsched.Point(); return x.v.Add(d) }
func (x *Uint64) And(d uint64) uint64             { vsched.Point(); return x.v.And(d) }
func (x *Uint64) Or(d uint64) uint64              { vsched.Point(); return x.v.Or(d) }

func LoadUint64(p *uint64) uint64           { vsched.Point(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, n uint64)       { vsched.Point(); atomic.StoreUint64(p, n) }
func SwapUint64(p *uint64, n uint64) uint64 { vsched.Point(); return atomic.SwapUint64(p, n) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	vsched.Point()
	return atomic.CompareAndSwapUint64(p, o, n)
}
func AddUint64(p *uint64, d uint64) uint64 { vsched.Point(); return atomic.AddUint64(p, d) }
func AndUint64(p *uint64, d uint64) uint64 { vsched.Point(); return atomic.AndUint64(p, d) }
func OrUint64(p *uint64, d uint64) uint64  { vsched.Point(); return atomic.OrUint64(p, d) }

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr                    { vsched.Point(); return x.v.Load() }
func (x *Uintptr) Store(n uintptr)                  { vsched.Point(); x.v.Store(n) }
func (x *Uintptr) Swap(n uintptr) uintptr           { vsched.Point(); return x.v.Swap(n) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { vsched.Point(); return x.v.CompareAndSwap(o, n) }
func (x *Uintptr) Add(d uintptr) uintptr            { vsched.Point(); return x.v.Add(d) }
func (x *Uintptr) And(d uintptr) uintptr            { vsched.Point(); return x.v.And(d) }
func (x *Uintptr) Or(d uintptr) uintptr             { vsched.Point(); return x.v.Or(d) }

func LoadUintptr(p *uintptr) uintptr            { vsched.Point(); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, n uintptr)        { vsched.Point(); atomic.StoreUintptr(p, n) }
func SwapUintptr(p *uintptr, n uintptr) uintptr { vsched.Point(); return atomic.SwapUintptr(p, n) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	vsched.Point()
	return atomic.CompareAndSwapUintptr(p, o, n)
}
func AddUintptr(p *uintptr, d uintptr) uintptr { vsched.Point(); return atomic.AddUintptr(p, d) }
func AndUintptr(p *uintptr, d uintptr) uintptr { vsched.Point(); return atomic.AndUintptr(p, d) }
func OrUintptr(p *uintptr, d uintptr) uintptr  { vsched.Point(); return atomic.OrUintptr(p, d) }

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { vsched.Point(); return x.v.Load() }
func (x *Bool) Store(n bool)                  { vsched.Point(); x.v.Store(n) }
func (x *Bool) Swap(n bool) bool              { vsched.Point(); return x.v.Swap(n) }
func (x *Bool) CompareAndSwap(o, n bool) bool { vsched.Point(); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { vsched.Point(); return x.v.Load() }
func (x *Pointer[T]) Store(n *T)                  { vsched.Point(); x.v.Store(n) }
func (x *Pointer[T]) Swap(n *T) *T                { vsched.Point(); return x.v.Swap(n) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { vsched.Point(); return x.v.CompareAndSwap(o, n) }

type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { vsched.Point(); return x.v.Load() }
func (x *Value) Store(n any)                  { vsched.Point(); x.v.Store(n) }
func (x *Value) Swap(n any) any               { vsched.Point(); return x.v.Swap(n) }
func (x *Value) CompareAndSwap(o, n any) bool { vsched.Point(); return x.v.CompareAndSwap(o, n) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { vsched.Point(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, n unsafe.Pointer) { vsched.Point(); atomic.StorePointer(p, n) }
func SwapPointer(p *unsafe.Pointer, n unsafe.Pointer) unsafe.Pointer {
	vsched.Point()
	return atomic.SwapPointer(p, n)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	vsched.Point()
	return atomic.CompareAndSwapPointer(p, o, n)
}
