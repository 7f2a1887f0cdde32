// Package simatomic is sync/atomic with a scheduling point before every operation.
package simatomic

import (
	"sync/atomic"
	"unsafe"

	"verifsim/rt"
)

func AddInt32(p *int32, d int32) int32         { rt.Yield(rt.KAtomic); return atomic.AddInt32(p, d) }
func AndInt32(p *int32, d int32) int32         { rt.Yield(rt.KAtomic); return atomic.AndInt32(p, d) }
func OrInt32(p *int32, d int32) int32          { rt.Yield(rt.KAtomic); return atomic.OrInt32(p, d) }
func AddInt64(p *int64, d int64) int64         { rt.Yield(rt.KAtomic); return atomic.AddInt64(p, d) }
func AndInt64(p *int64, d int64) int64         { rt.Yield(rt.KAtomic); return atomic.AndInt64(p, d) }
func OrInt64(p *int64, d int64) int64          { rt.Yield(rt.KAtomic); return atomic.OrInt64(p, d) }
func AddUint32(p *uint32, d uint32) uint32     { rt.Yield(rt.KAtomic); return atomic.AddUint32(p, d) }
func AndUint32(p *uint32, d uint32) uint32     { rt.Yield(rt.KAtomic); return atomic.AndUint32(p, d) }
func OrUint32(p *uint32, d uint32) uint32      { rt.Yield(rt.KAtomic); return atomic.OrUint32(p, d) }
func AddUint64(p *uint64, d uint64) uint64     { rt.Yield(rt.KAtomic); return atomic.AddUint64(p, d) }
func AndUint64(p *uint64, d uint64) uint64     { rt.Yield(rt.KAtomic); return atomic.AndUint64(p, d) }
func OrUint64(p *uint64, d uint64) uint64      { rt.Yield(rt.KAtomic); return atomic.OrUint64(p, d) }
func AddUintptr(p *uintptr, d uintptr) uintptr { rt.Yield(rt.KAtomic); return atomic.AddUintptr(p, d) }
func AndUintptr(p *uintptr, d uintptr) uintptr { rt.Yield(rt.KAtomic); return atomic.AndUintptr(p, d) }
func OrUintptr(p *uintptr, d uintptr) uintptr  { rt.Yield(rt.KAtomic); return atomic.OrUintptr(p, d) }
func LoadInt32(p *int32) int32                 { rt.Yield(rt.KAtomic); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)             { rt.Yield(rt.KAtomic); atomic.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32        { rt.Yield(rt.KAtomic); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, a, b int32) bool {
	rt.Yield(rt.KAtomic)
	return atomic.CompareAndSwapInt32(p, a, b)
}
func LoadInt64(p *int64) int64          { rt.Yield(rt.KAtomic); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { rt.Yield(rt.KAtomic); atomic.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { rt.Yield(rt.KAtomic); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, a, b int64) bool {
	rt.Yield(rt.KAtomic)
	return atomic.CompareAndSwapInt64(p, a, b)
}
func LoadUint32(p *uint32) uint32           { rt.Yield(rt.KAtomic); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { rt.Yield(rt.KAtomic); atomic.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { rt.Yield(rt.KAtomic); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	rt.Yield(rt.KAtomic)
	return atomic.CompareAndSwapUint32(p, a, b)
}
func LoadUint64(p *uint64) uint64           { rt.Yield(rt.KAtomic); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { rt.Yield(rt.KAtomic); atomic.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { rt.Yield(rt.KAtomic); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, a, b uint64) bool {
	rt.Yield(rt.KAtomic)
	return atomic.CompareAndSwapUint64(p, a, b)
}
func LoadUintptr(p *uintptr) uintptr     { rt.Yield(rt.KAtomic); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr) { rt.Yield(rt.KAtomic); atomic.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	rt.Yield(rt.KAtomic)
	return atomic.SwapUintptr(p, v)
}
func CompareAndSwapUintptr(p *uintptr, a, b uintptr) bool {
	rt.Yield(rt.KAtomic)
	return atomic.CompareAndSwapUintptr(p, a, b)
}
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	rt.Yield(rt.KAtomic)
	return atomic.LoadPointer(p)
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	rt.Yield(rt.KAtomic)
	atomic.StorePointer(p, v)
}
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	rt.Yield(rt.KAtomic)
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, a, b unsafe.Pointer) bool {
	rt.Yield(rt.KAtomic)
	return atomic.CompareAndSwapPointer(p, a, b)
}

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32        { rt.Yield(rt.KAtomic); return x.v.Load() }
func (x *Int32) Store(v int32)      { rt.Yield(rt.KAtomic); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32 { rt.Yield(rt.KAtomic); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(a, b int32) bool {
	rt.Yield(rt.KAtomic)
	return x.v.CompareAndSwap(a, b)
}
func (x *Int32) Add(d int32) int32 { rt.Yield(rt.KAtomic); return x.v.Add(d) }
func (x *Int32) And(d int32) int32 { rt.Yield(rt.KAtomic); return x.v.And(d) }
func (x *Int32) Or(d int32) int32  { rt.Yield(rt.KAtomic); return x.v.Or(d) }

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64        { rt.Yield(rt.KAtomic); return x.v.Load() }
func (x *Int64) Store(v int64)      { rt.Yield(rt.KAtomic); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64 { rt.Yield(rt.KAtomic); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(a, b int64) bool {
	rt.Yield(rt.KAtomic)
	return x.v.CompareAndSwap(a, b)
}
func (x *Int64) Add(d int64) int64 { rt.Yield(rt.KAtomic); return x.v.Add(d) }
func (x *Int64) And(d int64) int64 { rt.Yield(rt.KAtomic); return x.v.And(d) }
func (x *Int64) Or(d int64) int64  { rt.Yield(rt.KAtomic); return x.v.Or(d) }

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32         { rt.Yield(rt.KAtomic); return x.v.Load() }
func (x *Uint32) Store(v uint32)       { rt.Yield(rt.KAtomic); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32 { rt.Yield(rt.KAtomic); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(a, b uint32) bool {
	rt.Yield(rt.KAtomic)
	return x.v.CompareAndSwap(a, b)
}
func (x *Uint32) Add(d uint32) uint32 { rt.Yield(rt.KAtomic); return x.v.Add(d) }
func (x *Uint32) And(d uint32) uint32 { rt.Yield(rt.KAtomic); return x.v.And(d) }
func (x *Uint32) Or(d uint32) uint32  { rt.Yield(rt.KAtomic); return x.v.Or(d) }

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64         { rt.Yield(rt.KAtomic); return x.v.Load() }
func (x *Uint64) Store(v uint64)       { rt.Yield(rt.KAtomic); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64 { rt.Yield(rt.KAtomic); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(a, b uint64) bool {
	rt.Yield(rt.KAtomic)
	return x.v.CompareAndSwap(a, b)
}
func (x *Uint64) Add(d uint64) uint64 { rt.Yield(rt.KAtomic); return x.v.Add(d) }
func (x *Uint64) And(d uint64) uint64 { rt.Yield(rt.KAtomic); return x.v.And(d) }
func (x *Uint64) Or(d uint64) uint64  { rt.Yield(rt.KAtomic); return x.v.Or(d) }

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr          { rt.Yield(rt.KAtomic); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)        { rt.Yield(rt.KAtomic); x.v.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr { rt.Yield(rt.KAtomic); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(a, b uintptr) bool {
	rt.Yield(rt.KAtomic)
	return x.v.CompareAndSwap(a, b)
}
func (x *Uintptr) Add(d uintptr) uintptr { rt.Yield(rt.KAtomic); return x.v.Add(d) }
func (x *Uintptr) And(d uintptr) uintptr { rt.Yield(rt.KAtomic); return x.v.And(d) }
func (x *Uintptr) Or(d uintptr) uintptr  { rt.Yield(rt.KAtomic); return x.v.Or(d) }

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { rt.Yield(rt.KAtomic); return x.v.Load() }
func (x *Bool) Store(v bool)                  { rt.Yield(rt.KAtomic); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { rt.Yield(rt.KAtomic); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(a, b bool) bool { rt.Yield(rt.KAtomic); return x.v.CompareAndSwap(a, b) }

type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { rt.Yield(rt.KAtomic); return x.v.Load() }
func (x *Value) Store(v any)                  { rt.Yield(rt.KAtomic); x.v.Store(v) }
func (x *Value) Swap(v any) any               { rt.Yield(rt.KAtomic); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(a, b any) bool { rt.Yield(rt.KAtomic); return x.v.CompareAndSwap(a, b) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T     { rt.Yield(rt.KAtomic); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)   { rt.Yield(rt.KAtomic); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T { rt.Yield(rt.KAtomic); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(a, b *T) bool {
	rt.Yield(rt.KAtomic)
	return x.v.CompareAndSwap(a, b)
}
