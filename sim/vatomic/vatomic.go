// Package vatomic stands in for sync/atomic inside the simulator: the real
// operations, with scheduling points around them.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"spagosim/vsim"
)

func pt(p unsafe.Pointer) { vsim.SyncOp("atomic", p) }

func AddInt32(p *int32, d int32) int32 {
	pt(unsafe.Pointer(p))
	defer vsim.Y()
	return atomic.AddInt32(p, d)
}
func AddInt64(p *int64, d int64) int64 {
	pt(unsafe.Pointer(p))
	defer vsim.Y()
	return atomic.AddInt64(p, d)
}
func AddUint32(p *uint32, d uint32) uint32 {
	pt(unsafe.Pointer(p))
	defer vsim.Y()
	return atomic.AddUint32(p, d)
}
func AddUint64(p *uint64, d uint64) uint64 {
	pt(unsafe.Pointer(p))
	defer vsim.Y()
	return atomic.AddUint64(p, d)
}
func AddUintptr(p *uintptr, d uintptr) uintptr {
	pt(unsafe.Pointer(p))
	defer vsim.Y()
	return atomic.AddUintptr(p, d)
}
func LoadInt32(p *int32) int32    { pt(unsafe.Pointer(p)); defer vsim.Y(); return atomic.LoadInt32(p) }
func LoadInt64(p *int64) int64    { pt(unsafe.Pointer(p)); defer vsim.Y(); return atomic.LoadInt64(p) }
func LoadUint32(p *uint32) uint32 { pt(unsafe.Pointer(p)); defer vsim.Y(); return atomic.LoadUint32(p) }
func LoadUint64(p *uint64) uint64 { pt(unsafe.Pointer(p)); defer vsim.Y(); return atomic.LoadUint64(p) }
func LoadUintptr(p *uintptr) uintptr {
	pt(unsafe.Pointer(p))
	defer vsim.Y()
	return atomic.LoadUintptr(p)
}
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	pt(unsafe.Pointer(p))
	defer vsim.Y()
	return atomic.LoadPointer(p)
}
func StoreInt32(p *int32, v int32)       { pt(unsafe.Pointer(p)); atomic.StoreInt32(p, v); vsim.Y() }
func StoreInt64(p *int64, v int64)       { pt(unsafe.Pointer(p)); atomic.StoreInt64(p, v); vsim.Y() }
func StoreUint32(p *uint32, v uint32)    { pt(unsafe.Pointer(p)); atomic.StoreUint32(p, v); vsim.Y() }
func StoreUint64(p *uint64, v uint64)    { pt(unsafe.Pointer(p)); atomic.StoreUint64(p, v); vsim.Y() }
func StoreUintptr(p *uintptr, v uintptr) { pt(unsafe.Pointer(p)); atomic.StoreUintptr(p, v); vsim.Y() }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	pt(unsafe.Pointer(p))
	atomic.StorePointer(p, v)
	vsim.Y()
}
func SwapInt32(p *int32, v int32) int32 {
	pt(unsafe.Pointer(p))
	defer vsim.Y()
	return atomic.SwapInt32(p, v)
}
func SwapInt64(p *int64, v int64) int64 {
	pt(unsafe.Pointer(p))
	defer vsim.Y()
	return atomic.SwapInt64(p, v)
}
func SwapUint32(p *uint32, v uint32) uint32 {
	pt(unsafe.Pointer(p))
	defer vsim.Y()
	return atomic.SwapUint32(p, v)
}
func SwapUint64(p *uint64, v uint64) uint64 {
	pt(unsafe.Pointer(p))
	defer vsim.Y()
	return atomic.SwapUint64(p, v)
}
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	pt(unsafe.Pointer(p))
	defer vsim.Y()
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	pt(unsafe.Pointer(p))
	defer vsim.Y()
	return atomic.CompareAndSwapInt32(p, o, n)
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	pt(unsafe.Pointer(p))
	defer vsim.Y()
	return atomic.CompareAndSwapInt64(p, o, n)
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	pt(unsafe.Pointer(p))
	defer vsim.Y()
	return atomic.CompareAndSwapUint32(p, o, n)
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	pt(unsafe.Pointer(p))
	defer vsim.Y()
	return atomic.CompareAndSwapUint64(p, o, n)
}
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	pt(unsafe.Pointer(p))
	defer vsim.Y()
	return atomic.CompareAndSwapUintptr(p, o, n)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	pt(unsafe.Pointer(p))
	defer vsim.Y()
	return atomic.CompareAndSwapPointer(p, o, n)
}

type Int32 struct{ v atomic.Int32 }

func (x *Int32) p()                 { pt(unsafe.Pointer(x)) }
func (x *Int32) Load() int32        { x.p(); defer vsim.Y(); return x.v.Load() }
func (x *Int32) Store(v int32)      { x.p(); x.v.Store(v); vsim.Y() }
func (x *Int32) Swap(v int32) int32 { x.p(); defer vsim.Y(); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool {
	x.p()
	defer vsim.Y()
	return x.v.CompareAndSwap(o, n)
}
func (x *Int32) Add(d int32) int32 { x.p(); defer vsim.Y(); return x.v.Add(d) }
func (x *Int32) And(m int32) int32 { x.p(); defer vsim.Y(); return x.v.And(m) }
func (x *Int32) Or(m int32) int32  { x.p(); defer vsim.Y(); return x.v.Or(m) }

type Int64 struct{ v atomic.Int64 }

func (x *Int64) p()                 { pt(unsafe.Pointer(x)) }
func (x *Int64) Load() int64        { x.p(); defer vsim.Y(); return x.v.Load() }
func (x *Int64) Store(v int64)      { x.p(); x.v.Store(v); vsim.Y() }
func (x *Int64) Swap(v int64) int64 { x.p(); defer vsim.Y(); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool {
	x.p()
	defer vsim.Y()
	return x.v.CompareAndSwap(o, n)
}
func (x *Int64) Add(d int64) int64 { x.p(); defer vsim.Y(); return x.v.Add(d) }
func (x *Int64) And(m int64) int64 { x.p(); defer vsim.Y(); return x.v.And(m) }
func (x *Int64) Or(m int64) int64  { x.p(); defer vsim.Y(); return x.v.Or(m) }

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) p()                   { pt(unsafe.Pointer(x)) }
func (x *Uint32) Load() uint32         { x.p(); defer vsim.Y(); return x.v.Load() }
func (x *Uint32) Store(v uint32)       { x.p(); x.v.Store(v); vsim.Y() }
func (x *Uint32) Swap(v uint32) uint32 { x.p(); defer vsim.Y(); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	x.p()
	defer vsim.Y()
	return x.v.CompareAndSwap(o, n)
}
func (x *Uint32) Add(d uint32) uint32 { x.p(); defer vsim.Y(); return x.v.Add(d) }
func (x *Uint32) And(m uint32) uint32 { x.p(); defer vsim.Y(); return x.v.And(m) }
func (x *Uint32) Or(m uint32) uint32  { x.p(); defer vsim.Y(); return x.v.Or(m) }

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) p()                   { pt(unsafe.Pointer(x)) }
func (x *Uint64) Load() uint64         { x.p(); defer vsim.Y(); return x.v.Load() }
func (x *Uint64) Store(v uint64)       { x.p(); x.v.Store(v); vsim.Y() }
func (x *Uint64) Swap(v uint64) uint64 { x.p(); defer vsim.Y(); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	x.p()
	defer vsim.Y()
	return x.v.CompareAndSwap(o, n)
}
func (x *Uint64) Add(d uint64) uint64 { x.p(); defer vsim.Y(); return x.v.Add(d) }
func (x *Uint64) And(m uint64) uint64 { x.p(); defer vsim.Y(); return x.v.And(m) }
func (x *Uint64) Or(m uint64) uint64  { x.p(); defer vsim.Y(); return x.v.Or(m) }

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) p()                     { pt(unsafe.Pointer(x)) }
func (x *Uintptr) Load() uintptr          { x.p(); defer vsim.Y(); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)        { x.p(); x.v.Store(v); vsim.Y() }
func (x *Uintptr) Swap(v uintptr) uintptr { x.p(); defer vsim.Y(); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	x.p()
	defer vsim.Y()
	return x.v.CompareAndSwap(o, n)
}
func (x *Uintptr) Add(d uintptr) uintptr { x.p(); defer vsim.Y(); return x.v.Add(d) }

type Bool struct{ v atomic.Bool }

func (x *Bool) p()                            { pt(unsafe.Pointer(x)) }
func (x *Bool) Load() bool                    { x.p(); defer vsim.Y(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { x.p(); x.v.Store(v); vsim.Y() }
func (x *Bool) Swap(v bool) bool              { x.p(); defer vsim.Y(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { x.p(); defer vsim.Y(); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) p()           { pt(unsafe.Pointer(x)) }
func (x *Pointer[T]) Load() *T     { x.p(); defer vsim.Y(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)   { x.p(); x.v.Store(v); vsim.Y() }
func (x *Pointer[T]) Swap(v *T) *T { x.p(); defer vsim.Y(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	x.p()
	defer vsim.Y()
	return x.v.CompareAndSwap(o, n)
}

type Value struct{ v atomic.Value }

func (x *Value) p()                           { pt(unsafe.Pointer(x)) }
func (x *Value) Load() any                    { x.p(); defer vsim.Y(); return x.v.Load() }
func (x *Value) Store(v any)                  { x.p(); x.v.Store(v); vsim.Y() }
func (x *Value) Swap(v any) any               { x.p(); defer vsim.Y(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool { x.p(); defer vsim.Y(); return x.v.CompareAndSwap(o, n) }
