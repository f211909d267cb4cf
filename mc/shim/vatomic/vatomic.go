// Package vatomic wraps sync/atomic: each operation is a scheduling point
// followed by the real atomic operation.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"gevmc/vs"
)

func rd(p unsafe.Pointer, w string) { vs.Mem(p, false, w) }
func wr(p unsafe.Pointer, w string) { vs.Mem(p, true, w) }

func bump(c bool) {
	if c {
		vs.Bump()
	}
}

func AddInt32(p *int32, d int32) int32 {
	wr(unsafe.Pointer(p), "atomic add")
	bump(d != 0)
	return atomic.AddInt32(p, d)
}
func AddInt64(p *int64, d int64) int64 {
	wr(unsafe.Pointer(p), "atomic add")
	bump(d != 0)
	return atomic.AddInt64(p, d)
}
func AddUint32(p *uint32, d uint32) uint32 {
	wr(unsafe.Pointer(p), "atomic add")
	bump(d != 0)
	return atomic.AddUint32(p, d)
}
func AddUint64(p *uint64, d uint64) uint64 {
	wr(unsafe.Pointer(p), "atomic add")
	bump(d != 0)
	return atomic.AddUint64(p, d)
}
func AddUintptr(p *uintptr, d uintptr) uintptr {
	wr(unsafe.Pointer(p), "atomic add")
	bump(d != 0)
	return atomic.AddUintptr(p, d)
}

func LoadInt32(p *int32) int32    { rd(unsafe.Pointer(p), "atomic load"); return atomic.LoadInt32(p) }
func LoadInt64(p *int64) int64    { rd(unsafe.Pointer(p), "atomic load"); return atomic.LoadInt64(p) }
func LoadUint32(p *uint32) uint32 { rd(unsafe.Pointer(p), "atomic load"); return atomic.LoadUint32(p) }
func LoadUint64(p *uint64) uint64 { rd(unsafe.Pointer(p), "atomic load"); return atomic.LoadUint64(p) }
func LoadUintptr(p *uintptr) uintptr {
	rd(unsafe.Pointer(p), "atomic load")
	return atomic.LoadUintptr(p)
}
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	rd(unsafe.Pointer(p), "atomic load")
	return atomic.LoadPointer(p)
}

func StoreInt32(p *int32, v int32) {
	wr(unsafe.Pointer(p), "atomic store")
	bump(atomic.SwapInt32(p, v) != v)
}
func StoreInt64(p *int64, v int64) {
	wr(unsafe.Pointer(p), "atomic store")
	bump(atomic.SwapInt64(p, v) != v)
}
func StoreUint32(p *uint32, v uint32) {
	wr(unsafe.Pointer(p), "atomic store")
	bump(atomic.SwapUint32(p, v) != v)
}
func StoreUint64(p *uint64, v uint64) {
	wr(unsafe.Pointer(p), "atomic store")
	bump(atomic.SwapUint64(p, v) != v)
}
func StoreUintptr(p *uintptr, v uintptr) {
	wr(unsafe.Pointer(p), "atomic store")
	bump(atomic.SwapUintptr(p, v) != v)
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	wr(unsafe.Pointer(p), "atomic store")
	bump(atomic.SwapPointer(p, v) != v)
}

func SwapInt32(p *int32, v int32) int32 {
	wr(unsafe.Pointer(p), "atomic swap")
	o := atomic.SwapInt32(p, v)
	bump(o != v)
	return o
}
func SwapInt64(p *int64, v int64) int64 {
	wr(unsafe.Pointer(p), "atomic swap")
	o := atomic.SwapInt64(p, v)
	bump(o != v)
	return o
}
func SwapUint32(p *uint32, v uint32) uint32 {
	wr(unsafe.Pointer(p), "atomic swap")
	o := atomic.SwapUint32(p, v)
	bump(o != v)
	return o
}
func SwapUint64(p *uint64, v uint64) uint64 {
	wr(unsafe.Pointer(p), "atomic swap")
	o := atomic.SwapUint64(p, v)
	bump(o != v)
	return o
}
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	wr(unsafe.Pointer(p), "atomic swap")
	o := atomic.SwapUintptr(p, v)
	bump(o != v)
	return o
}
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	wr(unsafe.Pointer(p), "atomic swap")
	o := atomic.SwapPointer(p, v)
	bump(o != v)
	return o
}

func cas(ok, ch bool) bool {
	bump(ok && ch)
	return ok
}
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	wr(unsafe.Pointer(p), "atomic cas")
	return cas(atomic.CompareAndSwapInt32(p, o, n), o != n)
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	wr(unsafe.Pointer(p), "atomic cas")
	return cas(atomic.CompareAndSwapInt64(p, o, n), o != n)
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	wr(unsafe.Pointer(p), "atomic cas")
	return cas(atomic.CompareAndSwapUint32(p, o, n), o != n)
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	wr(unsafe.Pointer(p), "atomic cas")
	return cas(atomic.CompareAndSwapUint64(p, o, n), o != n)
}
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	wr(unsafe.Pointer(p), "atomic cas")
	return cas(atomic.CompareAndSwapUintptr(p, o, n), o != n)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	wr(unsafe.Pointer(p), "atomic cas")
	return cas(atomic.CompareAndSwapPointer(p, o, n), o != n)
}

// Value wraps atomic.Value.
type Value struct{ v atomic.Value }

func (x *Value) Load() interface{} { rd(unsafe.Pointer(x), "Value.Load"); return x.v.Load() }
func (x *Value) Store(v interface{}) {
	wr(unsafe.Pointer(x), "Value.Store")
	vs.Bump()
	x.v.Store(v)
}
func (x *Value) Swap(v interface{}) interface{} {
	wr(unsafe.Pointer(x), "Value.Swap")
	vs.Bump()
	return x.v.Swap(v)
}
func (x *Value) CompareAndSwap(o, n interface{}) bool {
	wr(unsafe.Pointer(x), "Value.CompareAndSwap")
	vs.Bump()
	return x.v.CompareAndSwap(o, n)
}

// Bool wraps atomic.Bool.
type Bool struct{ v uint32 }

func b2u(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}
func (x *Bool) Load() bool                    { return LoadUint32(&x.v) == 1 }
func (x *Bool) Store(v bool)                  { StoreUint32(&x.v, b2u(v)) }
func (x *Bool) Swap(v bool) bool              { return SwapUint32(&x.v, b2u(v)) == 1 }
func (x *Bool) CompareAndSwap(o, n bool) bool { return CompareAndSwapUint32(&x.v, b2u(o), b2u(n)) }

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }
func (x *Int32) Add(v int32) int32              { return AddInt32(&x.v, v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&x.v, o, n) }

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }
func (x *Int64) Add(v int64) int64              { return AddInt64(&x.v, v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&x.v, o, n) }

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }
func (x *Uint32) Add(v uint32) uint32             { return AddUint32(&x.v, v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&x.v, o, n) }

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }
func (x *Uint64) Add(v uint64) uint64             { return AddUint64(&x.v, v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&x.v, o, n) }

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&x.v, v) }
func (x *Uintptr) Add(v uintptr) uintptr            { return AddUintptr(&x.v, v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&x.v, o, n) }

// Pointer wraps atomic.Pointer.
type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T { rd(unsafe.Pointer(x), "Pointer.Load"); return x.v.Load() }
func (x *Pointer[T]) Store(p *T) {
	wr(unsafe.Pointer(x), "Pointer.Store")
	vs.Bump()
	x.v.Store(p)
}
func (x *Pointer[T]) Swap(p *T) *T {
	wr(unsafe.Pointer(x), "Pointer.Swap")
	vs.Bump()
	return x.v.Swap(p)
}
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	wr(unsafe.Pointer(x), "Pointer.CompareAndSwap")
	return cas(x.v.CompareAndSwap(o, n), o != n)
}
