// Package atomic replaces sync/atomic inside the simulator.
package atomic

import (
	"sync/atomic"
	"unsafe"

	"zz.test/sim"
)

type noCopy struct{}

func pt(p unsafe.Pointer, what string, w, r bool) {
	if sim.S == nil {
		return
	}
	sim.Point(what)
	sim.Atomic(p, w, r)
}

func LoadInt32(a *int32) int32 {
	pt(unsafe.Pointer(a), "atomic load", false, true)
	return atomic.LoadInt32(a)
}
func StoreInt32(a *int32, v int32) {
	pt(unsafe.Pointer(a), "atomic store", true, false)
	atomic.StoreInt32(a, v)
}
func AddInt32(a *int32, d int32) int32 {
	pt(unsafe.Pointer(a), "atomic add", true, true)
	return atomic.AddInt32(a, d)
}
func SwapInt32(a *int32, v int32) int32 {
	pt(unsafe.Pointer(a), "atomic swap", true, true)
	return atomic.SwapInt32(a, v)
}
func CompareAndSwapInt32(a *int32, o, n int32) bool {
	if sim.S != nil {
		sim.Point("atomic cas")
		sim.Atomic(unsafe.Pointer(a), *a == o, true)
	}
	return atomic.CompareAndSwapInt32(a, o, n)
}
func AndInt32(a *int32, m int32) int32 {
	pt(unsafe.Pointer(a), "atomic and", true, true)
	o := *a
	*a = o & m
	return o
}
func OrInt32(a *int32, m int32) int32 {
	pt(unsafe.Pointer(a), "atomic or", true, true)
	o := *a
	*a = o | m
	return o
}

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&x.v, o, n) }
func (x *Int32) And(m int32) int32              { return AndInt32(&x.v, m) }
func (x *Int32) Or(m int32) int32               { return OrInt32(&x.v, m) }

func LoadInt64(a *int64) int64 {
	pt(unsafe.Pointer(a), "atomic load", false, true)
	return atomic.LoadInt64(a)
}
func StoreInt64(a *int64, v int64) {
	pt(unsafe.Pointer(a), "atomic store", true, false)
	atomic.StoreInt64(a, v)
}
func AddInt64(a *int64, d int64) int64 {
	pt(unsafe.Pointer(a), "atomic add", true, true)
	return atomic.AddInt64(a, d)
}
func SwapInt64(a *int64, v int64) int64 {
	pt(unsafe.Pointer(a), "atomic swap", true, true)
	return atomic.SwapInt64(a, v)
}
func CompareAndSwapInt64(a *int64, o, n int64) bool {
	if sim.S != nil {
		sim.Point("atomic cas")
		sim.Atomic(unsafe.Pointer(a), *a == o, true)
	}
	return atomic.CompareAndSwapInt64(a, o, n)
}
func AndInt64(a *int64, m int64) int64 {
	pt(unsafe.Pointer(a), "atomic and", true, true)
	o := *a
	*a = o & m
	return o
}
func OrInt64(a *int64, m int64) int64 {
	pt(unsafe.Pointer(a), "atomic or", true, true)
	o := *a
	*a = o | m
	return o
}

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&x.v, o, n) }
func (x *Int64) And(m int64) int64              { return AndInt64(&x.v, m) }
func (x *Int64) Or(m int64) int64               { return OrInt64(&x.v, m) }

func LoadUint32(a *uint32) uint32 {
	pt(unsafe.Pointer(a), "atomic load", false, true)
	return atomic.LoadUint32(a)
}
func StoreUint32(a *uint32, v uint32) {
	pt(unsafe.Pointer(a), "atomic store", true, false)
	atomic.StoreUint32(a, v)
}
func AddUint32(a *uint32, d uint32) uint32 {
	pt(unsafe.Pointer(a), "atomic add", true, true)
	return atomic.AddUint32(a, d)
}
func SwapUint32(a *uint32, v uint32) uint32 {
	pt(unsafe.Pointer(a), "atomic swap", true, true)
	return atomic.SwapUint32(a, v)
}
func CompareAndSwapUint32(a *uint32, o, n uint32) bool {
	if sim.S != nil {
		sim.Point("atomic cas")
		sim.Atomic(unsafe.Pointer(a), *a == o, true)
	}
	return atomic.CompareAndSwapUint32(a, o, n)
}
func AndUint32(a *uint32, m uint32) uint32 {
	pt(unsafe.Pointer(a), "atomic and", true, true)
	o := *a
	*a = o & m
	return o
}
func OrUint32(a *uint32, m uint32) uint32 {
	pt(unsafe.Pointer(a), "atomic or", true, true)
	o := *a
	*a = o | m
	return o
}

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&x.v, o, n) }
func (x *Uint32) And(m uint32) uint32             { return AndUint32(&x.v, m) }
func (x *Uint32) Or(m uint32) uint32              { return OrUint32(&x.v, m) }

func LoadUint64(a *uint64) uint64 {
	pt(unsafe.Pointer(a), "atomic load", false, true)
	return atomic.LoadUint64(a)
}
func StoreUint64(a *uint64, v uint64) {
	pt(unsafe.Pointer(a), "atomic store", true, false)
	atomic.StoreUint64(a, v)
}
func AddUint64(a *uint64, d uint64) uint64 {
	pt(unsafe.Pointer(a), "atomic add", true, true)
	return atomic.AddUint64(a, d)
}
func SwapUint64(a *uint64, v uint64) uint64 {
	pt(unsafe.Pointer(a), "atomic swap", true, true)
	return atomic.SwapUint64(a, v)
}
func CompareAndSwapUint64(a *uint64, o, n uint64) bool {
	if sim.S != nil {
		sim.Point("atomic cas")
		sim.Atomic(unsafe.Pointer(a), *a == o, true)
	}
	return atomic.CompareAndSwapUint64(a, o, n)
}
func AndUint64(a *uint64, m uint64) uint64 {
	pt(unsafe.Pointer(a), "atomic and", true, true)
	o := *a
	*a = o & m
	return o
}
func OrUint64(a *uint64, m uint64) uint64 {
	pt(unsafe.Pointer(a), "atomic or", true, true)
	o := *a
	*a = o | m
	return o
}

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&x.v, o, n) }
func (x *Uint64) And(m uint64) uint64             { return AndUint64(&x.v, m) }
func (x *Uint64) Or(m uint64) uint64              { return OrUint64(&x.v, m) }

func LoadUintptr(a *uintptr) uintptr {
	pt(unsafe.Pointer(a), "atomic load", false, true)
	return atomic.LoadUintptr(a)
}
func StoreUintptr(a *uintptr, v uintptr) {
	pt(unsafe.Pointer(a), "atomic store", true, false)
	atomic.StoreUintptr(a, v)
}
func AddUintptr(a *uintptr, d uintptr) uintptr {
	pt(unsafe.Pointer(a), "atomic add", true, true)
	return atomic.AddUintptr(a, d)
}
func SwapUintptr(a *uintptr, v uintptr) uintptr {
	pt(unsafe.Pointer(a), "atomic swap", true, true)
	return atomic.SwapUintptr(a, v)
}
func CompareAndSwapUintptr(a *uintptr, o, n uintptr) bool {
	if sim.S != nil {
		sim.Point("atomic cas")
		sim.Atomic(unsafe.Pointer(a), *a == o, true)
	}
	return atomic.CompareAndSwapUintptr(a, o, n)
}
func AndUintptr(a *uintptr, m uintptr) uintptr {
	pt(unsafe.Pointer(a), "atomic and", true, true)
	o := *a
	*a = o & m
	return o
}
func OrUintptr(a *uintptr, m uintptr) uintptr {
	pt(unsafe.Pointer(a), "atomic or", true, true)
	o := *a
	*a = o | m
	return o
}

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&x.v, d) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&x.v, v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&x.v, o, n) }
func (x *Uintptr) And(m uintptr) uintptr            { return AndUintptr(&x.v, m) }
func (x *Uintptr) Or(m uintptr) uintptr             { return OrUintptr(&x.v, m) }

func LoadPointer(a *unsafe.Pointer) unsafe.Pointer {
	pt(unsafe.Pointer(a), "atomic load", false, true)
	return atomic.LoadPointer(a)
}
func StorePointer(a *unsafe.Pointer, v unsafe.Pointer) {
	pt(unsafe.Pointer(a), "atomic store", true, false)
	atomic.StorePointer(a, v)
}
func SwapPointer(a *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	pt(unsafe.Pointer(a), "atomic swap", true, true)
	return atomic.SwapPointer(a, v)
}
func CompareAndSwapPointer(a *unsafe.Pointer, o, n unsafe.Pointer) bool {
	pt(unsafe.Pointer(a), "atomic cas", true, true)
	return atomic.CompareAndSwapPointer(a, o, n)
}

// Pointer is atomic.Pointer.
type Pointer[T any] struct {
	_ [0]*T
	p unsafe.Pointer
}

func (x *Pointer[T]) Load() *T {
	pt(unsafe.Pointer(&x.p), "atomic load", false, true)
	return (*T)(atomic.LoadPointer(&x.p))
}
func (x *Pointer[T]) Store(v *T) {
	pt(unsafe.Pointer(&x.p), "atomic store", true, false)
	atomic.StorePointer(&x.p, unsafe.Pointer(v))
}
func (x *Pointer[T]) Swap(v *T) *T {
	pt(unsafe.Pointer(&x.p), "atomic swap", true, true)
	return (*T)(atomic.SwapPointer(&x.p, unsafe.Pointer(v)))
}
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	if sim.S == nil {
		return atomic.CompareAndSwapPointer(&x.p, unsafe.Pointer(o), unsafe.Pointer(n))
	}
	sim.Point("atomic cas")
	hit := x.p == unsafe.Pointer(o)
	sim.Atomic(unsafe.Pointer(&x.p), hit, true)
	return atomic.CompareAndSwapPointer(&x.p, unsafe.Pointer(o), unsafe.Pointer(n))
}

// Bool is atomic.Bool.
type Bool struct{ v uint32 }

func b32(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}
func (x *Bool) Load() bool                    { return LoadUint32(&x.v) != 0 }
func (x *Bool) Store(v bool)                  { StoreUint32(&x.v, b32(v)) }
func (x *Bool) Swap(v bool) bool              { return SwapUint32(&x.v, b32(v)) != 0 }
func (x *Bool) CompareAndSwap(o, n bool) bool { return CompareAndSwapUint32(&x.v, b32(o), b32(n)) }

// Value is atomic.Value.
type Value struct{ v any }

func (x *Value) Load() any {
	pt(unsafe.Pointer(&x.v), "atomic load", false, true)
	return x.v
}
func (x *Value) check(v any) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
}
func (x *Value) Store(v any) {
	x.check(v)
	pt(unsafe.Pointer(&x.v), "atomic store", true, false)
	x.v = v
}
func (x *Value) Swap(v any) any {
	x.check(v)
	pt(unsafe.Pointer(&x.v), "atomic swap", true, true)
	o := x.v
	x.v = v
	return o
}
func (x *Value) CompareAndSwap(o, n any) bool {
	x.check(n)
	pt(unsafe.Pointer(&x.v), "atomic cas", true, true)
	if x.v != o {
		return false
	}
	x.v = n
	return true
}
