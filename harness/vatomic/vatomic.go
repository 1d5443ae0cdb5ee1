// Package vatomic replaces package sync/atomic in instrumented code: each
// operation is a scheduling point followed by the operation.
package vatomic

import (
	"unsafe"

	"verif/harness/sched"
)

func LoadInt32(p *int32) int32 {
	sched.Point()
	skip(p)
	return *p
}

func StoreInt32(p *int32, v int32) {
	sched.Point()
	*p = v
}

func SwapInt32(p *int32, v int32) int32 {
	sched.Point()
	o := *p
	*p = v
	return o
}

func CompareAndSwapInt32(p *int32, o, n int32) bool {
	sched.Point()
	if *p == o {
		*p = n
		return true
	}
	return false
}

func AddInt32(p *int32, d int32) int32 {
	sched.Point()
	skip(p)
	*p += d
	return *p
}

type Int32 struct{ v int32 }

func (x *Int32) Load() int32        { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)      { sched.Point(); x.v = v }
func (x *Int32) Swap(v int32) int32 { sched.Point(); o := x.v; x.v = v; return o }
func (x *Int32) CompareAndSwap(o, n int32) bool {
	sched.Point()
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

func (x *Int32) Add(d int32) int32 { return AddInt32(&x.v, d) }

func LoadInt64(p *int64) int64 {
	sched.Point()
	skip(p)
	return *p
}

func StoreInt64(p *int64, v int64) {
	sched.Point()
	*p = v
}

func SwapInt64(p *int64, v int64) int64 {
	sched.Point()
	o := *p
	*p = v
	return o
}

func CompareAndSwapInt64(p *int64, o, n int64) bool {
	sched.Point()
	if *p == o {
		*p = n
		return true
	}
	return false
}

func AddInt64(p *int64, d int64) int64 {
	sched.Point()
	skip(p)
	*p += d
	return *p
}

type Int64 struct{ v int64 }

func (x *Int64) Load() int64        { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)      { sched.Point(); x.v = v }
func (x *Int64) Swap(v int64) int64 { sched.Point(); o := x.v; x.v = v; return o }
func (x *Int64) CompareAndSwap(o, n int64) bool {
	sched.Point()
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

func (x *Int64) Add(d int64) int64 { return AddInt64(&x.v, d) }

func LoadUint32(p *uint32) uint32 {
	sched.Point()
	skip(p)
	return *p
}

func StoreUint32(p *uint32, v uint32) {
	sched.Point()
	*p = v
}

func SwapUint32(p *uint32, v uint32) uint32 {
	sched.Point()
	o := *p
	*p = v
	return o
}

func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	sched.Point()
	if *p == o {
		*p = n
		return true
	}
	return false
}

func AddUint32(p *uint32, d uint32) uint32 {
	sched.Point()
	skip(p)
	*p += d
	return *p
}

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32         { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)       { sched.Point(); x.v = v }
func (x *Uint32) Swap(v uint32) uint32 { sched.Point(); o := x.v; x.v = v; return o }
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	sched.Point()
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

func (x *Uint32) Add(d uint32) uint32 { return AddUint32(&x.v, d) }

func LoadUint64(p *uint64) uint64 {
	sched.Point()
	skip(p)
	return *p
}

func StoreUint64(p *uint64, v uint64) {
	sched.Point()
	*p = v
}

func SwapUint64(p *uint64, v uint64) uint64 {
	sched.Point()
	o := *p
	*p = v
	return o
}

func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	sched.Point()
	if *p == o {
		*p = n
		return true
	}
	return false
}

func AddUint64(p *uint64, d uint64) uint64 {
	sched.Point()
	skip(p)
	*p += d
	return *p
}

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64         { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)       { sched.Point(); x.v = v }
func (x *Uint64) Swap(v uint64) uint64 { sched.Point(); o := x.v; x.v = v; return o }
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	sched.Point()
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

func (x *Uint64) Add(d uint64) uint64 { return AddUint64(&x.v, d) }

func LoadUintptr(p *uintptr) uintptr {
	sched.Point()
	return *p
}

func StoreUintptr(p *uintptr, v uintptr) {
	sched.Point()
	*p = v
}

func SwapUintptr(p *uintptr, v uintptr) uintptr {
	sched.Point()
	o := *p
	*p = v
	return o
}

func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	sched.Point()
	if *p == o {
		*p = n
		return true
	}
	return false
}

func AddUintptr(p *uintptr, d uintptr) uintptr {
	sched.Point()
	*p += d
	return *p
}

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr          { sched.Point(); return x.v }
func (x *Uintptr) Store(v uintptr)        { sched.Point(); x.v = v }
func (x *Uintptr) Swap(v uintptr) uintptr { sched.Point(); o := x.v; x.v = v; return o }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	sched.Point()
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

func (x *Uintptr) Add(d uintptr) uintptr { sched.Point(); x.v += d; return x.v }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	sched.Point()
	return *p
}

func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	sched.Point()
	*p = v
}

func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	sched.Point()
	o := *p
	*p = v
	return o
}

func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	sched.Point()
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Bool struct{ v bool }

func (x *Bool) Load() bool       { sched.Point(); return x.v }
func (x *Bool) Store(v bool)     { sched.Point(); x.v = v }
func (x *Bool) Swap(v bool) bool { sched.Point(); o := x.v; x.v = v; return o }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	sched.Point()
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

type Pointer[T any] struct{ v *T }

func (x *Pointer[T]) Load() *T     { sched.Point(); return x.v }
func (x *Pointer[T]) Store(v *T)   { sched.Point(); x.v = v }
func (x *Pointer[T]) Swap(v *T) *T { sched.Point(); o := x.v; x.v = v; return o }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	sched.Point()
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

type Value struct{ v any }

func (x *Value) Load() any { sched.Point(); return x.v }
func (x *Value) Store(v any) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	sched.Point()
	x.v = v
}
func (x *Value) Swap(v any) any { sched.Point(); o := x.v; x.v = v; return o }
func (x *Value) CompareAndSwap(o, n any) bool {
	sched.Point()
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

var jump uint64

// Jump makes the next counter that is used advance by n first, as if it had
// been used n times more.
func Jump(n uint64) { jump = n }

func skip[T int32 | int64 | uint32 | uint64](p *T) {
	if jump != 0 {
		*p += T(jump)
		jump = 0
	}
}
