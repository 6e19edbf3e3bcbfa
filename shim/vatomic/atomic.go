// Package vatomic stands in for sync/atomic. Generated by tools/gen_atomic.py.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"gotor/zv/vs"
)

type Value struct{ v atomic.Value }

func (x *Value) Load() any {
	vs.AtomicStep(unsafe.Pointer(x), true)
	return x.v.Load()
}
func (x *Value) Store(v any) {
	vs.AtomicStep(unsafe.Pointer(x), false)
	x.v.Store(v)
	vs.Progress()
}
func (x *Value) Swap(v any) any {
	vs.AtomicStep(unsafe.Pointer(x), false)
	o := x.v.Swap(v)
	vs.Progress()
	return o
}
func (x *Value) CompareAndSwap(o, n any) bool {
	vs.AtomicStep(unsafe.Pointer(x), false)
	ok := x.v.CompareAndSwap(o, n)
	if ok {
		vs.Progress()
	}
	return ok
}

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T {
	vs.AtomicStep(unsafe.Pointer(x), true)
	return x.v.Load()
}
func (x *Pointer[T]) Store(v *T) {
	vs.AtomicStep(unsafe.Pointer(x), false)
	x.v.Store(v)
	vs.Progress()
}
func (x *Pointer[T]) Swap(v *T) *T {
	vs.AtomicStep(unsafe.Pointer(x), false)
	o := x.v.Swap(v)
	vs.Progress()
	return o
}
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	vs.AtomicStep(unsafe.Pointer(x), false)
	ok := x.v.CompareAndSwap(o, n)
	if ok {
		vs.Progress()
	}
	return ok
}

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool {
	vs.AtomicStep(unsafe.Pointer(x), true)
	return x.v.Load()
}
func (x *Bool) Store(v bool) {
	vs.AtomicStep(unsafe.Pointer(x), false)
	if x.v.Swap(v) != v {
		vs.Progress()
	}
}
func (x *Bool) Swap(v bool) bool {
	vs.AtomicStep(unsafe.Pointer(x), false)
	o := x.v.Swap(v)
	if o != v {
		vs.Progress()
	}
	return o
}
func (x *Bool) CompareAndSwap(o, n bool) bool {
	vs.AtomicStep(unsafe.Pointer(x), false)
	ok := x.v.CompareAndSwap(o, n)
	if ok && o != n {
		vs.Progress()
	}
	return ok
}

func LoadInt32(p *int32) int32 {
	vs.AtomicStep(unsafe.Pointer(p), true)
	return atomic.LoadInt32(p)
}
func StoreInt32(p *int32, v int32) {
	vs.AtomicStep(unsafe.Pointer(p), false)
	if atomic.SwapInt32(p, v) != v {
		vs.Progress()
	}
}
func AddInt32(p *int32, d int32) int32 {
	vs.AtomicStep(unsafe.Pointer(p), false)
	v := atomic.AddInt32(p, d)
	if d != 0 {
		vs.Progress()
	}
	return v
}
func SwapInt32(p *int32, v int32) int32 {
	vs.AtomicStep(unsafe.Pointer(p), false)
	o := atomic.SwapInt32(p, v)
	if o != v {
		vs.Progress()
	}
	return o
}
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	vs.AtomicStep(unsafe.Pointer(p), false)
	ok := atomic.CompareAndSwapInt32(p, o, n)
	if ok && o != n {
		vs.Progress()
	}
	return ok
}
func AndInt32(p *int32, m int32) int32 {
	vs.AtomicStep(unsafe.Pointer(p), false)
	vs.Progress()
	return atomic.AndInt32(p, m)
}
func OrInt32(p *int32, m int32) int32 {
	vs.AtomicStep(unsafe.Pointer(p), false)
	vs.Progress()
	return atomic.OrInt32(p, m)
}

type Int32 struct {
	_ [0]func()
	v int32
}

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&x.v, o, n) }
func (x *Int32) And(m int32) int32              { return AndInt32(&x.v, m) }
func (x *Int32) Or(m int32) int32               { return OrInt32(&x.v, m) }

func LoadInt64(p *int64) int64 {
	vs.AtomicStep(unsafe.Pointer(p), true)
	return atomic.LoadInt64(p)
}
func StoreInt64(p *int64, v int64) {
	vs.AtomicStep(unsafe.Pointer(p), false)
	if atomic.SwapInt64(p, v) != v {
		vs.Progress()
	}
}
func AddInt64(p *int64, d int64) int64 {
	vs.AtomicStep(unsafe.Pointer(p), false)
	v := atomic.AddInt64(p, d)
	if d != 0 {
		vs.Progress()
	}
	return v
}
func SwapInt64(p *int64, v int64) int64 {
	vs.AtomicStep(unsafe.Pointer(p), false)
	o := atomic.SwapInt64(p, v)
	if o != v {
		vs.Progress()
	}
	return o
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	vs.AtomicStep(unsafe.Pointer(p), false)
	ok := atomic.CompareAndSwapInt64(p, o, n)
	if ok && o != n {
		vs.Progress()
	}
	return ok
}
func AndInt64(p *int64, m int64) int64 {
	vs.AtomicStep(unsafe.Pointer(p), false)
	vs.Progress()
	return atomic.AndInt64(p, m)
}
func OrInt64(p *int64, m int64) int64 {
	vs.AtomicStep(unsafe.Pointer(p), false)
	vs.Progress()
	return atomic.OrInt64(p, m)
}

type Int64 struct {
	_ [0]func()
	v int64
}

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&x.v, o, n) }
func (x *Int64) And(m int64) int64              { return AndInt64(&x.v, m) }
func (x *Int64) Or(m int64) int64               { return OrInt64(&x.v, m) }

func LoadUint32(p *uint32) uint32 {
	vs.AtomicStep(unsafe.Pointer(p), true)
	return atomic.LoadUint32(p)
}
func StoreUint32(p *uint32, v uint32) {
	vs.AtomicStep(unsafe.Pointer(p), false)
	if atomic.SwapUint32(p, v) != v {
		vs.Progress()
	}
}
func AddUint32(p *uint32, d uint32) uint32 {
	vs.AtomicStep(unsafe.Pointer(p), false)
	v := atomic.AddUint32(p, d)
	if d != 0 {
		vs.Progress()
	}
	return v
}
func SwapUint32(p *uint32, v uint32) uint32 {
	vs.AtomicStep(unsafe.Pointer(p), false)
	o := atomic.SwapUint32(p, v)
	if o != v {
		vs.Progress()
	}
	return o
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	vs.AtomicStep(unsafe.Pointer(p), false)
	ok := atomic.CompareAndSwapUint32(p, o, n)
	if ok && o != n {
		vs.Progress()
	}
	return ok
}
func AndUint32(p *uint32, m uint32) uint32 {
	vs.AtomicStep(unsafe.Pointer(p), false)
	vs.Progress()
	return atomic.AndUint32(p, m)
}
func OrUint32(p *uint32, m uint32) uint32 {
	vs.AtomicStep(unsafe.Pointer(p), false)
	vs.Progress()
	return atomic.OrUint32(p, m)
}

type Uint32 struct {
	_ [0]func()
	v uint32
}

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&x.v, o, n) }
func (x *Uint32) And(m uint32) uint32             { return AndUint32(&x.v, m) }
func (x *Uint32) Or(m uint32) uint32              { return OrUint32(&x.v, m) }

func LoadUint64(p *uint64) uint64 {
	vs.AtomicStep(unsafe.Pointer(p), true)
	return atomic.LoadUint64(p)
}
func StoreUint64(p *uint64, v uint64) {
	vs.AtomicStep(unsafe.Pointer(p), false)
	if atomic.SwapUint64(p, v) != v {
		vs.Progress()
	}
}
func AddUint64(p *uint64, d uint64) uint64 {
	vs.AtomicStep(unsafe.Pointer(p), false)
	v := atomic.AddUint64(p, d)
	if d != 0 {
		vs.Progress()
	}
	return v
}
func SwapUint64(p *uint64, v uint64) uint64 {
	vs.AtomicStep(unsafe.Pointer(p), false)
	o := atomic.SwapUint64(p, v)
	if o != v {
		vs.Progress()
	}
	return o
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	vs.AtomicStep(unsafe.Pointer(p), false)
	ok := atomic.CompareAndSwapUint64(p, o, n)
	if ok && o != n {
		vs.Progress()
	}
	return ok
}
func AndUint64(p *uint64, m uint64) uint64 {
	vs.AtomicStep(unsafe.Pointer(p), false)
	vs.Progress()
	return atomic.AndUint64(p, m)
}
func OrUint64(p *uint64, m uint64) uint64 {
	vs.AtomicStep(unsafe.Pointer(p), false)
	vs.Progress()
	return atomic.OrUint64(p, m)
}

type Uint64 struct {
	_ [0]func()
	v uint64
}

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&x.v, o, n) }
func (x *Uint64) And(m uint64) uint64             { return AndUint64(&x.v, m) }
func (x *Uint64) Or(m uint64) uint64              { return OrUint64(&x.v, m) }

func LoadUintptr(p *uintptr) uintptr {
	vs.AtomicStep(unsafe.Pointer(p), true)
	return atomic.LoadUintptr(p)
}
func StoreUintptr(p *uintptr, v uintptr) {
	vs.AtomicStep(unsafe.Pointer(p), false)
	if atomic.SwapUintptr(p, v) != v {
		vs.Progress()
	}
}
func AddUintptr(p *uintptr, d uintptr) uintptr {
	vs.AtomicStep(unsafe.Pointer(p), false)
	v := atomic.AddUintptr(p, d)
	if d != 0 {
		vs.Progress()
	}
	return v
}
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	vs.AtomicStep(unsafe.Pointer(p), false)
	o := atomic.SwapUintptr(p, v)
	if o != v {
		vs.Progress()
	}
	return o
}
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	vs.AtomicStep(unsafe.Pointer(p), false)
	ok := atomic.CompareAndSwapUintptr(p, o, n)
	if ok && o != n {
		vs.Progress()
	}
	return ok
}
func AndUintptr(p *uintptr, m uintptr) uintptr {
	vs.AtomicStep(unsafe.Pointer(p), false)
	vs.Progress()
	return atomic.AndUintptr(p, m)
}
func OrUintptr(p *uintptr, m uintptr) uintptr {
	vs.AtomicStep(unsafe.Pointer(p), false)
	vs.Progress()
	return atomic.OrUintptr(p, m)
}

type Uintptr struct {
	_ [0]func()
	v uintptr
}

func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&x.v, d) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&x.v, v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&x.v, o, n) }
func (x *Uintptr) And(m uintptr) uintptr            { return AndUintptr(&x.v, m) }
func (x *Uintptr) Or(m uintptr) uintptr             { return OrUintptr(&x.v, m) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	vs.AtomicStep(unsafe.Pointer(p), true)
	return atomic.LoadPointer(p)
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	vs.AtomicStep(unsafe.Pointer(p), false)
	atomic.StorePointer(p, v)
	vs.Progress()
}
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	vs.AtomicStep(unsafe.Pointer(p), false)
	o := atomic.SwapPointer(p, v)
	vs.Progress()
	return o
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	vs.AtomicStep(unsafe.Pointer(p), false)
	ok := atomic.CompareAndSwapPointer(p, o, n)
	if ok {
		vs.Progress()
	}
	return ok
}
