out=['''// Package vatomic stands in for sync/atomic. Generated by tools/gen_atomic.py.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"gotor/zv/vs"
)

type Value struct{ v atomic.Value }

func (x *Value) Load() any {
	vs.AtomicStep(unsafe.Pointer(x), true)
	return x.v.Load()
}
func (x *Value) Store(v any) {
	vs.AtomicStep(unsafe.Pointer(x), false)
	x.v.Store(v)
	vs.Progress()
}
func (x *Value) Swap(v any) any {
	vs.AtomicStep(unsafe.Pointer(x), false)
	o := x.v.Swap(v)
	vs.Progress()
	return o
}
func (x *Value) CompareAndSwap(o, n any) bool {
	vs.AtomicStep(unsafe.Pointer(x), false)
	ok := x.v.CompareAndSwap(o, n)
	if ok {
		vs.Progress()
	}
	return ok
}

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T {
	vs.AtomicStep(unsafe.Pointer(x), true)
	return x.v.Load()
}
func (x *Pointer[T]) Store(v *T) {
	vs.AtomicStep(unsafe.Pointer(x), false)
	x.v.Store(v)
	vs.Progress()
}
func (x *Pointer[T]) Swap(v *T) *T {
	vs.AtomicStep(unsafe.Pointer(x), false)
	o := x.v.Swap(v)
	vs.Progress()
	return o
}
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	vs.AtomicStep(unsafe.Pointer(x), false)
	ok := x.v.CompareAndSwap(o, n)
	if ok {
		vs.Progress()
	}
	return ok
}

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool {
	vs.AtomicStep(unsafe.Pointer(x), true)
	return x.v.Load()
}
func (x *Bool) Store(v bool) {
	vs.AtomicStep(unsafe.Pointer(x), false)
	if x.v.Swap(v) != v {
		vs.Progress()
	}
}
func (x *Bool) Swap(v bool) bool {
	vs.AtomicStep(unsafe.Pointer(x), false)
	o := x.v.Swap(v)
	if o != v {
		vs.Progress()
	}
	return o
}
func (x *Bool) CompareAndSwap(o, n bool) bool {
	vs.AtomicStep(unsafe.Pointer(x), false)
	ok := x.v.CompareAndSwap(o, n)
	if ok && o != n {
		vs.Progress()
	}
	return ok
}
''']
T=[("Int32","int32"),("Int64","int64"),("Uint32","uint32"),("Uint64","uint64"),("Uintptr","uintptr")]
for N,t in T:
    out.append(f'''
func Load{N}(p *{t}) {t} {{
	vs.AtomicStep(unsafe.Pointer(p), true)
	return atomic.Load{N}(p)
}}
func Store{N}(p *{t}, v {t}) {{
	vs.AtomicStep(unsafe.Pointer(p), false)
	if atomic.Swap{N}(p, v) != v {{
		vs.Progress()
	}}
}}
func Add{N}(p *{t}, d {t}) {t} {{
	vs.AtomicStep(unsafe.Pointer(p), false)
	v := atomic.Add{N}(p, d)
	if d != 0 {{
		vs.Progress()
	}}
	return v
}}
func Swap{N}(p *{t}, v {t}) {t} {{
	vs.AtomicStep(unsafe.Pointer(p), false)
	o := atomic.Swap{N}(p, v)
	if o != v {{
		vs.Progress()
	}}
	return o
}}
func CompareAndSwap{N}(p *{t}, o, n {t}) bool {{
	vs.AtomicStep(unsafe.Pointer(p), false)
	ok := atomic.CompareAndSwap{N}(p, o, n)
	if ok && o != n {{
		vs.Progress()
	}}
	return ok
}}
func And{N}(p *{t}, m {t}) {t} {{
	vs.AtomicStep(unsafe.Pointer(p), false)
	vs.Progress()
	return atomic.And{N}(p, m)
}}
func Or{N}(p *{t}, m {t}) {t} {{
	vs.AtomicStep(unsafe.Pointer(p), false)
	vs.Progress()
	return atomic.Or{N}(p, m)
}}

type {N} struct {{
	_ [0]func()
	v {t}
}}

func (x *{N}) Load() {t}                       {{ return Load{N}(&x.v) }}
func (x *{N}) Store(v {t})                     {{ Store{N}(&x.v, v) }}
func (x *{N}) Add(d {t}) {t}                   {{ return Add{N}(&x.v, d) }}
func (x *{N}) Swap(v {t}) {t}                  {{ return Swap{N}(&x.v, v) }}
func (x *{N}) CompareAndSwap(o, n {t}) bool    {{ return CompareAndSwap{N}(&x.v, o, n) }}
func (x *{N}) And(m {t}) {t}                   {{ return And{N}(&x.v, m) }}
func (x *{N}) Or(m {t}) {t}                    {{ return Or{N}(&x.v, m) }}
''')
out.append('''
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	vs.AtomicStep(unsafe.Pointer(p), true)
	return atomic.LoadPointer(p)
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	vs.AtomicStep(unsafe.Pointer(p), false)
	atomic.StorePointer(p, v)
	vs.Progress()
}
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	vs.AtomicStep(unsafe.Pointer(p), false)
	o := atomic.SwapPointer(p, v)
	vs.Progress()
	return o
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	vs.AtomicStep(unsafe.Pointer(p), false)
	ok := atomic.CompareAndSwapPointer(p, o, n)
	if ok {
		vs.Progress()
	}
	return ok
}
''')
open('/verif/shim/vatomic/atomic.go','w').write(''.join(out))
