// Package vatomic is package sync/atomic on the virtual runtime: every operation is a scheduling point.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"verif.local/mc/vs"
)

type op struct {
	what  string
	write bool
	o     *vs.Obj
	f     func()
}

func (o *op) Ready(*vs.Thread) bool { return true }
func (o *op) String() string        { return "atomic " + o.what }
func (o *op) Exec(t *vs.Thread) {
	if o.write {
		o.o.Update(201)
	} else {
		o.o.Acquire(202)
	}
	o.f()
}

type key struct{ p unsafe.Pointer }

func objOf(p unsafe.Pointer) *vs.Obj {
	k := key{p}
	if o, ok := vs.X.Local[k]; ok {
		return o.(*vs.Obj)
	}
	o := &vs.Obj{}
	vs.X.Local[k] = o
	return o
}

// touch performs f on the word at p as one step.
func touch(what string, write bool, p unsafe.Pointer, f func()) {
	if vs.Aborting() {
		f()
		return
	}
	vs.Do(&op{what, write, objOf(p), f})
}

// ---- int32

func LoadInt32(p *int32) (v int32) {
	if vs.X == nil {
		return atomic.LoadInt32(p)
	}
	touch("load", false, unsafe.Pointer(p), func() { v = *p })
	return
}

func StoreInt32(p *int32, v int32) {
	if vs.X == nil {
		atomic.StoreInt32(p, v)
		return
	}
	touch("store", true, unsafe.Pointer(p), func() { *p = v })
}

func AddInt32(p *int32, d int32) (v int32) {
	if vs.X == nil {
		return atomic.AddInt32(p, d)
	}
	touch("add", true, unsafe.Pointer(p), func() { *p += d; v = *p })
	return
}

func SwapInt32(p *int32, n int32) (v int32) {
	if vs.X == nil {
		return atomic.SwapInt32(p, n)
	}
	touch("swap", true, unsafe.Pointer(p), func() { v = *p; *p = n })
	return
}

func CompareAndSwapInt32(p *int32, a, b int32) (ok bool) {
	if vs.X == nil {
		return atomic.CompareAndSwapInt32(p, a, b)
	}
	touch("cas", true, unsafe.Pointer(p), func() {
		if *p == a {
			*p = b
			ok = true
		}
	})
	return
}

// Int32 is atomic.Int32.
type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) Swap(n int32) int32             { return SwapInt32(&x.v, n) }
func (x *Int32) CompareAndSwap(a, b int32) bool { return CompareAndSwapInt32(&x.v, a, b) }

// ---- int64

func LoadInt64(p *int64) (v int64) {
	if vs.X == nil {
		return atomic.LoadInt64(p)
	}
	touch("load", false, unsafe.Pointer(p), func() { v = *p })
	return
}

func StoreInt64(p *int64, v int64) {
	if vs.X == nil {
		atomic.StoreInt64(p, v)
		return
	}
	touch("store", true, unsafe.Pointer(p), func() { *p = v })
}

func AddInt64(p *int64, d int64) (v int64) {
	if vs.X == nil {
		return atomic.AddInt64(p, d)
	}
	touch("add", true, unsafe.Pointer(p), func() { *p += d; v = *p })
	return
}

func SwapInt64(p *int64, n int64) (v int64) {
	if vs.X == nil {
		return atomic.SwapInt64(p, n)
	}
	touch("swap", true, unsafe.Pointer(p), func() { v = *p; *p = n })
	return
}

func CompareAndSwapInt64(p *int64, a, b int64) (ok bool) {
	if vs.X == nil {
		return atomic.CompareAndSwapInt64(p, a, b)
	}
	touch("cas", true, unsafe.Pointer(p), func() {
		if *p == a {
			*p = b
			ok = true
		}
	})
	return
}

// Int64 is atomic.Int64.
type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) Swap(n int64) int64             { return SwapInt64(&x.v, n) }
func (x *Int64) CompareAndSwap(a, b int64) bool { return CompareAndSwapInt64(&x.v, a, b) }

// ---- uint32

func LoadUint32(p *uint32) (v uint32) {
	if vs.X == nil {
		return atomic.LoadUint32(p)
	}
	touch("load", false, unsafe.Pointer(p), func() { v = *p })
	return
}

func StoreUint32(p *uint32, v uint32) {
	if vs.X == nil {
		atomic.StoreUint32(p, v)
		return
	}
	touch("store", true, unsafe.Pointer(p), func() { *p = v })
}

func AddUint32(p *uint32, d uint32) (v uint32) {
	if vs.X == nil {
		return atomic.AddUint32(p, d)
	}
	touch("add", true, unsafe.Pointer(p), func() { *p += d; v = *p })
	return
}

func SwapUint32(p *uint32, n uint32) (v uint32) {
	if vs.X == nil {
		return atomic.SwapUint32(p, n)
	}
	touch("swap", true, unsafe.Pointer(p), func() { v = *p; *p = n })
	return
}

func CompareAndSwapUint32(p *uint32, a, b uint32) (ok bool) {
	if vs.X == nil {
		return atomic.CompareAndSwapUint32(p, a, b)
	}
	touch("cas", true, unsafe.Pointer(p), func() {
		if *p == a {
			*p = b
			ok = true
		}
	})
	return
}

// Uint32 is atomic.Uint32.
type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) Swap(n uint32) uint32            { return SwapUint32(&x.v, n) }
func (x *Uint32) CompareAndSwap(a, b uint32) bool { return CompareAndSwapUint32(&x.v, a, b) }

// ---- uint64

func LoadUint64(p *uint64) (v uint64) {
	if vs.X == nil {
		return atomic.LoadUint64(p)
	}
	touch("load", false, unsafe.Pointer(p), func() { v = *p })
	return
}

func StoreUint64(p *uint64, v uint64) {
	if vs.X == nil {
		atomic.StoreUint64(p, v)
		return
	}
	touch("store", true, unsafe.Pointer(p), func() { *p = v })
}

func AddUint64(p *uint64, d uint64) (v uint64) {
	if vs.X == nil {
		return atomic.AddUint64(p, d)
	}
	touch("add", true, unsafe.Pointer(p), func() { *p += d; v = *p })
	return
}

func SwapUint64(p *uint64, n uint64) (v uint64) {
	if vs.X == nil {
		return atomic.SwapUint64(p, n)
	}
	touch("swap", true, unsafe.Pointer(p), func() { v = *p; *p = n })
	return
}

func CompareAndSwapUint64(p *uint64, a, b uint64) (ok bool) {
	if vs.X == nil {
		return atomic.CompareAndSwapUint64(p, a, b)
	}
	touch("cas", true, unsafe.Pointer(p), func() {
		if *p == a {
			*p = b
			ok = true
		}
	})
	return
}

// Uint64 is atomic.Uint64.
type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) Swap(n uint64) uint64            { return SwapUint64(&x.v, n) }
func (x *Uint64) CompareAndSwap(a, b uint64) bool { return CompareAndSwapUint64(&x.v, a, b) }

// ---- uintptr

func LoadUintptr(p *uintptr) (v uintptr) {
	if vs.X == nil {
		return atomic.LoadUintptr(p)
	}
	touch("load", false, unsafe.Pointer(p), func() { v = *p })
	return
}

func StoreUintptr(p *uintptr, v uintptr) {
	if vs.X == nil {
		atomic.StoreUintptr(p, v)
		return
	}
	touch("store", true, unsafe.Pointer(p), func() { *p = v })
}

func AddUintptr(p *uintptr, d uintptr) (v uintptr) {
	if vs.X == nil {
		return atomic.AddUintptr(p, d)
	}
	touch("add", true, unsafe.Pointer(p), func() { *p += d; v = *p })
	return
}

func SwapUintptr(p *uintptr, n uintptr) (v uintptr) {
	if vs.X == nil {
		return atomic.SwapUintptr(p, n)
	}
	touch("swap", true, unsafe.Pointer(p), func() { v = *p; *p = n })
	return
}

func CompareAndSwapUintptr(p *uintptr, a, b uintptr) (ok bool) {
	if vs.X == nil {
		return atomic.CompareAndSwapUintptr(p, a, b)
	}
	touch("cas", true, unsafe.Pointer(p), func() {
		if *p == a {
			*p = b
			ok = true
		}
	})
	return
}

// Uintptr is atomic.Uintptr.
type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&x.v, d) }
func (x *Uintptr) Swap(n uintptr) uintptr           { return SwapUintptr(&x.v, n) }
func (x *Uintptr) CompareAndSwap(a, b uintptr) bool { return CompareAndSwapUintptr(&x.v, a, b) }

// Bool is atomic.Bool.
type Bool struct{ v uint32 }

func b32(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}

func (x *Bool) Load() bool                    { return LoadUint32(&x.v) != 0 }
func (x *Bool) Store(v bool)                  { StoreUint32(&x.v, b32(v)) }
func (x *Bool) Swap(v bool) bool              { return SwapUint32(&x.v, b32(v)) != 0 }
func (x *Bool) CompareAndSwap(a, b bool) bool { return CompareAndSwapUint32(&x.v, b32(a), b32(b)) }

func LoadPointer(p *unsafe.Pointer) (v unsafe.Pointer) {
	if vs.X == nil {
		return atomic.LoadPointer(p)
	}
	touch("load", false, unsafe.Pointer(p), func() { v = *p })
	return
}

func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	if vs.X == nil {
		atomic.StorePointer(p, v)
		return
	}
	touch("store", true, unsafe.Pointer(p), func() { *p = v })
}

func SwapPointer(p *unsafe.Pointer, n unsafe.Pointer) (v unsafe.Pointer) {
	if vs.X == nil {
		return atomic.SwapPointer(p, n)
	}
	touch("swap", true, unsafe.Pointer(p), func() { v = *p; *p = n })
	return
}

func CompareAndSwapPointer(p *unsafe.Pointer, a, b unsafe.Pointer) (ok bool) {
	if vs.X == nil {
		return atomic.CompareAndSwapPointer(p, a, b)
	}
	touch("cas", true, unsafe.Pointer(p), func() {
		if *p == a {
			*p = b
			ok = true
		}
	})
	return
}

// Pointer is atomic.Pointer.
type Pointer[T any] struct{ v unsafe.Pointer }

func (x *Pointer[T]) Load() *T     { return (*T)(LoadPointer(&x.v)) }
func (x *Pointer[T]) Store(v *T)   { StorePointer(&x.v, unsafe.Pointer(v)) }
func (x *Pointer[T]) Swap(v *T) *T { return (*T)(SwapPointer(&x.v, unsafe.Pointer(v))) }
func (x *Pointer[T]) CompareAndSwap(a, b *T) bool {
	return CompareAndSwapPointer(&x.v, unsafe.Pointer(a), unsafe.Pointer(b))
}

// Value is atomic.Value.
type Value struct{ v interface{} }

func (x *Value) do(what string, write bool, f func()) {
	if vs.X == nil {
		f()
		return
	}
	touch(what, write, unsafe.Pointer(x), f)
}

func (x *Value) Load() (v interface{}) {
	x.do("load", false, func() { v = x.v })
	return
}

func (x *Value) Store(v interface{}) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	x.do("store", true, func() { x.v = v })
}

func (x *Value) Swap(n interface{}) (v interface{}) {
	x.do("swap", true, func() { v = x.v; x.v = n })
	return
}

func (x *Value) CompareAndSwap(a, b interface{}) (ok bool) {
	x.do("cas", true, func() {
		if x.v == a {
			x.v = b
			ok = true
		}
	})
	return
}
