// Package vatomic stands in for sync/atomic: every operation is a scheduling point.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/google/licensecheck/verif/vs"
)

func LoadInt32(p *int32) int32          { vs.Yield(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { vs.Yield(); atomic.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { vs.Yield(); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, a, b int32) bool {
	vs.Yield()
	return atomic.CompareAndSwapInt32(p, a, b)
}
func AddInt32(p *int32, d int32) int32 { vs.Yield(); return atomic.AddInt32(p, d) }
func AndInt32(p *int32, d int32) int32 {
	vs.Yield()
	for {
		v := atomic.LoadInt32(p)
		if atomic.CompareAndSwapInt32(p, v, v&d) {
			return v
		}
	}
}
func OrInt32(p *int32, d int32) int32 {
	vs.Yield()
	for {
		v := atomic.LoadInt32(p)
		if atomic.CompareAndSwapInt32(p, v, v|d) {
			return v
		}
	}
}

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { vs.Yield(); return x.v.Load() }
func (x *Int32) Store(v int32)                  { vs.Yield(); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32             { vs.Yield(); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(a, b int32) bool { vs.Yield(); return x.v.CompareAndSwap(a, b) }
func (x *Int32) Add(d int32) int32              { vs.Yield(); return x.v.Add(d) }
func LoadInt64(p *int64) int64                  { vs.Yield(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)              { vs.Yield(); atomic.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64         { vs.Yield(); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, a, b int64) bool {
	vs.Yield()
	return atomic.CompareAndSwapInt64(p, a, b)
}
func AddInt64(p *int64, d int64) int64 { vs.Yield(); return atomic.AddInt64(p, d) }
func AndInt64(p *int64, d int64) int64 {
	vs.Yield()
	for {
		v := atomic.LoadInt64(p)
		if atomic.CompareAndSwapInt64(p, v, v&d) {
			return v
		}
	}
}
func OrInt64(p *int64, d int64) int64 {
	vs.Yield()
	for {
		v := atomic.LoadInt64(p)
		if atomic.CompareAndSwapInt64(p, v, v|d) {
			return v
		}
	}
}

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { vs.Yield(); return x.v.Load() }
func (x *Int64) Store(v int64)                  { vs.Yield(); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64             { vs.Yield(); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(a, b int64) bool { vs.Yield(); return x.v.CompareAndSwap(a, b) }
func (x *Int64) Add(d int64) int64              { vs.Yield(); return x.v.Add(d) }
func LoadUint32(p *uint32) uint32               { vs.Yield(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)           { vs.Yield(); atomic.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32     { vs.Yield(); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	vs.Yield()
	return atomic.CompareAndSwapUint32(p, a, b)
}
func AddUint32(p *uint32, d uint32) uint32 { vs.Yield(); return atomic.AddUint32(p, d) }
func AndUint32(p *uint32, d uint32) uint32 {
	vs.Yield()
	for {
		v := atomic.LoadUint32(p)
		if atomic.CompareAndSwapUint32(p, v, v&d) {
			return v
		}
	}
}
func OrUint32(p *uint32, d uint32) uint32 {
	vs.Yield()
	for {
		v := atomic.LoadUint32(p)
		if atomic.CompareAndSwapUint32(p, v, v|d) {
			return v
		}
	}
}

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { vs.Yield(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { vs.Yield(); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32            { vs.Yield(); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(a, b uint32) bool { vs.Yield(); return x.v.CompareAndSwap(a, b) }
func (x *Uint32) Add(d uint32) uint32             { vs.Yield(); return x.v.Add(d) }
func LoadUint64(p *uint64) uint64                 { vs.Yield(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)             { vs.Yield(); atomic.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64       { vs.Yield(); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, a, b uint64) bool {
	vs.Yield()
	return atomic.CompareAndSwapUint64(p, a, b)
}
func AddUint64(p *uint64, d uint64) uint64 { vs.Yield(); return atomic.AddUint64(p, d) }
func AndUint64(p *uint64, d uint64) uint64 {
	vs.Yield()
	for {
		v := atomic.LoadUint64(p)
		if atomic.CompareAndSwapUint64(p, v, v&d) {
			return v
		}
	}
}
func OrUint64(p *uint64, d uint64) uint64 {
	vs.Yield()
	for {
		v := atomic.LoadUint64(p)
		if atomic.CompareAndSwapUint64(p, v, v|d) {
			return v
		}
	}
}

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { vs.Yield(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { vs.Yield(); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64            { vs.Yield(); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(a, b uint64) bool { vs.Yield(); return x.v.CompareAndSwap(a, b) }
func (x *Uint64) Add(d uint64) uint64             { vs.Yield(); return x.v.Add(d) }
func LoadUintptr(p *uintptr) uintptr              { vs.Yield(); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)          { vs.Yield(); atomic.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr   { vs.Yield(); return atomic.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, a, b uintptr) bool {
	vs.Yield()
	return atomic.CompareAndSwapUintptr(p, a, b)
}
func AddUintptr(p *uintptr, d uintptr) uintptr { vs.Yield(); return atomic.AddUintptr(p, d) }
func AndUintptr(p *uintptr, d uintptr) uintptr {
	vs.Yield()
	for {
		v := atomic.LoadUintptr(p)
		if atomic.CompareAndSwapUintptr(p, v, v&d) {
			return v
		}
	}
}
func OrUintptr(p *uintptr, d uintptr) uintptr {
	vs.Yield()
	for {
		v := atomic.LoadUintptr(p)
		if atomic.CompareAndSwapUintptr(p, v, v|d) {
			return v
		}
	}
}

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr                       { vs.Yield(); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)                     { vs.Yield(); x.v.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr              { vs.Yield(); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(a, b uintptr) bool    { vs.Yield(); return x.v.CompareAndSwap(a, b) }
func (x *Uintptr) Add(d uintptr) uintptr               { vs.Yield(); return x.v.Add(d) }
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { vs.Yield(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { vs.Yield(); atomic.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	vs.Yield()
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, a, b unsafe.Pointer) bool {
	vs.Yield()
	return atomic.CompareAndSwapPointer(p, a, b)
}

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { vs.Yield(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { vs.Yield(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { vs.Yield(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(a, b bool) bool { vs.Yield(); return x.v.CompareAndSwap(a, b) }

type Value struct{ v atomic.Value }

func (x *Value) Load() interface{}                    { vs.Yield(); return x.v.Load() }
func (x *Value) Store(v interface{})                  { vs.Yield(); x.v.Store(v) }
func (x *Value) Swap(v interface{}) interface{}       { vs.Yield(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(a, b interface{}) bool { vs.Yield(); return x.v.CompareAndSwap(a, b) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { vs.Yield(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { vs.Yield(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { vs.Yield(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(a, b *T) bool { vs.Yield(); return x.v.CompareAndSwap(a, b) }

func (x *Int32) And(d int32) int32 {
	vs.Yield()
	for {
		v := x.v.Load()
		if x.v.CompareAndSwap(v, v&d) {
			return v
		}
	}
}
func (x *Int32) Or(d int32) int32 {
	vs.Yield()
	for {
		v := x.v.Load()
		if x.v.CompareAndSwap(v, v|d) {
			return v
		}
	}
}

func (x *Int64) And(d int64) int64 {
	vs.Yield()
	for {
		v := x.v.Load()
		if x.v.CompareAndSwap(v, v&d) {
			return v
		}
	}
}
func (x *Int64) Or(d int64) int64 {
	vs.Yield()
	for {
		v := x.v.Load()
		if x.v.CompareAndSwap(v, v|d) {
			return v
		}
	}
}

func (x *Uint32) And(d uint32) uint32 {
	vs.Yield()
	for {
		v := x.v.Load()
		if x.v.CompareAndSwap(v, v&d) {
			return v
		}
	}
}
func (x *Uint32) Or(d uint32) uint32 {
	vs.Yield()
	for {
		v := x.v.Load()
		if x.v.CompareAndSwap(v, v|d) {
			return v
		}
	}
}

func (x *Uint64) And(d uint64) uint64 {
	vs.Yield()
	for {
		v := x.v.Load()
		if x.v.CompareAndSwap(v, v&d) {
			return v
		}
	}
}
func (x *Uint64) Or(d uint64) uint64 {
	vs.Yield()
	for {
		v := x.v.Load()
		if x.v.CompareAndSwap(v, v|d) {
			return v
		}
	}
}

func (x *Uintptr) And(d uintptr) uintptr {
	vs.Yield()
	for {
		v := x.v.Load()
		if x.v.CompareAndSwap(v, v&d) {
			return v
		}
	}
}
func (x *Uintptr) Or(d uintptr) uintptr {
	vs.Yield()
	for {
		v := x.v.Load()
		if x.v.CompareAndSwap(v, v|d) {
			return v
		}
	}
}
