// Package atomic is the simulated counterpart of the standard package: real atomics with a scheduling point before each.
package atomic

import (
	real "sync/atomic"
	"unsafe"

	"verifsim/vsim"
)

//go:norace
func sp() {
	if vsim.Active() {
		vsim.SyncPoint()
	}
}

func AddInt32(addr *int32, delta int32) int32 { sp(); return real.AddInt32(addr, delta) }
func LoadInt32(addr *int32) int32             { sp(); return real.LoadInt32(addr) }
func StoreInt32(addr *int32, v int32)         { sp(); real.StoreInt32(addr, v) }
func SwapInt32(addr *int32, v int32) int32    { sp(); return real.SwapInt32(addr, v) }
func CompareAndSwapInt32(addr *int32, o, n int32) bool {
	sp()
	return real.CompareAndSwapInt32(addr, o, n)
}
func AndInt32(addr *int32, m int32) int32 {
	sp()
	for {
		o := real.LoadInt32(addr)
		if real.CompareAndSwapInt32(addr, o, o&m) {
			return o
		}
	}
}
func OrInt32(addr *int32, m int32) int32 {
	sp()
	for {
		o := real.LoadInt32(addr)
		if real.CompareAndSwapInt32(addr, o, o|m) {
			return o
		}
	}
}

type Int32 struct{ v real.Int32 }

func (x *Int32) Load() int32                    { sp(); return x.v.Load() }
func (x *Int32) Store(v int32)                  { sp(); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32             { sp(); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { sp(); return x.v.CompareAndSwap(o, n) }
func (x *Int32) Add(d int32) int32              { sp(); return x.v.Add(d) }
func (x *Int32) And(m int32) int32 {
	sp()
	for {
		o := x.v.Load()
		if x.v.CompareAndSwap(o, o&m) {
			return o
		}
	}
}
func (x *Int32) Or(m int32) int32 {
	sp()
	for {
		o := x.v.Load()
		if x.v.CompareAndSwap(o, o|m) {
			return o
		}
	}
}

func AddInt64(addr *int64, delta int64) int64 { sp(); return real.AddInt64(addr, delta) }
func LoadInt64(addr *int64) int64             { sp(); return real.LoadInt64(addr) }
func StoreInt64(addr *int64, v int64)         { sp(); real.StoreInt64(addr, v) }
func SwapInt64(addr *int64, v int64) int64    { sp(); return real.SwapInt64(addr, v) }
func CompareAndSwapInt64(addr *int64, o, n int64) bool {
	sp()
	return real.CompareAndSwapInt64(addr, o, n)
}
func AndInt64(addr *int64, m int64) int64 {
	sp()
	for {
		o := real.LoadInt64(addr)
		if real.CompareAndSwapInt64(addr, o, o&m) {
			return o
		}
	}
}
func OrInt64(addr *int64, m int64) int64 {
	sp()
	for {
		o := real.LoadInt64(addr)
		if real.CompareAndSwapInt64(addr, o, o|m) {
			return o
		}
	}
}

type Int64 struct{ v real.Int64 }

func (x *Int64) Load() int64                    { sp(); return x.v.Load() }
func (x *Int64) Store(v int64)                  { sp(); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64             { sp(); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { sp(); return x.v.CompareAndSwap(o, n) }
func (x *Int64) Add(d int64) int64              { sp(); return x.v.Add(d) }
func (x *Int64) And(m int64) int64 {
	sp()
	for {
		o := x.v.Load()
		if x.v.CompareAndSwap(o, o&m) {
			return o
		}
	}
}
func (x *Int64) Or(m int64) int64 {
	sp()
	for {
		o := x.v.Load()
		if x.v.CompareAndSwap(o, o|m) {
			return o
		}
	}
}

func AddUint32(addr *uint32, delta uint32) uint32 { sp(); return real.AddUint32(addr, delta) }
func LoadUint32(addr *uint32) uint32              { sp(); return real.LoadUint32(addr) }
func StoreUint32(addr *uint32, v uint32)          { sp(); real.StoreUint32(addr, v) }
func SwapUint32(addr *uint32, v uint32) uint32    { sp(); return real.SwapUint32(addr, v) }
func CompareAndSwapUint32(addr *uint32, o, n uint32) bool {
	sp()
	return real.CompareAndSwapUint32(addr, o, n)
}
func AndUint32(addr *uint32, m uint32) uint32 {
	sp()
	for {
		o := real.LoadUint32(addr)
		if real.CompareAndSwapUint32(addr, o, o&m) {
			return o
		}
	}
}
func OrUint32(addr *uint32, m uint32) uint32 {
	sp()
	for {
		o := real.LoadUint32(addr)
		if real.CompareAndSwapUint32(addr, o, o|m) {
			return o
		}
	}
}

type Uint32 struct{ v real.Uint32 }

func (x *Uint32) Load() uint32                    { sp(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { sp(); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32            { sp(); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { sp(); return x.v.CompareAndSwap(o, n) }
func (x *Uint32) Add(d uint32) uint32             { sp(); return x.v.Add(d) }
func (x *Uint32) And(m uint32) uint32 {
	sp()
	for {
		o := x.v.Load()
		if x.v.CompareAndSwap(o, o&m) {
			return o
		}
	}
}
func (x *Uint32) Or(m uint32) uint32 {
	sp()
	for {
		o := x.v.Load()
		if x.v.CompareAndSwap(o, o|m) {
			return o
		}
	}
}

func AddUint64(addr *uint64, delta uint64) uint64 { sp(); return real.AddUint64(addr, delta) }
func LoadUint64(addr *uint64) uint64              { sp(); return real.LoadUint64(addr) }
func StoreUint64(addr *uint64, v uint64)          { sp(); real.StoreUint64(addr, v) }
func SwapUint64(addr *uint64, v uint64) uint64    { sp(); return real.SwapUint64(addr, v) }
func CompareAndSwapUint64(addr *uint64, o, n uint64) bool {
	sp()
	return real.CompareAndSwapUint64(addr, o, n)
}
func AndUint64(addr *uint64, m uint64) uint64 {
	sp()
	for {
		o := real.LoadUint64(addr)
		if real.CompareAndSwapUint64(addr, o, o&m) {
			return o
		}
	}
}
func OrUint64(addr *uint64, m uint64) uint64 {
	sp()
	for {
		o := real.LoadUint64(addr)
		if real.CompareAndSwapUint64(addr, o, o|m) {
			return o
		}
	}
}

type Uint64 struct{ v real.Uint64 }

func (x *Uint64) Load() uint64                    { sp(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { sp(); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64            { sp(); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { sp(); return x.v.CompareAndSwap(o, n) }
func (x *Uint64) Add(d uint64) uint64             { sp(); return x.v.Add(d) }
func (x *Uint64) And(m uint64) uint64 {
	sp()
	for {
		o := x.v.Load()
		if x.v.CompareAndSwap(o, o&m) {
			return o
		}
	}
}
func (x *Uint64) Or(m uint64) uint64 {
	sp()
	for {
		o := x.v.Load()
		if x.v.CompareAndSwap(o, o|m) {
			return o
		}
	}
}

func AddUintptr(addr *uintptr, delta uintptr) uintptr { sp(); return real.AddUintptr(addr, delta) }
func LoadUintptr(addr *uintptr) uintptr               { sp(); return real.LoadUintptr(addr) }
func StoreUintptr(addr *uintptr, v uintptr)           { sp(); real.StoreUintptr(addr, v) }
func SwapUintptr(addr *uintptr, v uintptr) uintptr    { sp(); return real.SwapUintptr(addr, v) }
func CompareAndSwapUintptr(addr *uintptr, o, n uintptr) bool {
	sp()
	return real.CompareAndSwapUintptr(addr, o, n)
}
func AndUintptr(addr *uintptr, m uintptr) uintptr {
	sp()
	for {
		o := real.LoadUintptr(addr)
		if real.CompareAndSwapUintptr(addr, o, o&m) {
			return o
		}
	}
}
func OrUintptr(addr *uintptr, m uintptr) uintptr {
	sp()
	for {
		o := real.LoadUintptr(addr)
		if real.CompareAndSwapUintptr(addr, o, o|m) {
			return o
		}
	}
}

type Uintptr struct{ v real.Uintptr }

func (x *Uintptr) Load() uintptr                    { sp(); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)                  { sp(); x.v.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { sp(); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { sp(); return x.v.CompareAndSwap(o, n) }
func (x *Uintptr) Add(d uintptr) uintptr            { sp(); return x.v.Add(d) }
func (x *Uintptr) And(m uintptr) uintptr {
	sp()
	for {
		o := x.v.Load()
		if x.v.CompareAndSwap(o, o&m) {
			return o
		}
	}
}
func (x *Uintptr) Or(m uintptr) uintptr {
	sp()
	for {
		o := x.v.Load()
		if x.v.CompareAndSwap(o, o|m) {
			return o
		}
	}
}

func LoadPointer(addr *unsafe.Pointer) unsafe.Pointer     { sp(); return real.LoadPointer(addr) }
func StorePointer(addr *unsafe.Pointer, v unsafe.Pointer) { sp(); real.StorePointer(addr, v) }
func SwapPointer(addr *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	sp()
	return real.SwapPointer(addr, v)
}
func CompareAndSwapPointer(addr *unsafe.Pointer, o, n unsafe.Pointer) bool {
	sp()
	return real.CompareAndSwapPointer(addr, o, n)
}

type Bool struct{ v real.Bool }

func (x *Bool) Load() bool                    { sp(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { sp(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { sp(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { sp(); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v real.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { sp(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { sp(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { sp(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { sp(); return x.v.CompareAndSwap(o, n) }

type Value struct{ v real.Value }

func (x *Value) Load() any                    { sp(); return x.v.Load() }
func (x *Value) Store(v any)                  { sp(); x.v.Store(v) }
func (x *Value) Swap(v any) any               { sp(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool { sp(); return x.v.CompareAndSwap(o, n) }
