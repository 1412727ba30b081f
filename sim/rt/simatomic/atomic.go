//go:build go1.23

// Package simatomic stands in for package sync/atomic in the simulation.
package simatomic

import (
	"unsafe"

	"github.com/exascience/pargo/zzsim/simrt"
)

// LoadInt32 is atomic.LoadInt32.
func LoadInt32(p *int32) int32 { simrt.AtomicAccess(p, false, false); return *p }

// StoreInt32 is atomic.StoreInt32.
func StoreInt32(p *int32, v int32) { simrt.AtomicAccess(p, true, false); *p = v }

// SwapInt32 is atomic.SwapInt32.
func SwapInt32(p *int32, v int32) int32 { simrt.AtomicAccess(p, true, true); o := *p; *p = v; return o }

// CompareAndSwapInt32 is atomic.CompareAndSwapInt32.
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	simrt.AtomicAccess(p, true, true)
	if *p == o {
		*p = n
		return true
	}
	return false
}

// AddInt32 is atomic.AddInt32.
func AddInt32(p *int32, d int32) int32 { simrt.AtomicAccess(p, true, true); *p += d; return *p }

// AndInt32 is atomic.AndInt32.
func AndInt32(p *int32, m int32) int32 { simrt.AtomicAccess(p, true, true); o := *p; *p &= m; return o }

// OrInt32 is atomic.OrInt32.
func OrInt32(p *int32, m int32) int32 { simrt.AtomicAccess(p, true, true); o := *p; *p |= m; return o }

// Int32 is atomic.Int32.
type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&x.v, o, n) }
func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) And(m int32) int32              { return AndInt32(&x.v, m) }
func (x *Int32) Or(m int32) int32               { return OrInt32(&x.v, m) }

// LoadInt64 is atomic.LoadInt64.
func LoadInt64(p *int64) int64 { simrt.AtomicAccess(p, false, false); return *p }

// StoreInt64 is atomic.StoreInt64.
func StoreInt64(p *int64, v int64) { simrt.AtomicAccess(p, true, false); *p = v }

// SwapInt64 is atomic.SwapInt64.
func SwapInt64(p *int64, v int64) int64 { simrt.AtomicAccess(p, true, true); o := *p; *p = v; return o }

// CompareAndSwapInt64 is atomic.CompareAndSwapInt64.
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	simrt.AtomicAccess(p, true, true)
	if *p == o {
		*p = n
		return true
	}
	return false
}

// AddInt64 is atomic.AddInt64.
func AddInt64(p *int64, d int64) int64 { simrt.AtomicAccess(p, true, true); *p += d; return *p }

// AndInt64 is atomic.AndInt64.
func AndInt64(p *int64, m int64) int64 { simrt.AtomicAccess(p, true, true); o := *p; *p &= m; return o }

// OrInt64 is atomic.OrInt64.
func OrInt64(p *int64, m int64) int64 { simrt.AtomicAccess(p, true, true); o := *p; *p |= m; return o }

// Int64 is atomic.Int64.
type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&x.v, o, n) }
func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) And(m int64) int64              { return AndInt64(&x.v, m) }
func (x *Int64) Or(m int64) int64               { return OrInt64(&x.v, m) }

// LoadUint32 is atomic.LoadUint32.
func LoadUint32(p *uint32) uint32 { simrt.AtomicAccess(p, false, false); return *p }

// StoreUint32 is atomic.StoreUint32.
func StoreUint32(p *uint32, v uint32) { simrt.AtomicAccess(p, true, false); *p = v }

// SwapUint32 is atomic.SwapUint32.
func SwapUint32(p *uint32, v uint32) uint32 {
	simrt.AtomicAccess(p, true, true)
	o := *p
	*p = v
	return o
}

// CompareAndSwapUint32 is atomic.CompareAndSwapUint32.
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	simrt.AtomicAccess(p, true, true)
	if *p == o {
		*p = n
		return true
	}
	return false
}

// AddUint32 is atomic.AddUint32.
func AddUint32(p *uint32, d uint32) uint32 { simrt.AtomicAccess(p, true, true); *p += d; return *p }

// AndUint32 is atomic.AndUint32.
func AndUint32(p *uint32, m uint32) uint32 {
	simrt.AtomicAccess(p, true, true)
	o := *p
	*p &= m
	return o
}

// OrUint32 is atomic.OrUint32.
func OrUint32(p *uint32, m uint32) uint32 {
	simrt.AtomicAccess(p, true, true)
	o := *p
	*p |= m
	return o
}

// Uint32 is atomic.Uint32.
type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&x.v, o, n) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) And(m uint32) uint32             { return AndUint32(&x.v, m) }
func (x *Uint32) Or(m uint32) uint32              { return OrUint32(&x.v, m) }

// LoadUint64 is atomic.LoadUint64.
func LoadUint64(p *uint64) uint64 { simrt.AtomicAccess(p, false, false); return *p }

// StoreUint64 is atomic.StoreUint64.
func StoreUint64(p *uint64, v uint64) { simrt.AtomicAccess(p, true, false); *p = v }

// SwapUint64 is atomic.SwapUint64.
func SwapUint64(p *uint64, v uint64) uint64 {
	simrt.AtomicAccess(p, true, true)
	o := *p
	*p = v
	return o
}

// CompareAndSwapUint64 is atomic.CompareAndSwapUint64.
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	simrt.AtomicAccess(p, true, true)
	if *p == o {
		*p = n
		return true
	}
	return false
}

// AddUint64 is atomic.AddUint64.
func AddUint64(p *uint64, d uint64) uint64 { simrt.AtomicAccess(p, true, true); *p += d; return *p }

// AndUint64 is atomic.AndUint64.
func AndUint64(p *uint64, m uint64) uint64 {
	simrt.AtomicAccess(p, true, true)
	o := *p
	*p &= m
	return o
}

// OrUint64 is atomic.OrUint64.
func OrUint64(p *uint64, m uint64) uint64 {
	simrt.AtomicAccess(p, true, true)
	o := *p
	*p |= m
	return o
}

// Uint64 is atomic.Uint64.
type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&x.v, o, n) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) And(m uint64) uint64             { return AndUint64(&x.v, m) }
func (x *Uint64) Or(m uint64) uint64              { return OrUint64(&x.v, m) }

// LoadUintptr is atomic.LoadUintptr.
func LoadUintptr(p *uintptr) uintptr { simrt.AtomicAccess(p, false, false); return *p }

// StoreUintptr is atomic.StoreUintptr.
func StoreUintptr(p *uintptr, v uintptr) { simrt.AtomicAccess(p, true, false); *p = v }

// SwapUintptr is atomic.SwapUintptr.
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	simrt.AtomicAccess(p, true, true)
	o := *p
	*p = v
	return o
}

// CompareAndSwapUintptr is atomic.CompareAndSwapUintptr.
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	simrt.AtomicAccess(p, true, true)
	if *p == o {
		*p = n
		return true
	}
	return false
}

// AddUintptr is atomic.AddUintptr.
func AddUintptr(p *uintptr, d uintptr) uintptr { simrt.AtomicAccess(p, true, true); *p += d; return *p }

// AndUintptr is atomic.AndUintptr.
func AndUintptr(p *uintptr, m uintptr) uintptr {
	simrt.AtomicAccess(p, true, true)
	o := *p
	*p &= m
	return o
}

// OrUintptr is atomic.OrUintptr.
func OrUintptr(p *uintptr, m uintptr) uintptr {
	simrt.AtomicAccess(p, true, true)
	o := *p
	*p |= m
	return o
}

// Uintptr is atomic.Uintptr.
type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&x.v, v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&x.v, o, n) }
func (x *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&x.v, d) }
func (x *Uintptr) And(m uintptr) uintptr            { return AndUintptr(&x.v, m) }
func (x *Uintptr) Or(m uintptr) uintptr             { return OrUintptr(&x.v, m) }

// LoadPointer is atomic.LoadPointer.
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer { simrt.AtomicAccess(p, false, false); return *p }

// StorePointer is atomic.StorePointer.
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { simrt.AtomicAccess(p, true, false); *p = v }

// SwapPointer is atomic.SwapPointer.
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	simrt.AtomicAccess(p, true, true)
	o := *p
	*p = v
	return o
}

// CompareAndSwapPointer is atomic.CompareAndSwapPointer.
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	simrt.AtomicAccess(p, true, true)
	if *p == o {
		*p = n
		return true
	}
	return false
}

// Bool is atomic.Bool.
type Bool struct{ v bool }

func (x *Bool) Load() bool       { simrt.AtomicAccess(&x.v, false, false); return x.v }
func (x *Bool) Store(v bool)     { simrt.AtomicAccess(&x.v, true, false); x.v = v }
func (x *Bool) Swap(v bool) bool { simrt.AtomicAccess(&x.v, true, true); o := x.v; x.v = v; return o }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	simrt.AtomicAccess(&x.v, true, true)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

// Pointer is atomic.Pointer.
type Pointer[T any] struct{ v *T }

func (x *Pointer[T]) Load() *T     { simrt.AtomicAccess(&x.v, false, false); return x.v }
func (x *Pointer[T]) Store(v *T)   { simrt.AtomicAccess(&x.v, true, false); x.v = v }
func (x *Pointer[T]) Swap(v *T) *T { simrt.AtomicAccess(&x.v, true, true); o := x.v; x.v = v; return o }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	simrt.AtomicAccess(&x.v, true, true)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

// Value is atomic.Value.
type Value struct{ v any }

func (x *Value) Load() any   { simrt.AtomicAccess(&x.v, false, false); return x.v }
func (x *Value) Store(v any) { x.chk(v); simrt.AtomicAccess(&x.v, true, false); x.v = v }
func (x *Value) Swap(v any) any {
	x.chk(v)
	simrt.AtomicAccess(&x.v, true, true)
	o := x.v
	x.v = v
	return o
}
func (x *Value) CompareAndSwap(o, n any) bool {
	x.chk(n)
	simrt.AtomicAccess(&x.v, true, true)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}
func (x *Value) chk(v any) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
}
