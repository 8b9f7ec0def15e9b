// Package vatomic stands in for sync/atomic in rewritten sources.
package vatomic

import (
	"unsafe"

	"verifharness/vs"
)

// AddInt32 and the rest are as in sync/atomic.
func AddInt32(p *int32, d int32) int32 { vs.Point(); *p += d; return *p }

// LoadInt32 loads.
func LoadInt32(p *int32) int32 { vs.Point(); return *p }

// StoreInt32 stores.
func StoreInt32(p *int32, v int32) { vs.Point(); *p = v }

// SwapInt32 swaps.
func SwapInt32(p *int32, v int32) int32 { vs.Point(); o := *p; *p = v; return o }

// CompareAndSwapInt32 compares and swaps.
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	vs.Point()
	if *p == o {
		*p = n
		return true
	}
	return false
}

// AndInt32 ands.
func AndInt32(p *int32, m int32) int32 { vs.Point(); o := *p; *p &= m; return o }

// OrInt32 ors.
func OrInt32(p *int32, m int32) int32 { vs.Point(); o := *p; *p |= m; return o }

// Int32 is an atomic int32.
type Int32 struct{ v int32 }

// Load loads.
func (x *Int32) Load() int32 { return LoadInt32(&x.v) }

// Store stores.
func (x *Int32) Store(v int32) {
	if vs.Killing() {
		return
	}
	StoreInt32(&x.v, v)
}

// Add adds.
func (x *Int32) Add(d int32) int32 { return AddInt32(&x.v, d) }

// Swap swaps.
func (x *Int32) Swap(v int32) int32 { return SwapInt32(&x.v, v) }

// CompareAndSwap compares and swaps.
func (x *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&x.v, o, n) }

// And ands.
func (x *Int32) And(m int32) int32 { return AndInt32(&x.v, m) }

// Or ors.
func (x *Int32) Or(m int32) int32 { return OrInt32(&x.v, m) }

// AddInt64 and the rest are as in sync/atomic.
func AddInt64(p *int64, d int64) int64 { vs.Point(); *p += d; return *p }

// LoadInt64 loads.
func LoadInt64(p *int64) int64 { vs.Point(); return *p }

// StoreInt64 stores.
func StoreInt64(p *int64, v int64) { vs.Point(); *p = v }

// SwapInt64 swaps.
func SwapInt64(p *int64, v int64) int64 { vs.Point(); o := *p; *p = v; return o }

// CompareAndSwapInt64 compares and swaps.
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	vs.Point()
	if *p == o {
		*p = n
		return true
	}
	return false
}

// AndInt64 ands.
func AndInt64(p *int64, m int64) int64 { vs.Point(); o := *p; *p &= m; return o }

// OrInt64 ors.
func OrInt64(p *int64, m int64) int64 { vs.Point(); o := *p; *p |= m; return o }

// Int64 is an atomic int64.
type Int64 struct{ v int64 }

// Load loads.
func (x *Int64) Load() int64 { return LoadInt64(&x.v) }

// Store stores.
func (x *Int64) Store(v int64) {
	if vs.Killing() {
		return
	}
	StoreInt64(&x.v, v)
}

// Add adds.
func (x *Int64) Add(d int64) int64 { return AddInt64(&x.v, d) }

// Swap swaps.
func (x *Int64) Swap(v int64) int64 { return SwapInt64(&x.v, v) }

// CompareAndSwap compares and swaps.
func (x *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&x.v, o, n) }

// And ands.
func (x *Int64) And(m int64) int64 { return AndInt64(&x.v, m) }

// Or ors.
func (x *Int64) Or(m int64) int64 { return OrInt64(&x.v, m) }

// AddUint32 and the rest are as in sync/atomic.
func AddUint32(p *uint32, d uint32) uint32 { vs.Point(); *p += d; return *p }

// LoadUint32 loads.
func LoadUint32(p *uint32) uint32 { vs.Point(); return *p }

// StoreUint32 stores.
func StoreUint32(p *uint32, v uint32) { vs.Point(); *p = v }

// SwapUint32 swaps.
func SwapUint32(p *uint32, v uint32) uint32 { vs.Point(); o := *p; *p = v; return o }

// CompareAndSwapUint32 compares and swaps.
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	vs.Point()
	if *p == o {
		*p = n
		return true
	}
	return false
}

// AndUint32 ands.
func AndUint32(p *uint32, m uint32) uint32 { vs.Point(); o := *p; *p &= m; return o }

// OrUint32 ors.
func OrUint32(p *uint32, m uint32) uint32 { vs.Point(); o := *p; *p |= m; return o }

// Uint32 is an atomic uint32.
type Uint32 struct{ v uint32 }

// Load loads.
func (x *Uint32) Load() uint32 { return LoadUint32(&x.v) }

// Store stores.
func (x *Uint32) Store(v uint32) {
	if vs.Killing() {
		return
	}
	StoreUint32(&x.v, v)
}

// Add adds.
func (x *Uint32) Add(d uint32) uint32 { return AddUint32(&x.v, d) }

// Swap swaps.
func (x *Uint32) Swap(v uint32) uint32 { return SwapUint32(&x.v, v) }

// CompareAndSwap compares and swaps.
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&x.v, o, n) }

// And ands.
func (x *Uint32) And(m uint32) uint32 { return AndUint32(&x.v, m) }

// Or ors.
func (x *Uint32) Or(m uint32) uint32 { return OrUint32(&x.v, m) }

// AddUint64 and the rest are as in sync/atomic.
func AddUint64(p *uint64, d uint64) uint64 { vs.Point(); *p += d; return *p }

// LoadUint64 loads.
func LoadUint64(p *uint64) uint64 { vs.Point(); return *p }

// StoreUint64 stores.
func StoreUint64(p *uint64, v uint64) { vs.Point(); *p = v }

// SwapUint64 swaps.
func SwapUint64(p *uint64, v uint64) uint64 { vs.Point(); o := *p; *p = v; return o }

// CompareAndSwapUint64 compares and swaps.
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	vs.Point()
	if *p == o {
		*p = n
		return true
	}
	return false
}

// AndUint64 ands.
func AndUint64(p *uint64, m uint64) uint64 { vs.Point(); o := *p; *p &= m; return o }

// OrUint64 ors.
func OrUint64(p *uint64, m uint64) uint64 { vs.Point(); o := *p; *p |= m; return o }

// Uint64 is an atomic uint64.
type Uint64 struct{ v uint64 }

// Load loads.
func (x *Uint64) Load() uint64 { return LoadUint64(&x.v) }

// Store stores.
func (x *Uint64) Store(v uint64) {
	if vs.Killing() {
		return
	}
	StoreUint64(&x.v, v)
}

// Add adds.
func (x *Uint64) Add(d uint64) uint64 { return AddUint64(&x.v, d) }

// Swap swaps.
func (x *Uint64) Swap(v uint64) uint64 { return SwapUint64(&x.v, v) }

// CompareAndSwap compares and swaps.
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&x.v, o, n) }

// And ands.
func (x *Uint64) And(m uint64) uint64 { return AndUint64(&x.v, m) }

// Or ors.
func (x *Uint64) Or(m uint64) uint64 { return OrUint64(&x.v, m) }

// AddUintptr and the rest are as in sync/atomic.
func AddUintptr(p *uintptr, d uintptr) uintptr { vs.Point(); *p += d; return *p }

// LoadUintptr loads.
func LoadUintptr(p *uintptr) uintptr { vs.Point(); return *p }

// StoreUintptr stores.
func StoreUintptr(p *uintptr, v uintptr) { vs.Point(); *p = v }

// SwapUintptr swaps.
func SwapUintptr(p *uintptr, v uintptr) uintptr { vs.Point(); o := *p; *p = v; return o }

// CompareAndSwapUintptr compares and swaps.
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	vs.Point()
	if *p == o {
		*p = n
		return true
	}
	return false
}

// AndUintptr ands.
func AndUintptr(p *uintptr, m uintptr) uintptr { vs.Point(); o := *p; *p &= m; return o }

// OrUintptr ors.
func OrUintptr(p *uintptr, m uintptr) uintptr { vs.Point(); o := *p; *p |= m; return o }

// Uintptr is an atomic uintptr.
type Uintptr struct{ v uintptr }

// Load loads.
func (x *Uintptr) Load() uintptr { return LoadUintptr(&x.v) }

// Store stores.
func (x *Uintptr) Store(v uintptr) {
	if vs.Killing() {
		return
	}
	StoreUintptr(&x.v, v)
}

// Add adds.
func (x *Uintptr) Add(d uintptr) uintptr { return AddUintptr(&x.v, d) }

// Swap swaps.
func (x *Uintptr) Swap(v uintptr) uintptr { return SwapUintptr(&x.v, v) }

// CompareAndSwap compares and swaps.
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&x.v, o, n) }

// And ands.
func (x *Uintptr) And(m uintptr) uintptr { return AndUintptr(&x.v, m) }

// Or ors.
func (x *Uintptr) Or(m uintptr) uintptr { return OrUintptr(&x.v, m) }

// LoadPointer loads.
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer { vs.Point(); return *p }

// StorePointer stores.
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { vs.Point(); *p = v }

// SwapPointer swaps.
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	vs.Point()
	o := *p
	*p = v
	return o
}

// CompareAndSwapPointer compares and swaps.
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	vs.Point()
	if *p == o {
		*p = n
		return true
	}
	return false
}

// Bool is an atomic bool.
type Bool struct{ v bool }

// Load loads.
func (x *Bool) Load() bool { vs.Point(); return x.v }

// Store stores.
func (x *Bool) Store(v bool) {
	if vs.Killing() {
		return
	}
	vs.Point()
	x.v = v
}

// Swap swaps.
func (x *Bool) Swap(v bool) bool { vs.Point(); o := x.v; x.v = v; return o }

// CompareAndSwap compares and swaps.
func (x *Bool) CompareAndSwap(o, n bool) bool {
	vs.Point()
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

// Pointer is an atomic pointer.
type Pointer[T any] struct{ v *T }

// Load loads.
func (x *Pointer[T]) Load() *T { vs.Point(); return x.v }

// Store stores.
func (x *Pointer[T]) Store(v *T) {
	if vs.Killing() {
		return
	}
	vs.Point()
	x.v = v
}

// Swap swaps.
func (x *Pointer[T]) Swap(v *T) *T { vs.Point(); o := x.v; x.v = v; return o }

// CompareAndSwap compares and swaps.
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	vs.Point()
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

// Value is an atomic value.
type Value struct{ v any }

// Load loads.
func (x *Value) Load() any { vs.Point(); return x.v }

// Store stores.
func (x *Value) Store(v any) {
	vs.Point()
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	x.v = v
}

// Swap swaps.
func (x *Value) Swap(v any) any { vs.Point(); o := x.v; x.v = v; return o }

// CompareAndSwap compares and swaps.
func (x *Value) CompareAndSwap(o, n any) bool {
	vs.Point()
	if x.v == o {
		x.v = n
		return true
	}
	return false
}
