// Package satomic stands in for package sync/atomic in the instrumented code: the same operations with scheduling points.
package satomic

import (
	"sync/atomic"
	"unsafe"

	"verif/harness/sched"
)

// AddInt32 is atomic.AddInt32.
func AddInt32(p *int32, d int32) int32 { sched.S(); return atomic.AddInt32(p, d) }

// LoadInt32 is atomic.LoadInt32.
func LoadInt32(p *int32) int32 { sched.S(); return atomic.LoadInt32(p) }

// StoreInt32 is atomic.StoreInt32.
func StoreInt32(p *int32, v int32) { sched.S(); atomic.StoreInt32(p, v) }

// SwapInt32 is atomic.SwapInt32.
func SwapInt32(p *int32, v int32) int32 { sched.S(); return atomic.SwapInt32(p, v) }

// CompareAndSwapInt32 is atomic.CompareAndSwapInt32.
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	sched.S()
	return atomic.CompareAndSwapInt32(p, o, n)
}

// AndInt32 is atomic.AndInt32.
func AndInt32(p *int32, v int32) int32 {
	for {
		o := LoadInt32(p)
		if atomic.CompareAndSwapInt32(p, o, o&v) {
			return o
		}
	}
}

// OrInt32 is atomic.OrInt32.
func OrInt32(p *int32, v int32) int32 {
	for {
		o := LoadInt32(p)
		if atomic.CompareAndSwapInt32(p, o, o|v) {
			return o
		}
	}
}

// Int32 is atomic.Int32.
type Int32 struct{ v int32 }

// Load loads.
func (x *Int32) Load() int32 { return LoadInt32(&x.v) }

// Store stores.
func (x *Int32) Store(v int32) { StoreInt32(&x.v, v) }

// Swap swaps.
func (x *Int32) Swap(v int32) int32 { return SwapInt32(&x.v, v) }

// CompareAndSwap compares and swaps.
func (x *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&x.v, o, n) }

// Add adds.
func (x *Int32) Add(d int32) int32 { return AddInt32(&x.v, d) }

// And ands.
func (x *Int32) And(v int32) int32 { return AndInt32(&x.v, v) }

// Or ors.
func (x *Int32) Or(v int32) int32 { return OrInt32(&x.v, v) }

// AddInt64 is atomic.AddInt64.
func AddInt64(p *int64, d int64) int64 { sched.S(); return atomic.AddInt64(p, d) }

// LoadInt64 is atomic.LoadInt64.
func LoadInt64(p *int64) int64 { sched.S(); return atomic.LoadInt64(p) }

// StoreInt64 is atomic.StoreInt64.
func StoreInt64(p *int64, v int64) { sched.S(); atomic.StoreInt64(p, v) }

// SwapInt64 is atomic.SwapInt64.
func SwapInt64(p *int64, v int64) int64 { sched.S(); return atomic.SwapInt64(p, v) }

// CompareAndSwapInt64 is atomic.CompareAndSwapInt64.
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	sched.S()
	return atomic.CompareAndSwapInt64(p, o, n)
}

// AndInt64 is atomic.AndInt64.
func AndInt64(p *int64, v int64) int64 {
	for {
		o := LoadInt64(p)
		if atomic.CompareAndSwapInt64(p, o, o&v) {
			return o
		}
	}
}

// OrInt64 is atomic.OrInt64.
func OrInt64(p *int64, v int64) int64 {
	for {
		o := LoadInt64(p)
		if atomic.CompareAndSwapInt64(p, o, o|v) {
			return o
		}
	}
}

// Int64 is atomic.Int64.
type Int64 struct{ v int64 }

// Load loads.
func (x *Int64) Load() int64 { return LoadInt64(&x.v) }

// Store stores.
func (x *Int64) Store(v int64) { StoreInt64(&x.v, v) }

// Swap swaps.
func (x *Int64) Swap(v int64) int64 { return SwapInt64(&x.v, v) }

// CompareAndSwap compares and swaps.
func (x *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&x.v, o, n) }

// Add adds.
func (x *Int64) Add(d int64) int64 { return AddInt64(&x.v, d) }

// And ands.
func (x *Int64) And(v int64) int64 { return AndInt64(&x.v, v) }

// Or ors.
func (x *Int64) Or(v int64) int64 { return OrInt64(&x.v, v) }

// AddUint32 is atomic.AddUint32.
func AddUint32(p *uint32, d uint32) uint32 { sched.S(); return atomic.AddUint32(p, d) }

// LoadUint32 is atomic.LoadUint32.
func LoadUint32(p *uint32) uint32 { sched.S(); return atomic.LoadUint32(p) }

// StoreUint32 is atomic.StoreUint32.
func StoreUint32(p *uint32, v uint32) { sched.S(); atomic.StoreUint32(p, v) }

// SwapUint32 is atomic.SwapUint32.
func SwapUint32(p *uint32, v uint32) uint32 { sched.S(); return atomic.SwapUint32(p, v) }

// CompareAndSwapUint32 is atomic.CompareAndSwapUint32.
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	sched.S()
	return atomic.CompareAndSwapUint32(p, o, n)
}

// AndUint32 is atomic.AndUint32.
func AndUint32(p *uint32, v uint32) uint32 {
	for {
		o := LoadUint32(p)
		if atomic.CompareAndSwapUint32(p, o, o&v) {
			return o
		}
	}
}

// OrUint32 is atomic.OrUint32.
func OrUint32(p *uint32, v uint32) uint32 {
	for {
		o := LoadUint32(p)
		if atomic.CompareAndSwapUint32(p, o, o|v) {
			return o
		}
	}
}

// Uint32 is atomic.Uint32.
type Uint32 struct{ v uint32 }

// Load loads.
func (x *Uint32) Load() uint32 { return LoadUint32(&x.v) }

// Store stores.
func (x *Uint32) Store(v uint32) { StoreUint32(&x.v, v) }

// Swap swaps.
func (x *Uint32) Swap(v uint32) uint32 { return SwapUint32(&x.v, v) }

// CompareAndSwap compares and swaps.
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&x.v, o, n) }

// Add adds.
func (x *Uint32) Add(d uint32) uint32 { return AddUint32(&x.v, d) }

// And ands.
func (x *Uint32) And(v uint32) uint32 { return AndUint32(&x.v, v) }

// Or ors.
func (x *Uint32) Or(v uint32) uint32 { return OrUint32(&x.v, v) }

// AddUint64 is atomic.AddUint64.
func AddUint64(p *uint64, d uint64) uint64 { sched.S(); return atomic.AddUint64(p, d) }

// LoadUint64 is atomic.LoadUint64.
func LoadUint64(p *uint64) uint64 { sched.S(); return atomic.LoadUint64(p) }

// StoreUint64 is atomic.StoreUint64.
func StoreUint64(p *uint64, v uint64) { sched.S(); atomic.StoreUint64(p, v) }

// SwapUint64 is atomic.SwapUint64.
func SwapUint64(p *uint64, v uint64) uint64 { sched.S(); return atomic.SwapUint64(p, v) }

// CompareAndSwapUint64 is atomic.CompareAndSwapUint64.
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	sched.S()
	return atomic.CompareAndSwapUint64(p, o, n)
}

// AndUint64 is atomic.AndUint64.
func AndUint64(p *uint64, v uint64) uint64 {
	for {
		o := LoadUint64(p)
		if atomic.CompareAndSwapUint64(p, o, o&v) {
			return o
		}
	}
}

// OrUint64 is atomic.OrUint64.
func OrUint64(p *uint64, v uint64) uint64 {
	for {
		o := LoadUint64(p)
		if atomic.CompareAndSwapUint64(p, o, o|v) {
			return o
		}
	}
}

// Uint64 is atomic.Uint64.
type Uint64 struct{ v uint64 }

// Load loads.
func (x *Uint64) Load() uint64 { return LoadUint64(&x.v) }

// Store stores.
func (x *Uint64) Store(v uint64) { StoreUint64(&x.v, v) }

// Swap swaps.
func (x *Uint64) Swap(v uint64) uint64 { return SwapUint64(&x.v, v) }

// CompareAndSwap compares and swaps.
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&x.v, o, n) }

// Add adds.
func (x *Uint64) Add(d uint64) uint64 { return AddUint64(&x.v, d) }

// And ands.
func (x *Uint64) And(v uint64) uint64 { return AndUint64(&x.v, v) }

// Or ors.
func (x *Uint64) Or(v uint64) uint64 { return OrUint64(&x.v, v) }

// AddUintptr is atomic.AddUintptr.
func AddUintptr(p *uintptr, d uintptr) uintptr { sched.S(); return atomic.AddUintptr(p, d) }

// LoadUintptr is atomic.LoadUintptr.
func LoadUintptr(p *uintptr) uintptr { sched.S(); return atomic.LoadUintptr(p) }

// StoreUintptr is atomic.StoreUintptr.
func StoreUintptr(p *uintptr, v uintptr) { sched.S(); atomic.StoreUintptr(p, v) }

// SwapUintptr is atomic.SwapUintptr.
func SwapUintptr(p *uintptr, v uintptr) uintptr { sched.S(); return atomic.SwapUintptr(p, v) }

// CompareAndSwapUintptr is atomic.CompareAndSwapUintptr.
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	sched.S()
	return atomic.CompareAndSwapUintptr(p, o, n)
}

// AndUintptr is atomic.AndUintptr.
func AndUintptr(p *uintptr, v uintptr) uintptr {
	for {
		o := LoadUintptr(p)
		if atomic.CompareAndSwapUintptr(p, o, o&v) {
			return o
		}
	}
}

// OrUintptr is atomic.OrUintptr.
func OrUintptr(p *uintptr, v uintptr) uintptr {
	for {
		o := LoadUintptr(p)
		if atomic.CompareAndSwapUintptr(p, o, o|v) {
			return o
		}
	}
}

// Uintptr is atomic.Uintptr.
type Uintptr struct{ v uintptr }

// Load loads.
func (x *Uintptr) Load() uintptr { return LoadUintptr(&x.v) }

// Store stores.
func (x *Uintptr) Store(v uintptr) { StoreUintptr(&x.v, v) }

// Swap swaps.
func (x *Uintptr) Swap(v uintptr) uintptr { return SwapUintptr(&x.v, v) }

// CompareAndSwap compares and swaps.
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&x.v, o, n) }

// Add adds.
func (x *Uintptr) Add(d uintptr) uintptr { return AddUintptr(&x.v, d) }

// And ands.
func (x *Uintptr) And(v uintptr) uintptr { return AndUintptr(&x.v, v) }

// Or ors.
func (x *Uintptr) Or(v uintptr) uintptr { return OrUintptr(&x.v, v) }

// LoadPointer is atomic.LoadPointer.
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer { sched.S(); return atomic.LoadPointer(p) }

// StorePointer is atomic.StorePointer.
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { sched.S(); atomic.StorePointer(p, v) }

// SwapPointer is atomic.SwapPointer.
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	sched.S()
	return atomic.SwapPointer(p, v)
}

// CompareAndSwapPointer is atomic.CompareAndSwapPointer.
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	sched.S()
	return atomic.CompareAndSwapPointer(p, o, n)
}

// Bool is atomic.Bool.
type Bool struct{ v atomic.Bool }

// Load loads.
func (x *Bool) Load() bool { sched.S(); return x.v.Load() }

// Store stores.
func (x *Bool) Store(v bool) { sched.S(); x.v.Store(v) }

// Swap swaps.
func (x *Bool) Swap(v bool) bool { sched.S(); return x.v.Swap(v) }

// CompareAndSwap compares and swaps.
func (x *Bool) CompareAndSwap(o, n bool) bool { sched.S(); return x.v.CompareAndSwap(o, n) }

// Pointer is atomic.Pointer.
type Pointer[T any] struct{ v atomic.Pointer[T] }

// Load loads.
func (x *Pointer[T]) Load() *T { sched.S(); return x.v.Load() }

// Store stores.
func (x *Pointer[T]) Store(v *T) { sched.S(); x.v.Store(v) }

// Swap swaps.
func (x *Pointer[T]) Swap(v *T) *T { sched.S(); return x.v.Swap(v) }

// CompareAndSwap compares and swaps.
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { sched.S(); return x.v.CompareAndSwap(o, n) }

// Value is atomic.Value.
type Value struct{ v atomic.Value }

// Load loads.
func (x *Value) Load() any { sched.S(); return x.v.Load() }

// Store stores.
func (x *Value) Store(v any) { sched.S(); x.v.Store(v) }

// Swap swaps.
func (x *Value) Swap(v any) any { sched.S(); return x.v.Swap(v) }

// CompareAndSwap compares and swaps.
func (x *Value) CompareAndSwap(o, n any) bool { sched.S(); return x.v.CompareAndSwap(o, n) }
