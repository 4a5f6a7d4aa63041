// Package vatomic stands in for package sync/atomic under the scheduler.
package vatomic

import (
	"unsafe"

	"verif/vsched"
)

func op(what string, p unsafe.Pointer, write bool) {
	if vsched.Active() == nil {
		return
	}
	o := vsched.Atom(p)
	vsched.Do(what, o, !write, nil, 0)
	if vsched.Dead() {
		return
	}
	vsched.AtomicAccess(p, what, write)
	vsched.Active().Acquire(o)
	if write {
		vsched.Active().Release(o)
	}
}

// LoadInt32 is atomic.LoadInt32.
func LoadInt32(p *int32) int32 { op("atomic load", unsafe.Pointer(p), false); return *p }

// StoreInt32 is atomic.StoreInt32.
func StoreInt32(p *int32, v int32) { op("atomic store", unsafe.Pointer(p), true); *p = v }

// SwapInt32 is atomic.SwapInt32.
func SwapInt32(p *int32, v int32) int32 {
	op("atomic swap", unsafe.Pointer(p), true)
	o := *p
	*p = v
	return o
}

// CompareAndSwapInt32 is atomic.CompareAndSwapInt32.
func CompareAndSwapInt32(p *int32, o, v int32) bool {
	op("atomic cas", unsafe.Pointer(p), true)
	if *p != o {
		return false
	}
	*p = v
	return true
}

// AddInt32 is atomic.AddInt32.
func AddInt32(p *int32, d int32) int32 { op("atomic add", unsafe.Pointer(p), true); *p += d; return *p }

// AndInt32 is atomic.AndInt32.
func AndInt32(p *int32, d int32) int32 {
	op("atomic and", unsafe.Pointer(p), true)
	o := *p
	*p &= d
	return o
}

// OrInt32 is atomic.OrInt32.
func OrInt32(p *int32, d int32) int32 {
	op("atomic or", unsafe.Pointer(p), true)
	o := *p
	*p |= d
	return o
}

// Int32 is atomic.Int32.
type Int32 struct{ v int32 }

// Load loads.
func (x *Int32) Load() int32 { return LoadInt32(&x.v) }

// Store stores.
func (x *Int32) Store(v int32) { StoreInt32(&x.v, v) }

// Swap swaps.
func (x *Int32) Swap(v int32) int32 { return SwapInt32(&x.v, v) }

// CompareAndSwap compares and swaps.
func (x *Int32) CompareAndSwap(o, v int32) bool { return CompareAndSwapInt32(&x.v, o, v) }

// Add adds.
func (x *Int32) Add(d int32) int32 { return AddInt32(&x.v, d) }

// And is and.
func (x *Int32) And(d int32) int32 { return AndInt32(&x.v, d) }

// Or is or.
func (x *Int32) Or(d int32) int32 { return OrInt32(&x.v, d) }

// LoadInt64 is atomic.LoadInt64.
func LoadInt64(p *int64) int64 { op("atomic load", unsafe.Pointer(p), false); return *p }

// StoreInt64 is atomic.StoreInt64.
func StoreInt64(p *int64, v int64) { op("atomic store", unsafe.Pointer(p), true); *p = v }

// SwapInt64 is atomic.SwapInt64.
func SwapInt64(p *int64, v int64) int64 {
	op("atomic swap", unsafe.Pointer(p), true)
	o := *p
	*p = v
	return o
}

// CompareAndSwapInt64 is atomic.CompareAndSwapInt64.
func CompareAndSwapInt64(p *int64, o, v int64) bool {
	op("atomic cas", unsafe.Pointer(p), true)
	if *p != o {
		return false
	}
	*p = v
	return true
}

// AddInt64 is atomic.AddInt64.
func AddInt64(p *int64, d int64) int64 { op("atomic add", unsafe.Pointer(p), true); *p += d; return *p }

// AndInt64 is atomic.AndInt64.
func AndInt64(p *int64, d int64) int64 {
	op("atomic and", unsafe.Pointer(p), true)
	o := *p
	*p &= d
	return o
}

// OrInt64 is atomic.OrInt64.
func OrInt64(p *int64, d int64) int64 {
	op("atomic or", unsafe.Pointer(p), true)
	o := *p
	*p |= d
	return o
}

// Int64 is atomic.Int64.
type Int64 struct{ v int64 }

// Load loads.
func (x *Int64) Load() int64 { return LoadInt64(&x.v) }

// Store stores.
func (x *Int64) Store(v int64) { StoreInt64(&x.v, v) }

// Swap swaps.
func (x *Int64) Swap(v int64) int64 { return SwapInt64(&x.v, v) }

// CompareAndSwap compares and swaps.
func (x *Int64) CompareAndSwap(o, v int64) bool { return CompareAndSwapInt64(&x.v, o, v) }

// Add adds.
func (x *Int64) Add(d int64) int64 { return AddInt64(&x.v, d) }

// And is and.
func (x *Int64) And(d int64) int64 { return AndInt64(&x.v, d) }

// Or is or.
func (x *Int64) Or(d int64) int64 { return OrInt64(&x.v, d) }

// LoadUint32 is atomic.LoadUint32.
func LoadUint32(p *uint32) uint32 { op("atomic load", unsafe.Pointer(p), false); return *p }

// StoreUint32 is atomic.StoreUint32.
func StoreUint32(p *uint32, v uint32) { op("atomic store", unsafe.Pointer(p), true); *p = v }

// SwapUint32 is atomic.SwapUint32.
func SwapUint32(p *uint32, v uint32) uint32 {
	op("atomic swap", unsafe.Pointer(p), true)
	o := *p
	*p = v
	return o
}

// CompareAndSwapUint32 is atomic.CompareAndSwapUint32.
func CompareAndSwapUint32(p *uint32, o, v uint32) bool {
	op("atomic cas", unsafe.Pointer(p), true)
	if *p != o {
		return false
	}
	*p = v
	return true
}

// AddUint32 is atomic.AddUint32.
func AddUint32(p *uint32, d uint32) uint32 {
	op("atomic add", unsafe.Pointer(p), true)
	*p += d
	return *p
}

// AndUint32 is atomic.AndUint32.
func AndUint32(p *uint32, d uint32) uint32 {
	op("atomic and", unsafe.Pointer(p), true)
	o := *p
	*p &= d
	return o
}

// OrUint32 is atomic.OrUint32.
func OrUint32(p *uint32, d uint32) uint32 {
	op("atomic or", unsafe.Pointer(p), true)
	o := *p
	*p |= d
	return o
}

// Uint32 is atomic.Uint32.
type Uint32 struct{ v uint32 }

// Load loads.
func (x *Uint32) Load() uint32 { return LoadUint32(&x.v) }

// Store stores.
func (x *Uint32) Store(v uint32) { StoreUint32(&x.v, v) }

// Swap swaps.
func (x *Uint32) Swap(v uint32) uint32 { return SwapUint32(&x.v, v) }

// CompareAndSwap compares and swaps.
func (x *Uint32) CompareAndSwap(o, v uint32) bool { return CompareAndSwapUint32(&x.v, o, v) }

// Add adds.
func (x *Uint32) Add(d uint32) uint32 { return AddUint32(&x.v, d) }

// And is and.
func (x *Uint32) And(d uint32) uint32 { return AndUint32(&x.v, d) }

// Or is or.
func (x *Uint32) Or(d uint32) uint32 { return OrUint32(&x.v, d) }

// LoadUint64 is atomic.LoadUint64.
func LoadUint64(p *uint64) uint64 { op("atomic load", unsafe.Pointer(p), false); return *p }

// StoreUint64 is atomic.StoreUint64.
func StoreUint64(p *uint64, v uint64) { op("atomic store", unsafe.Pointer(p), true); *p = v }

// SwapUint64 is atomic.SwapUint64.
func SwapUint64(p *uint64, v uint64) uint64 {
	op("atomic swap", unsafe.Pointer(p), true)
	o := *p
	*p = v
	return o
}

// CompareAndSwapUint64 is atomic.CompareAndSwapUint64.
func CompareAndSwapUint64(p *uint64, o, v uint64) bool {
	op("atomic cas", unsafe.Pointer(p), true)
	if *p != o {
		return false
	}
	*p = v
	return true
}

// AddUint64 is atomic.AddUint64.
func AddUint64(p *uint64, d uint64) uint64 {
	op("atomic add", unsafe.Pointer(p), true)
	*p += d
	return *p
}

// AndUint64 is atomic.AndUint64.
func AndUint64(p *uint64, d uint64) uint64 {
	op("atomic and", unsafe.Pointer(p), true)
	o := *p
	*p &= d
	return o
}

// OrUint64 is atomic.OrUint64.
func OrUint64(p *uint64, d uint64) uint64 {
	op("atomic or", unsafe.Pointer(p), true)
	o := *p
	*p |= d
	return o
}

// Uint64 is atomic.Uint64.
type Uint64 struct{ v uint64 }

// Load loads.
func (x *Uint64) Load() uint64 { return LoadUint64(&x.v) }

// Store stores.
func (x *Uint64) Store(v uint64) { StoreUint64(&x.v, v) }

// Swap swaps.
func (x *Uint64) Swap(v uint64) uint64 { return SwapUint64(&x.v, v) }

// CompareAndSwap compares and swaps.
func (x *Uint64) CompareAndSwap(o, v uint64) bool { return CompareAndSwapUint64(&x.v, o, v) }

// Add adds.
func (x *Uint64) Add(d uint64) uint64 { return AddUint64(&x.v, d) }

// And is and.
func (x *Uint64) And(d uint64) uint64 { return AndUint64(&x.v, d) }

// Or is or.
func (x *Uint64) Or(d uint64) uint64 { return OrUint64(&x.v, d) }

// LoadUintptr is atomic.LoadUintptr.
func LoadUintptr(p *uintptr) uintptr { op("atomic load", unsafe.Pointer(p), false); return *p }

// StoreUintptr is atomic.StoreUintptr.
func StoreUintptr(p *uintptr, v uintptr) { op("atomic store", unsafe.Pointer(p), true); *p = v }

// SwapUintptr is atomic.SwapUintptr.
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	op("atomic swap", unsafe.Pointer(p), true)
	o := *p
	*p = v
	return o
}

// CompareAndSwapUintptr is atomic.CompareAndSwapUintptr.
func CompareAndSwapUintptr(p *uintptr, o, v uintptr) bool {
	op("atomic cas", unsafe.Pointer(p), true)
	if *p != o {
		return false
	}
	*p = v
	return true
}

// AddUintptr is atomic.AddUintptr.
func AddUintptr(p *uintptr, d uintptr) uintptr {
	op("atomic add", unsafe.Pointer(p), true)
	*p += d
	return *p
}

// AndUintptr is atomic.AndUintptr.
func AndUintptr(p *uintptr, d uintptr) uintptr {
	op("atomic and", unsafe.Pointer(p), true)
	o := *p
	*p &= d
	return o
}

// OrUintptr is atomic.OrUintptr.
func OrUintptr(p *uintptr, d uintptr) uintptr {
	op("atomic or", unsafe.Pointer(p), true)
	o := *p
	*p |= d
	return o
}

// Uintptr is atomic.Uintptr.
type Uintptr struct{ v uintptr }

// Load loads.
func (x *Uintptr) Load() uintptr { return LoadUintptr(&x.v) }

// Store stores.
func (x *Uintptr) Store(v uintptr) { StoreUintptr(&x.v, v) }

// Swap swaps.
func (x *Uintptr) Swap(v uintptr) uintptr { return SwapUintptr(&x.v, v) }

// CompareAndSwap compares and swaps.
func (x *Uintptr) CompareAndSwap(o, v uintptr) bool { return CompareAndSwapUintptr(&x.v, o, v) }

// Add adds.
func (x *Uintptr) Add(d uintptr) uintptr { return AddUintptr(&x.v, d) }

// And is and.
func (x *Uintptr) And(d uintptr) uintptr { return AndUintptr(&x.v, d) }

// Or is or.
func (x *Uintptr) Or(d uintptr) uintptr { return OrUintptr(&x.v, d) }

// LoadPointer is atomic.LoadPointer.
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	op("atomic load", unsafe.Pointer(p), false)
	return *p
}

// StorePointer is atomic.StorePointer.
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	op("atomic store", unsafe.Pointer(p), true)
	*p = v
}

// SwapPointer is atomic.SwapPointer.
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	op("atomic swap", unsafe.Pointer(p), true)
	o := *p
	*p = v
	return o
}

// CompareAndSwapPointer is atomic.CompareAndSwapPointer.
func CompareAndSwapPointer(p *unsafe.Pointer, o, v unsafe.Pointer) bool {
	op("atomic cas", unsafe.Pointer(p), true)
	if *p != o {
		return false
	}
	*p = v
	return true
}

// Bool is atomic.Bool.
type Bool struct{ v uint32 }

func b(v bool) uint32 {
	if v {
		return 1
	}
	return 0
}

// Load loads.
func (x *Bool) Load() bool { return LoadUint32(&x.v) != 0 }

// Store stores.
func (x *Bool) Store(v bool) { StoreUint32(&x.v, b(v)) }

// Swap swaps.
func (x *Bool) Swap(v bool) bool { return SwapUint32(&x.v, b(v)) != 0 }

// CompareAndSwap compares and swaps.
func (x *Bool) CompareAndSwap(o, v bool) bool { return CompareAndSwapUint32(&x.v, b(o), b(v)) }

// Pointer is atomic.Pointer.
type Pointer[T any] struct{ v *T }

// Load loads.
func (x *Pointer[T]) Load() *T { op("atomic load", unsafe.Pointer(&x.v), false); return x.v }

// Store stores.
func (x *Pointer[T]) Store(v *T) { op("atomic store", unsafe.Pointer(&x.v), true); x.v = v }

// Swap swaps.
func (x *Pointer[T]) Swap(v *T) *T {
	op("atomic swap", unsafe.Pointer(&x.v), true)
	o := x.v
	x.v = v
	return o
}

// CompareAndSwap compares and swaps.
func (x *Pointer[T]) CompareAndSwap(o, v *T) bool {
	op("atomic cas", unsafe.Pointer(&x.v), true)
	if x.v != o {
		return false
	}
	x.v = v
	return true
}

// Value is atomic.Value.
type Value struct{ v interface{} }

// Load loads.
func (x *Value) Load() interface{} { op("atomic load", unsafe.Pointer(&x.v), false); return x.v }

// Store stores.
func (x *Value) Store(v interface{}) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	op("atomic store", unsafe.Pointer(&x.v), true)
	x.v = v
}

// Swap swaps.
func (x *Value) Swap(v interface{}) interface{} {
	op("atomic swap", unsafe.Pointer(&x.v), true)
	o := x.v
	x.v = v
	return o
}

// CompareAndSwap compares and swaps.
func (x *Value) CompareAndSwap(o, v interface{}) bool {
	op("atomic cas", unsafe.Pointer(&x.v), true)
	if x.v != o {
		return false
	}
	x.v = v
	return true
}
