// Package atomic is what package sync/atomic is replaced with.
package atomic

import (
	"unsafe"

	"zzmc/mc"
)

func LoadInt32(p *int32) (v int32) {
	mc.Atomic(unsafe.Pointer(p), unsafe.Sizeof(*p), 0, "atomic load", func() { v = *p })
	return
}
func StoreInt32(p *int32, v int32) {
	mc.Atomic(unsafe.Pointer(p), unsafe.Sizeof(*p), 1, "atomic store", func() { *p = v })
}
func AddInt32(p *int32, d int32) (v int32) {
	mc.Atomic(unsafe.Pointer(p), unsafe.Sizeof(*p), 2, "atomic add", func() { *p += d; v = *p })
	return
}
func SwapInt32(p *int32, n int32) (v int32) {
	mc.Atomic(unsafe.Pointer(p), unsafe.Sizeof(*p), 2, "atomic swap", func() { v = *p; *p = n })
	return
}
func CompareAndSwapInt32(p *int32, o, n int32) (ok bool) {
	mc.Atomic(unsafe.Pointer(p), unsafe.Sizeof(*p), 2, "atomic cas", func() {
		if *p == o {
			*p, ok = n, true
		}
	})
	return
}
func AndInt32(p *int32, m int32) (v int32) {
	mc.Atomic(unsafe.Pointer(p), unsafe.Sizeof(*p), 2, "atomic and", func() { v = *p; *p &= m })
	return
}
func OrInt32(p *int32, m int32) (v int32) {
	mc.Atomic(unsafe.Pointer(p), unsafe.Sizeof(*p), 2, "atomic or", func() { v = *p; *p |= m })
	return
}

type Int32 struct{ v int32 }

func (a *Int32) Load() int32                    { return LoadInt32(&a.v) }
func (a *Int32) Store(v int32)                  { StoreInt32(&a.v, v) }
func (a *Int32) Add(d int32) int32              { return AddInt32(&a.v, d) }
func (a *Int32) Swap(n int32) int32             { return SwapInt32(&a.v, n) }
func (a *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&a.v, o, n) }
func (a *Int32) And(m int32) int32              { return AndInt32(&a.v, m) }
func (a *Int32) Or(m int32) int32               { return OrInt32(&a.v, m) }

func LoadInt64(p *int64) (v int64) {
	mc.Atomic(unsafe.Pointer(p), unsafe.Sizeof(*p), 0, "atomic load", func() { v = *p })
	return
}
func StoreInt64(p *int64, v int64) {
	mc.Atomic(unsafe.Pointer(p), unsafe.Sizeof(*p), 1, "atomic store", func() { *p = v })
}
func AddInt64(p *int64, d int64) (v int64) {
	mc.Atomic(unsafe.Pointer(p), unsafe.Sizeof(*p), 2, "atomic add", func() { *p += d; v = *p })
	return
}
func SwapInt64(p *int64, n int64) (v int64) {
	mc.Atomic(unsafe.Pointer(p), unsafe.Sizeof(*p), 2, "atomic swap", func() { v = *p; *p = n })
	return
}
func CompareAndSwapInt64(p *int64, o, n int64) (ok bool) {
	mc.Atomic(unsafe.Pointer(p), unsafe.Sizeof(*p), 2, "atomic cas", func() {
		if *p == o {
			*p, ok = n, true
		}
	})
	return
}
func AndInt64(p *int64, m int64) (v int64) {
	mc.Atomic(unsafe.Pointer(p), unsafe.Sizeof(*p), 2, "atomic and", func() { v = *p; *p &= m })
	return
}
func OrInt64(p *int64, m int64) (v int64) {
	mc.Atomic(unsafe.Pointer(p), unsafe.Sizeof(*p), 2, "atomic or", func() { v = *p; *p |= m })
	return
}

type Int64 struct{ v int64 }

func (a *Int64) Load() int64                    { return LoadInt64(&a.v) }
func (a *Int64) Store(v int64)                  { StoreInt64(&a.v, v) }
func (a *Int64) Add(d int64) int64              { return AddInt64(&a.v, d) }
func (a *Int64) Swap(n int64) int64             { return SwapInt64(&a.v, n) }
func (a *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&a.v, o, n) }
func (a *Int64) And(m int64) int64              { return AndInt64(&a.v, m) }
func (a *Int64) Or(m int64) int64               { return OrInt64(&a.v, m) }

func LoadUint32(p *uint32) (v uint32) {
	mc.Atomic(unsafe.Pointer(p), unsafe.Sizeof(*p), 0, "atomic load", func() { v = *p })
	return
}
func StoreUint32(p *uint32, v uint32) {
	mc.Atomic(unsafe.Pointer(p), unsafe.Sizeof(*p), 1, "atomic store", func() { *p = v })
}
func AddUint32(p *uint32, d uint32) (v uint32) {
	mc.Atomic(unsafe.Pointer(p), unsafe.Sizeof(*p), 2, "atomic add", func() { *p += d; v = *p })
	return
}
func SwapUint32(p *uint32, n uint32) (v uint32) {
	mc.Atomic(unsafe.Pointer(p), unsafe.Sizeof(*p), 2, "atomic swap", func() { v = *p; *p = n })
	return
}
func CompareAndSwapUint32(p *uint32, o, n uint32) (ok bool) {
	mc.Atomic(unsafe.Pointer(p), unsafe.Sizeof(*p), 2, "atomic cas", func() {
		if *p == o {
			*p, ok = n, true
		}
	})
	return
}
func AndUint32(p *uint32, m uint32) (v uint32) {
	mc.Atomic(unsafe.Pointer(p), unsafe.Sizeof(*p), 2, "atomic and", func() { v = *p; *p &= m })
	return
}
func OrUint32(p *uint32, m uint32) (v uint32) {
	mc.Atomic(unsafe.Pointer(p), unsafe.Sizeof(*p), 2, "atomic or", func() { v = *p; *p |= m })
	return
}

type Uint32 struct{ v uint32 }

func (a *Uint32) Load() uint32                    { return LoadUint32(&a.v) }
func (a *Uint32) Store(v uint32)                  { StoreUint32(&a.v, v) }
func (a *Uint32) Add(d uint32) uint32             { return AddUint32(&a.v, d) }
func (a *Uint32) Swap(n uint32) uint32            { return SwapUint32(&a.v, n) }
func (a *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&a.v, o, n) }
func (a *Uint32) And(m uint32) uint32             { return AndUint32(&a.v, m) }
func (a *Uint32) Or(m uint32) uint32              { return OrUint32(&a.v, m) }

func LoadUint64(p *uint64) (v uint64) {
	mc.Atomic(unsafe.Pointer(p), unsafe.Sizeof(*p), 0, "atomic load", func() { v = *p })
	return
}
func StoreUint64(p *uint64, v uint64) {
	mc.Atomic(unsafe.Pointer(p), unsafe.Sizeof(*p), 1, "atomic store", func() { *p = v })
}
func AddUint64(p *uint64, d uint64) (v uint64) {
	mc.Atomic(unsafe.Pointer(p), unsafe.Sizeof(*p), 2, "atomic add", func() { *p += d; v = *p })
	return
}
func SwapUint64(p *uint64, n uint64) (v uint64) {
	mc.Atomic(unsafe.Pointer(p), unsafe.Sizeof(*p), 2, "atomic swap", func() { v = *p; *p = n })
	return
}
func CompareAndSwapUint64(p *uint64, o, n uint64) (ok bool) {
	mc.Atomic(unsafe.Pointer(p), unsafe.Sizeof(*p), 2, "atomic cas", func() {
		if *p == o {
			*p, ok = n, true
		}
	})
	return
}
func AndUint64(p *uint64, m uint64) (v uint64) {
	mc.Atomic(unsafe.Pointer(p), unsafe.Sizeof(*p), 2, "atomic and", func() { v = *p; *p &= m })
	return
}
func OrUint64(p *uint64, m uint64) (v uint64) {
	mc.Atomic(unsafe.Pointer(p), unsafe.Sizeof(*p), 2, "atomic or", func() { v = *p; *p |= m })
	return
}

type Uint64 struct{ v uint64 }

func (a *Uint64) Load() uint64                    { return LoadUint64(&a.v) }
func (a *Uint64) Store(v uint64)                  { StoreUint64(&a.v, v) }
func (a *Uint64) Add(d uint64) uint64             { return AddUint64(&a.v, d) }
func (a *Uint64) Swap(n uint64) uint64            { return SwapUint64(&a.v, n) }
func (a *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&a.v, o, n) }
func (a *Uint64) And(m uint64) uint64             { return AndUint64(&a.v, m) }
func (a *Uint64) Or(m uint64) uint64              { return OrUint64(&a.v, m) }

func LoadUintptr(p *uintptr) (v uintptr) {
	mc.Atomic(unsafe.Pointer(p), unsafe.Sizeof(*p), 0, "atomic load", func() { v = *p })
	return
}
func StoreUintptr(p *uintptr, v uintptr) {
	mc.Atomic(unsafe.Pointer(p), unsafe.Sizeof(*p), 1, "atomic store", func() { *p = v })
}
func AddUintptr(p *uintptr, d uintptr) (v uintptr) {
	mc.Atomic(unsafe.Pointer(p), unsafe.Sizeof(*p), 2, "atomic add", func() { *p += d; v = *p })
	return
}
func SwapUintptr(p *uintptr, n uintptr) (v uintptr) {
	mc.Atomic(unsafe.Pointer(p), unsafe.Sizeof(*p), 2, "atomic swap", func() { v = *p; *p = n })
	return
}
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) (ok bool) {
	mc.Atomic(unsafe.Pointer(p), unsafe.Sizeof(*p), 2, "atomic cas", func() {
		if *p == o {
			*p, ok = n, true
		}
	})
	return
}
func AndUintptr(p *uintptr, m uintptr) (v uintptr) {
	mc.Atomic(unsafe.Pointer(p), unsafe.Sizeof(*p), 2, "atomic and", func() { v = *p; *p &= m })
	return
}
func OrUintptr(p *uintptr, m uintptr) (v uintptr) {
	mc.Atomic(unsafe.Pointer(p), unsafe.Sizeof(*p), 2, "atomic or", func() { v = *p; *p |= m })
	return
}

type Uintptr struct{ v uintptr }

func (a *Uintptr) Load() uintptr                    { return LoadUintptr(&a.v) }
func (a *Uintptr) Store(v uintptr)                  { StoreUintptr(&a.v, v) }
func (a *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&a.v, d) }
func (a *Uintptr) Swap(n uintptr) uintptr           { return SwapUintptr(&a.v, n) }
func (a *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&a.v, o, n) }
func (a *Uintptr) And(m uintptr) uintptr            { return AndUintptr(&a.v, m) }
func (a *Uintptr) Or(m uintptr) uintptr             { return OrUintptr(&a.v, m) }

func LoadPointer(p *unsafe.Pointer) (v unsafe.Pointer) {
	mc.Atomic(unsafe.Pointer(p), 8, 0, "atomic load", func() { v = *p })
	return
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	mc.Atomic(unsafe.Pointer(p), 8, 1, "atomic store", func() { *p = v })
}
func SwapPointer(p *unsafe.Pointer, n unsafe.Pointer) (v unsafe.Pointer) {
	mc.Atomic(unsafe.Pointer(p), 8, 2, "atomic swap", func() { v = *p; *p = n })
	return
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) (ok bool) {
	mc.Atomic(unsafe.Pointer(p), 8, 2, "atomic cas", func() {
		if *p == o {
			*p, ok = n, true
		}
	})
	return
}

type Bool struct{ v bool }

func (a *Bool) Load() (v bool) {
	mc.Atomic(unsafe.Pointer(&a.v), 1, 0, "atomic load", func() { v = a.v })
	return
}
func (a *Bool) Store(v bool) {
	mc.Atomic(unsafe.Pointer(&a.v), 1, 1, "atomic store", func() { a.v = v })
}
func (a *Bool) Swap(n bool) (v bool) {
	mc.Atomic(unsafe.Pointer(&a.v), 1, 2, "atomic swap", func() { v = a.v; a.v = n })
	return
}
func (a *Bool) CompareAndSwap(o, n bool) (ok bool) {
	mc.Atomic(unsafe.Pointer(&a.v), 1, 2, "atomic cas", func() {
		if a.v == o {
			a.v, ok = n, true
		}
	})
	return
}

type Pointer[T any] struct{ v *T }

func (a *Pointer[T]) Load() (v *T) {
	mc.Atomic(unsafe.Pointer(&a.v), 8, 0, "atomic load", func() { v = a.v })
	return
}
func (a *Pointer[T]) Store(v *T) {
	mc.Atomic(unsafe.Pointer(&a.v), 8, 1, "atomic store", func() { a.v = v })
}
func (a *Pointer[T]) Swap(n *T) (v *T) {
	mc.Atomic(unsafe.Pointer(&a.v), 8, 2, "atomic swap", func() { v = a.v; a.v = n })
	return
}
func (a *Pointer[T]) CompareAndSwap(o, n *T) (ok bool) {
	mc.Atomic(unsafe.Pointer(&a.v), 8, 2, "atomic cas", func() {
		if a.v == o {
			a.v, ok = n, true
		}
	})
	return
}

type Value struct{ v any }

func (a *Value) Load() (v any) {
	mc.Atomic(unsafe.Pointer(&a.v), 8, 0, "atomic load", func() { v = a.v })
	return
}
func (a *Value) Store(v any) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	mc.Atomic(unsafe.Pointer(&a.v), 8, 1, "atomic store", func() { a.v = v })
}
func (a *Value) Swap(n any) (v any) {
	if n == nil {
		panic("sync/atomic: swap of nil value into Value")
	}
	mc.Atomic(unsafe.Pointer(&a.v), 8, 2, "atomic swap", func() { v = a.v; a.v = n })
	return
}
func (a *Value) CompareAndSwap(o, n any) (ok bool) {
	mc.Atomic(unsafe.Pointer(&a.v), 8, 2, "atomic cas", func() {
		if a.v == o {
			a.v, ok = n, true
		}
	})
	return
}
