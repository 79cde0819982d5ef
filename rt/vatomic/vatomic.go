// Package vatomic stands in for package sync/atomic: every operation is a
// scheduling point followed by the native operation.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/jsimonetti/go-artnet/zz_vrt/vrt"
)

var hist struct {
	e *vrt.Exec
	m map[unsafe.Pointer]*[2]uint64
}

//go:norace
func object(p unsafe.Pointer) *[2]uint64 {
	if hist.e != vrt.E {
		hist.e, hist.m = vrt.E, map[unsafe.Pointer]*[2]uint64{}
	}
	h := hist.m[p]
	if h == nil {
		h = new([2]uint64)
		hist.m[p] = h
	}
	return h
}

// pt is a scheduling point before an operation that may write to p, rd before a
// read.
//
//go:norace
func pt(p unsafe.Pointer) {
	if vrt.E == nil {
		return
	}
	vrt.Yield()
	h := object(p)
	vrt.TouchAll(&h[0], &h[1], 0x50)
}

//go:norace
func rd(p unsafe.Pointer) {
	if vrt.E == nil {
		return
	}
	vrt.Yield()
	h := object(p)
	vrt.Commute(&h[0], &h[1], 0x51)
}

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32        { rd(unsafe.Pointer(x)); return x.v.Load() }
func (x *Int32) Store(v int32)      { pt(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32 { pt(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool {
	pt(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}
func (x *Int32) Add(d int32) int32 { pt(unsafe.Pointer(x)); return x.v.Add(d) }
func (x *Int32) And(m int32) int32 { pt(unsafe.Pointer(x)); return x.v.And(m) }
func (x *Int32) Or(m int32) int32  { pt(unsafe.Pointer(x)); return x.v.Or(m) }

func LoadInt32(p *int32) int32          { rd(unsafe.Pointer(p)); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { pt(unsafe.Pointer(p)); atomic.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { pt(unsafe.Pointer(p)); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	pt(unsafe.Pointer(p))
	return atomic.CompareAndSwapInt32(p, o, n)
}
func AddInt32(p *int32, d int32) int32 { pt(unsafe.Pointer(p)); return atomic.AddInt32(p, d) }
func AndInt32(p *int32, m int32) int32 { pt(unsafe.Pointer(p)); return atomic.AndInt32(p, m) }
func OrInt32(p *int32, m int32) int32  { pt(unsafe.Pointer(p)); return atomic.OrInt32(p, m) }

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64        { rd(unsafe.Pointer(x)); return x.v.Load() }
func (x *Int64) Store(v int64)      { pt(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64 { pt(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool {
	pt(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}
func (x *Int64) Add(d int64) int64 { pt(unsafe.Pointer(x)); return x.v.Add(d) }
func (x *Int64) And(m int64) int64 { pt(unsafe.Pointer(x)); return x.v.And(m) }
func (x *Int64) Or(m int64) int64  { pt(unsafe.Pointer(x)); return x.v.Or(m) }

func LoadInt64(p *int64) int64          { rd(unsafe.Pointer(p)); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { pt(unsafe.Pointer(p)); atomic.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { pt(unsafe.Pointer(p)); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	pt(unsafe.Pointer(p))
	return atomic.CompareAndSwapInt64(p, o, n)
}
func AddInt64(p *int64, d int64) int64 { pt(unsafe.Pointer(p)); return atomic.AddInt64(p, d) }
func AndInt64(p *int64, m int64) int64 { pt(unsafe.Pointer(p)); return atomic.AndInt64(p, m) }
func OrInt64(p *int64, m int64) int64  { pt(unsafe.Pointer(p)); return atomic.OrInt64(p, m) }

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32         { rd(unsafe.Pointer(x)); return x.v.Load() }
func (x *Uint32) Store(v uint32)       { pt(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32 { pt(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	pt(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}
func (x *Uint32) Add(d uint32) uint32 { pt(unsafe.Pointer(x)); return x.v.Add(d) }
func (x *Uint32) And(m uint32) uint32 { pt(unsafe.Pointer(x)); return x.v.And(m) }
func (x *Uint32) Or(m uint32) uint32  { pt(unsafe.Pointer(x)); return x.v.Or(m) }

func LoadUint32(p *uint32) uint32           { rd(unsafe.Pointer(p)); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { pt(unsafe.Pointer(p)); atomic.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { pt(unsafe.Pointer(p)); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	pt(unsafe.Pointer(p))
	return atomic.CompareAndSwapUint32(p, o, n)
}
func AddUint32(p *uint32, d uint32) uint32 { pt(unsafe.Pointer(p)); return atomic.AddUint32(p, d) }
func AndUint32(p *uint32, m uint32) uint32 { pt(unsafe.Pointer(p)); return atomic.AndUint32(p, m) }
func OrUint32(p *uint32, m uint32) uint32  { pt(unsafe.Pointer(p)); return atomic.OrUint32(p, m) }

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64         { rd(unsafe.Pointer(x)); return x.v.Load() }
func (x *Uint64) Store(v uint64)       { pt(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64 { pt(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	pt(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}
func (x *Uint64) Add(d uint64) uint64 { pt(unsafe.Pointer(x)); return x.v.Add(d) }
func (x *Uint64) And(m uint64) uint64 { pt(unsafe.Pointer(x)); return x.v.And(m) }
func (x *Uint64) Or(m uint64) uint64  { pt(unsafe.Pointer(x)); return x.v.Or(m) }

func LoadUint64(p *uint64) uint64           { rd(unsafe.Pointer(p)); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { pt(unsafe.Pointer(p)); atomic.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { pt(unsafe.Pointer(p)); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	pt(unsafe.Pointer(p))
	return atomic.CompareAndSwapUint64(p, o, n)
}
func AddUint64(p *uint64, d uint64) uint64 { pt(unsafe.Pointer(p)); return atomic.AddUint64(p, d) }
func AndUint64(p *uint64, m uint64) uint64 { pt(unsafe.Pointer(p)); return atomic.AndUint64(p, m) }
func OrUint64(p *uint64, m uint64) uint64  { pt(unsafe.Pointer(p)); return atomic.OrUint64(p, m) }

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr          { rd(unsafe.Pointer(x)); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)        { pt(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr { pt(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	pt(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}
func (x *Uintptr) Add(d uintptr) uintptr { pt(unsafe.Pointer(x)); return x.v.Add(d) }
func (x *Uintptr) And(m uintptr) uintptr { pt(unsafe.Pointer(x)); return x.v.And(m) }
func (x *Uintptr) Or(m uintptr) uintptr  { pt(unsafe.Pointer(x)); return x.v.Or(m) }

func LoadUintptr(p *uintptr) uintptr     { rd(unsafe.Pointer(p)); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr) { pt(unsafe.Pointer(p)); atomic.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	pt(unsafe.Pointer(p))
	return atomic.SwapUintptr(p, v)
}
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	pt(unsafe.Pointer(p))
	return atomic.CompareAndSwapUintptr(p, o, n)
}
func AddUintptr(p *uintptr, d uintptr) uintptr { pt(unsafe.Pointer(p)); return atomic.AddUintptr(p, d) }
func AndUintptr(p *uintptr, m uintptr) uintptr { pt(unsafe.Pointer(p)); return atomic.AndUintptr(p, m) }
func OrUintptr(p *uintptr, m uintptr) uintptr  { pt(unsafe.Pointer(p)); return atomic.OrUintptr(p, m) }

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { rd(unsafe.Pointer(x)); return x.v.Load() }
func (x *Bool) Store(v bool)                  { pt(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { pt(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { pt(unsafe.Pointer(x)); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T     { rd(unsafe.Pointer(x)); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)   { pt(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T { pt(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	pt(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}

type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { rd(unsafe.Pointer(x)); return x.v.Load() }
func (x *Value) Store(v any)                  { pt(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Value) Swap(v any) any               { pt(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool { pt(unsafe.Pointer(x)); return x.v.CompareAndSwap(o, n) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	rd(unsafe.Pointer(p))
	return atomic.LoadPointer(p)
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	pt(unsafe.Pointer(p))
	atomic.StorePointer(p, v)
}
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	pt(unsafe.Pointer(p))
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	pt(unsafe.Pointer(p))
	return atomic.CompareAndSwapPointer(p, o, n)
}
