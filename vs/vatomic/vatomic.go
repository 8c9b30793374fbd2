// Package vatomic stands in for sync/atomic in the instrumented sources: every operation is a visible one.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"verif/vs"
)

func pt[T any](p *T) { vs.AtomicPoint(unsafe.Pointer(p)) }

func AddInt32(p *int32, d int32) int32                 { pt(p); return atomic.AddInt32(p, d) }
func AddInt64(p *int64, d int64) int64                 { pt(p); return atomic.AddInt64(p, d) }
func AddUint32(p *uint32, d uint32) uint32             { pt(p); return atomic.AddUint32(p, d) }
func AddUint64(p *uint64, d uint64) uint64             { pt(p); return atomic.AddUint64(p, d) }
func AddUintptr(p *uintptr, d uintptr) uintptr         { pt(p); return atomic.AddUintptr(p, d) }
func LoadInt32(p *int32) int32                         { pt(p); return atomic.LoadInt32(p) }
func LoadInt64(p *int64) int64                         { pt(p); return atomic.LoadInt64(p) }
func LoadUint32(p *uint32) uint32                      { pt(p); return atomic.LoadUint32(p) }
func LoadUint64(p *uint64) uint64                      { pt(p); return atomic.LoadUint64(p) }
func LoadUintptr(p *uintptr) uintptr                   { pt(p); return atomic.LoadUintptr(p) }
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { pt(p); return atomic.LoadPointer(p) }
func StoreInt32(p *int32, v int32)                     { pt(p); atomic.StoreInt32(p, v) }
func StoreInt64(p *int64, v int64)                     { pt(p); atomic.StoreInt64(p, v) }
func StoreUint32(p *uint32, v uint32)                  { pt(p); atomic.StoreUint32(p, v) }
func StoreUint64(p *uint64, v uint64)                  { pt(p); atomic.StoreUint64(p, v) }
func StoreUintptr(p *uintptr, v uintptr)               { pt(p); atomic.StoreUintptr(p, v) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { pt(p); atomic.StorePointer(p, v) }
func SwapInt32(p *int32, v int32) int32                { pt(p); return atomic.SwapInt32(p, v) }
func SwapInt64(p *int64, v int64) int64                { pt(p); return atomic.SwapInt64(p, v) }
func SwapUint32(p *uint32, v uint32) uint32            { pt(p); return atomic.SwapUint32(p, v) }
func SwapUint64(p *uint64, v uint64) uint64            { pt(p); return atomic.SwapUint64(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	pt(p)
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	pt(p)
	return atomic.CompareAndSwapInt32(p, o, n)
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	pt(p)
	return atomic.CompareAndSwapInt64(p, o, n)
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	pt(p)
	return atomic.CompareAndSwapUint32(p, o, n)
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	pt(p)
	return atomic.CompareAndSwapUint64(p, o, n)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	pt(p)
	return atomic.CompareAndSwapPointer(p, o, n)
}

type (
	Bool           struct{ v atomic.Bool }
	Int32          struct{ v atomic.Int32 }
	Int64          struct{ v atomic.Int64 }
	Uint32         struct{ v atomic.Uint32 }
	Uint64         struct{ v atomic.Uint64 }
	Uintptr        struct{ v atomic.Uintptr }
	Value          struct{ v atomic.Value }
	Pointer[T any] struct{ v atomic.Pointer[T] }
)

func (x *Bool) Load() bool                    { pt(x); return x.v.Load() }
func (x *Bool) Store(v bool)                  { pt(x); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { pt(x); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { pt(x); return x.v.CompareAndSwap(o, n) }

func (x *Int32) Load() int32                    { pt(x); return x.v.Load() }
func (x *Int32) Store(v int32)                  { pt(x); x.v.Store(v) }
func (x *Int32) Add(v int32) int32              { pt(x); return x.v.Add(v) }
func (x *Int32) Swap(v int32) int32             { pt(x); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { pt(x); return x.v.CompareAndSwap(o, n) }

func (x *Int64) Load() int64                    { pt(x); return x.v.Load() }
func (x *Int64) Store(v int64)                  { pt(x); x.v.Store(v) }
func (x *Int64) Add(v int64) int64              { pt(x); return x.v.Add(v) }
func (x *Int64) Swap(v int64) int64             { pt(x); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { pt(x); return x.v.CompareAndSwap(o, n) }

func (x *Uint32) Load() uint32                    { pt(x); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { pt(x); x.v.Store(v) }
func (x *Uint32) Add(v uint32) uint32             { pt(x); return x.v.Add(v) }
func (x *Uint32) Swap(v uint32) uint32            { pt(x); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { pt(x); return x.v.CompareAndSwap(o, n) }

func (x *Uint64) Load() uint64                    { pt(x); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { pt(x); x.v.Store(v) }
func (x *Uint64) Add(v uint64) uint64             { pt(x); return x.v.Add(v) }
func (x *Uint64) Swap(v uint64) uint64            { pt(x); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { pt(x); return x.v.CompareAndSwap(o, n) }

func (x *Uintptr) Load() uintptr         { pt(x); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)       { pt(x); x.v.Store(v) }
func (x *Uintptr) Add(v uintptr) uintptr { pt(x); return x.v.Add(v) }

func (x *Value) Load() any                    { pt(x); return x.v.Load() }
func (x *Value) Store(v any)                  { pt(x); x.v.Store(v) }
func (x *Value) Swap(v any) any               { pt(x); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool { pt(x); return x.v.CompareAndSwap(o, n) }

func (x *Pointer[T]) Load() *T                    { pt(x); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { pt(x); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { pt(x); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { pt(x); return x.v.CompareAndSwap(o, n) }

func AndInt32(p *int32, m int32) int32          { pt(p); return atomic.AndInt32(p, m) }
func AndInt64(p *int64, m int64) int64          { pt(p); return atomic.AndInt64(p, m) }
func AndUint32(p *uint32, m uint32) uint32      { pt(p); return atomic.AndUint32(p, m) }
func AndUint64(p *uint64, m uint64) uint64      { pt(p); return atomic.AndUint64(p, m) }
func AndUintptr(p *uintptr, m uintptr) uintptr  { pt(p); return atomic.AndUintptr(p, m) }
func OrInt32(p *int32, m int32) int32           { pt(p); return atomic.OrInt32(p, m) }
func OrInt64(p *int64, m int64) int64           { pt(p); return atomic.OrInt64(p, m) }
func OrUint32(p *uint32, m uint32) uint32       { pt(p); return atomic.OrUint32(p, m) }
func OrUint64(p *uint64, m uint64) uint64       { pt(p); return atomic.OrUint64(p, m) }
func OrUintptr(p *uintptr, m uintptr) uintptr   { pt(p); return atomic.OrUintptr(p, m) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { pt(p); return atomic.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	pt(p)
	return atomic.CompareAndSwapUintptr(p, o, n)
}

func (x *Int32) And(m int32) int32 { pt(x); return x.v.And(m) }
func (x *Int32) Or(m int32) int32  { pt(x); return x.v.Or(m) }

func (x *Int64) And(m int64) int64 { pt(x); return x.v.And(m) }
func (x *Int64) Or(m int64) int64  { pt(x); return x.v.Or(m) }

func (x *Uint32) And(m uint32) uint32 { pt(x); return x.v.And(m) }
func (x *Uint32) Or(m uint32) uint32  { pt(x); return x.v.Or(m) }

func (x *Uint64) And(m uint64) uint64 { pt(x); return x.v.And(m) }
func (x *Uint64) Or(m uint64) uint64  { pt(x); return x.v.Or(m) }

func (x *Uintptr) And(m uintptr) uintptr { pt(x); return x.v.And(m) }
func (x *Uintptr) Or(m uintptr) uintptr  { pt(x); return x.v.Or(m) }

func (x *Uintptr) Swap(v uintptr) uintptr           { pt(x); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { pt(x); return x.v.CompareAndSwap(o, n) }
