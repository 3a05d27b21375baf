// Package vatomic stands in for sync/atomic in instrumented code, with a
// scheduling gate before each operation.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/bab-sh/bab/internal/zzverif/sched"
)

// Int32 is atomic.Int32.
type Int32 struct{ a atomic.Int32 }

func (x *Int32) Load() int32                    { sched.Pre(); return x.a.Load() }
func (x *Int32) Store(v int32)                  { sched.Pre(); x.a.Store(v) }
func (x *Int32) Swap(v int32) int32             { sched.Pre(); return x.a.Swap(v) }
func (x *Int32) Add(v int32) int32              { sched.Pre(); return x.a.Add(v) }
func (x *Int32) And(v int32) int32              { sched.Pre(); return x.a.And(v) }
func (x *Int32) Or(v int32) int32               { sched.Pre(); return x.a.Or(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { sched.Pre(); return x.a.CompareAndSwap(o, n) }

func LoadInt32(p *int32) int32          { sched.Pre(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { sched.Pre(); atomic.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { sched.Pre(); return atomic.SwapInt32(p, v) }
func AddInt32(p *int32, v int32) int32  { sched.Pre(); return atomic.AddInt32(p, v) }
func AndInt32(p *int32, v int32) int32  { sched.Pre(); return atomic.AndInt32(p, v) }
func OrInt32(p *int32, v int32) int32   { sched.Pre(); return atomic.OrInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	sched.Pre()
	return atomic.CompareAndSwapInt32(p, o, n)
}

// Int64 is atomic.Int64.
type Int64 struct{ a atomic.Int64 }

func (x *Int64) Load() int64                    { sched.Pre(); return x.a.Load() }
func (x *Int64) Store(v int64)                  { sched.Pre(); x.a.Store(v) }
func (x *Int64) Swap(v int64) int64             { sched.Pre(); return x.a.Swap(v) }
func (x *Int64) Add(v int64) int64              { sched.Pre(); return x.a.Add(v) }
func (x *Int64) And(v int64) int64              { sched.Pre(); return x.a.And(v) }
func (x *Int64) Or(v int64) int64               { sched.Pre(); return x.a.Or(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { sched.Pre(); return x.a.CompareAndSwap(o, n) }

func LoadInt64(p *int64) int64          { sched.Pre(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { sched.Pre(); atomic.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { sched.Pre(); return atomic.SwapInt64(p, v) }
func AddInt64(p *int64, v int64) int64  { sched.Pre(); return atomic.AddInt64(p, v) }
func AndInt64(p *int64, v int64) int64  { sched.Pre(); return atomic.AndInt64(p, v) }
func OrInt64(p *int64, v int64) int64   { sched.Pre(); return atomic.OrInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	sched.Pre()
	return atomic.CompareAndSwapInt64(p, o, n)
}

// Uint32 is atomic.Uint32.
type Uint32 struct{ a atomic.Uint32 }

func (x *Uint32) Load() uint32                    { sched.Pre(); return x.a.Load() }
func (x *Uint32) Store(v uint32)                  { sched.Pre(); x.a.Store(v) }
func (x *Uint32) Swap(v uint32) uint32            { sched.Pre(); return x.a.Swap(v) }
func (x *Uint32) Add(v uint32) uint32             { sched.Pre(); return x.a.Add(v) }
func (x *Uint32) And(v uint32) uint32             { sched.Pre(); return x.a.And(v) }
func (x *Uint32) Or(v uint32) uint32              { sched.Pre(); return x.a.Or(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { sched.Pre(); return x.a.CompareAndSwap(o, n) }

func LoadUint32(p *uint32) uint32           { sched.Pre(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { sched.Pre(); atomic.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { sched.Pre(); return atomic.SwapUint32(p, v) }
func AddUint32(p *uint32, v uint32) uint32  { sched.Pre(); return atomic.AddUint32(p, v) }
func AndUint32(p *uint32, v uint32) uint32  { sched.Pre(); return atomic.AndUint32(p, v) }
func OrUint32(p *uint32, v uint32) uint32   { sched.Pre(); return atomic.OrUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	sched.Pre()
	return atomic.CompareAndSwapUint32(p, o, n)
}

// Uint64 is atomic.Uint64.
type Uint64 struct{ a atomic.Uint64 }

func (x *Uint64) Load() uint64                    { sched.Pre(); return x.a.Load() }
func (x *Uint64) Store(v uint64)                  { sched.Pre(); x.a.Store(v) }
func (x *Uint64) Swap(v uint64) uint64            { sched.Pre(); return x.a.Swap(v) }
func (x *Uint64) Add(v uint64) uint64             { sched.Pre(); return x.a.Add(v) }
func (x *Uint64) And(v uint64) uint64             { sched.Pre(); return x.a.And(v) }
func (x *Uint64) Or(v uint64) uint64              { sched.Pre(); return x.a.Or(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { sched.Pre(); return x.a.CompareAndSwap(o, n) }

func LoadUint64(p *uint64) uint64           { sched.Pre(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { sched.Pre(); atomic.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { sched.Pre(); return atomic.SwapUint64(p, v) }
func AddUint64(p *uint64, v uint64) uint64  { sched.Pre(); return atomic.AddUint64(p, v) }
func AndUint64(p *uint64, v uint64) uint64  { sched.Pre(); return atomic.AndUint64(p, v) }
func OrUint64(p *uint64, v uint64) uint64   { sched.Pre(); return atomic.OrUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	sched.Pre()
	return atomic.CompareAndSwapUint64(p, o, n)
}

// Uintptr is atomic.Uintptr.
type Uintptr struct{ a atomic.Uintptr }

func (x *Uintptr) Load() uintptr                    { sched.Pre(); return x.a.Load() }
func (x *Uintptr) Store(v uintptr)                  { sched.Pre(); x.a.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { sched.Pre(); return x.a.Swap(v) }
func (x *Uintptr) Add(v uintptr) uintptr            { sched.Pre(); return x.a.Add(v) }
func (x *Uintptr) And(v uintptr) uintptr            { sched.Pre(); return x.a.And(v) }
func (x *Uintptr) Or(v uintptr) uintptr             { sched.Pre(); return x.a.Or(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { sched.Pre(); return x.a.CompareAndSwap(o, n) }

func LoadUintptr(p *uintptr) uintptr            { sched.Pre(); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { sched.Pre(); atomic.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { sched.Pre(); return atomic.SwapUintptr(p, v) }
func AddUintptr(p *uintptr, v uintptr) uintptr  { sched.Pre(); return atomic.AddUintptr(p, v) }
func AndUintptr(p *uintptr, v uintptr) uintptr  { sched.Pre(); return atomic.AndUintptr(p, v) }
func OrUintptr(p *uintptr, v uintptr) uintptr   { sched.Pre(); return atomic.OrUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	sched.Pre()
	return atomic.CompareAndSwapUintptr(p, o, n)
}

// Bool is atomic.Bool.
type Bool struct{ a atomic.Bool }

func (x *Bool) Load() bool                    { sched.Pre(); return x.a.Load() }
func (x *Bool) Store(v bool)                  { sched.Pre(); x.a.Store(v) }
func (x *Bool) Swap(v bool) bool              { sched.Pre(); return x.a.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { sched.Pre(); return x.a.CompareAndSwap(o, n) }

// Pointer is atomic.Pointer.
type Pointer[T any] struct{ a atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { sched.Pre(); return x.a.Load() }
func (x *Pointer[T]) Store(v *T)                  { sched.Pre(); x.a.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { sched.Pre(); return x.a.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { sched.Pre(); return x.a.CompareAndSwap(o, n) }

// Value is atomic.Value.
type Value struct{ a atomic.Value }

func (x *Value) Load() any                    { sched.Pre(); return x.a.Load() }
func (x *Value) Store(v any)                  { sched.Pre(); x.a.Store(v) }
func (x *Value) Swap(v any) any               { sched.Pre(); return x.a.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool { sched.Pre(); return x.a.CompareAndSwap(o, n) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { sched.Pre(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { sched.Pre(); atomic.StorePointer(p, v) }
