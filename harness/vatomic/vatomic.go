// Package vatomic replaces package sync/atomic in an instrumented copy of the code under test: every
// atomic operation is preceded by a scheduling point.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"vharness/vsync"
)

func y() { vsync.YieldCurrent("atomic") }

func AddInt32(a *int32, d int32) int32              { y(); return atomic.AddInt32(a, d) }
func AddInt64(a *int64, d int64) int64              { y(); return atomic.AddInt64(a, d) }
func AddUint32(a *uint32, d uint32) uint32          { y(); return atomic.AddUint32(a, d) }
func AddUint64(a *uint64, d uint64) uint64          { y(); return atomic.AddUint64(a, d) }
func LoadInt32(a *int32) int32                      { y(); return atomic.LoadInt32(a) }
func LoadInt64(a *int64) int64                      { y(); return atomic.LoadInt64(a) }
func LoadUint32(a *uint32) uint32                   { y(); return atomic.LoadUint32(a) }
func LoadUint64(a *uint64) uint64                   { y(); return atomic.LoadUint64(a) }
func StoreInt32(a *int32, v int32)                  { y(); atomic.StoreInt32(a, v) }
func StoreInt64(a *int64, v int64)                  { y(); atomic.StoreInt64(a, v) }
func StoreUint32(a *uint32, v uint32)               { y(); atomic.StoreUint32(a, v) }
func StoreUint64(a *uint64, v uint64)               { y(); atomic.StoreUint64(a, v) }
func SwapInt32(a *int32, v int32) int32             { y(); return atomic.SwapInt32(a, v) }
func SwapInt64(a *int64, v int64) int64             { y(); return atomic.SwapInt64(a, v) }
func SwapUint32(a *uint32, v uint32) uint32         { y(); return atomic.SwapUint32(a, v) }
func SwapUint64(a *uint64, v uint64) uint64         { y(); return atomic.SwapUint64(a, v) }
func CompareAndSwapInt32(a *int32, o, n int32) bool { y(); return atomic.CompareAndSwapInt32(a, o, n) }
func CompareAndSwapInt64(a *int64, o, n int64) bool { y(); return atomic.CompareAndSwapInt64(a, o, n) }
func CompareAndSwapUint32(a *uint32, o, n uint32) bool {
	y()
	return atomic.CompareAndSwapUint32(a, o, n)
}
func CompareAndSwapUint64(a *uint64, o, n uint64) bool {
	y()
	return atomic.CompareAndSwapUint64(a, o, n)
}
func LoadPointer(a *unsafe.Pointer) unsafe.Pointer     { y(); return atomic.LoadPointer(a) }
func StorePointer(a *unsafe.Pointer, v unsafe.Pointer) { y(); atomic.StorePointer(a, v) }

// Value, Pointer, Bool and the integers are scheduling points too.
type Value struct{ v atomic.Value }

func (v *Value) Load() any                    { y(); return v.v.Load() }
func (v *Value) Store(x any)                  { y(); v.v.Store(x) }
func (v *Value) Swap(x any) any               { y(); return v.v.Swap(x) }
func (v *Value) CompareAndSwap(o, n any) bool { y(); return v.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (v *Pointer[T]) Load() *T                    { y(); return v.v.Load() }
func (v *Pointer[T]) Store(x *T)                  { y(); v.v.Store(x) }
func (v *Pointer[T]) Swap(x *T) *T                { y(); return v.v.Swap(x) }
func (v *Pointer[T]) CompareAndSwap(o, n *T) bool { y(); return v.v.CompareAndSwap(o, n) }

type Bool struct{ v atomic.Bool }

func (v *Bool) Load() bool                    { y(); return v.v.Load() }
func (v *Bool) Store(x bool)                  { y(); v.v.Store(x) }
func (v *Bool) Swap(x bool) bool              { y(); return v.v.Swap(x) }
func (v *Bool) CompareAndSwap(o, n bool) bool { y(); return v.v.CompareAndSwap(o, n) }

type Int32 struct{ v atomic.Int32 }

func (v *Int32) Load() int32                    { y(); return v.v.Load() }
func (v *Int32) Store(x int32)                  { y(); v.v.Store(x) }
func (v *Int32) Add(d int32) int32              { y(); return v.v.Add(d) }
func (v *Int32) And(d int32) int32              { y(); return v.v.And(d) }
func (v *Int32) Or(d int32) int32               { y(); return v.v.Or(d) }
func (v *Int32) Swap(x int32) int32             { y(); return v.v.Swap(x) }
func (v *Int32) CompareAndSwap(o, n int32) bool { y(); return v.v.CompareAndSwap(o, n) }

type Int64 struct{ v atomic.Int64 }

func (v *Int64) Load() int64                    { y(); return v.v.Load() }
func (v *Int64) Store(x int64)                  { y(); v.v.Store(x) }
func (v *Int64) Add(d int64) int64              { y(); return v.v.Add(d) }
func (v *Int64) And(d int64) int64              { y(); return v.v.And(d) }
func (v *Int64) Or(d int64) int64               { y(); return v.v.Or(d) }
func (v *Int64) Swap(x int64) int64             { y(); return v.v.Swap(x) }
func (v *Int64) CompareAndSwap(o, n int64) bool { y(); return v.v.CompareAndSwap(o, n) }

type Uint32 struct{ v atomic.Uint32 }

func (v *Uint32) Load() uint32                    { y(); return v.v.Load() }
func (v *Uint32) Store(x uint32)                  { y(); v.v.Store(x) }
func (v *Uint32) Add(d uint32) uint32             { y(); return v.v.Add(d) }
func (v *Uint32) And(d uint32) uint32             { y(); return v.v.And(d) }
func (v *Uint32) Or(d uint32) uint32              { y(); return v.v.Or(d) }
func (v *Uint32) Swap(x uint32) uint32            { y(); return v.v.Swap(x) }
func (v *Uint32) CompareAndSwap(o, n uint32) bool { y(); return v.v.CompareAndSwap(o, n) }

type Uint64 struct{ v atomic.Uint64 }

func (v *Uint64) Load() uint64                    { y(); return v.v.Load() }
func (v *Uint64) Store(x uint64)                  { y(); v.v.Store(x) }
func (v *Uint64) Add(d uint64) uint64             { y(); return v.v.Add(d) }
func (v *Uint64) And(d uint64) uint64             { y(); return v.v.And(d) }
func (v *Uint64) Or(d uint64) uint64              { y(); return v.v.Or(d) }
func (v *Uint64) Swap(x uint64) uint64            { y(); return v.v.Swap(x) }
func (v *Uint64) CompareAndSwap(o, n uint64) bool { y(); return v.v.CompareAndSwap(o, n) }

type Uintptr struct{ v atomic.Uintptr }

func (v *Uintptr) Load() uintptr                    { y(); return v.v.Load() }
func (v *Uintptr) Store(x uintptr)                  { y(); v.v.Store(x) }
func (v *Uintptr) Add(d uintptr) uintptr            { y(); return v.v.Add(d) }
func (v *Uintptr) And(d uintptr) uintptr            { y(); return v.v.And(d) }
func (v *Uintptr) Or(d uintptr) uintptr             { y(); return v.v.Or(d) }
func (v *Uintptr) Swap(x uintptr) uintptr           { y(); return v.v.Swap(x) }
func (v *Uintptr) CompareAndSwap(o, n uintptr) bool { y(); return v.v.CompareAndSwap(o, n) }

func LoadUintptr(a *uintptr) uintptr           { y(); return atomic.LoadUintptr(a) }
func StoreUintptr(a *uintptr, v uintptr)       { y(); atomic.StoreUintptr(a, v) }
func AddUintptr(a *uintptr, d uintptr) uintptr { y(); return atomic.AddUintptr(a, d) }
func SwapPointer(a *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	y()
	return atomic.SwapPointer(a, v)
}
func CompareAndSwapPointer(a *unsafe.Pointer, o, n unsafe.Pointer) bool {
	y()
	return atomic.CompareAndSwapPointer(a, o, n)
}
func CompareAndSwapUintptr(a *uintptr, o, n uintptr) bool {
	y()
	return atomic.CompareAndSwapUintptr(a, o, n)
}
