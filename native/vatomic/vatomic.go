// Package atomic stands in for sync/atomic when a schedule is replayed.
package atomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
)

var _ unsafe.Pointer

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32        { vsched.Pre(); defer vsched.Post(); return x.v.Load() }
func (x *Int32) Store(n int32)      { vsched.Pre(); defer vsched.Post(); x.v.Store(n) }
func (x *Int32) Swap(n int32) int32 { vsched.Pre(); defer vsched.Post(); return x.v.Swap(n) }
func (x *Int32) CompareAndSwap(o, n int32) bool {
	vsched.Pre()
	defer vsched.Post()
	return x.v.CompareAndSwap(o, n)
}
func (x *Int32) Add(n int32) int32 { vsched.Pre(); defer vsched.Post(); return x.v.Add(n) }
func (x *Int32) And(n int32) int32 { vsched.Pre(); defer vsched.Post(); return x.v.And(n) }
func (x *Int32) Or(n int32) int32  { vsched.Pre(); defer vsched.Post(); return x.v.Or(n) }
func LoadInt32(p *int32) int32     { vsched.Pre(); defer vsched.Post(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, n int32) { vsched.Pre(); defer vsched.Post(); atomic.StoreInt32(p, n) }
func SwapInt32(p *int32, n int32) int32 {
	vsched.Pre()
	defer vsched.Post()
	return atomic.SwapInt32(p, n)
}
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	vsched.Pre()
	defer vsched.Post()
	return atomic.CompareAndSwapInt32(p, o, n)
}
func AddInt32(p *int32, n int32) int32 {
	vsched.Pre()
	defer vsched.Post()
	return atomic.AddInt32(p, n)
}

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64        { vsched.Pre(); defer vsched.Post(); return x.v.Load() }
func (x *Int64) Store(n int64)      { vsched.Pre(); defer vsched.Post(); x.v.Store(n) }
func (x *Int64) Swap(n int64) int64 { vsched.Pre(); defer vsched.Post(); return x.v.Swap(n) }
func (x *Int64) CompareAndSwap(o, n int64) bool {
	vsched.Pre()
	defer vsched.Post()
	return x.v.CompareAndSwap(o, n)
}
func (x *Int64) Add(n int64) int64 { vsched.Pre(); defer vsched.Post(); return x.v.Add(n) }
func (x *Int64) And(n int64) int64 { vsched.Pre(); defer vsched.Post(); return x.v.And(n) }
func (x *Int64) Or(n int64) int64  { vsched.Pre(); defer vsched.Post(); return x.v.Or(n) }
func LoadInt64(p *int64) int64     { vsched.Pre(); defer vsched.Post(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, n int64) { vsched.Pre(); defer vsched.Post(); atomic.StoreInt64(p, n) }
func SwapInt64(p *int64, n int64) int64 {
	vsched.Pre()
	defer vsched.Post()
	return atomic.SwapInt64(p, n)
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	vsched.Pre()
	defer vsched.Post()
	return atomic.CompareAndSwapInt64(p, o, n)
}
func AddInt64(p *int64, n int64) int64 {
	vsched.Pre()
	defer vsched.Post()
	return atomic.AddInt64(p, n)
}

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32         { vsched.Pre(); defer vsched.Post(); return x.v.Load() }
func (x *Uint32) Store(n uint32)       { vsched.Pre(); defer vsched.Post(); x.v.Store(n) }
func (x *Uint32) Swap(n uint32) uint32 { vsched.Pre(); defer vsched.Post(); return x.v.Swap(n) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	vsched.Pre()
	defer vsched.Post()
	return x.v.CompareAndSwap(o, n)
}
func (x *Uint32) Add(n uint32) uint32 { vsched.Pre(); defer vsched.Post(); return x.v.Add(n) }
func (x *Uint32) And(n uint32) uint32 { vsched.Pre(); defer vsched.Post(); return x.v.And(n) }
func (x *Uint32) Or(n uint32) uint32  { vsched.Pre(); defer vsched.Post(); return x.v.Or(n) }
func LoadUint32(p *uint32) uint32     { vsched.Pre(); defer vsched.Post(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, n uint32) { vsched.Pre(); defer vsched.Post(); atomic.StoreUint32(p, n) }
func SwapUint32(p *uint32, n uint32) uint32 {
	vsched.Pre()
	defer vsched.Post()
	return atomic.SwapUint32(p, n)
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	vsched.Pre()
	defer vsched.Post()
	return atomic.CompareAndSwapUint32(p, o, n)
}
func AddUint32(p *uint32, n uint32) uint32 {
	vsched.Pre()
	defer vsched.Post()
	return atomic.AddUint32(p, n)
}

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64         { vsched.Pre(); defer vsched.Post(); return x.v.Load() }
func (x *Uint64) Store(n uint64)       { vsched.Pre(); defer vsched.Post(); x.v.Store(n) }
func (x *Uint64) Swap(n uint64) uint64 { vsched.Pre(); defer vsched.Post(); return x.v.Swap(n) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	vsched.Pre()
	defer vsched.Post()
	return x.v.CompareAndSwap(o, n)
}
func (x *Uint64) Add(n uint64) uint64 { vsched.Pre(); defer vsched.Post(); return x.v.Add(n) }
func (x *Uint64) And(n uint64) uint64 { vsched.Pre(); defer vsched.Post(); return x.v.And(n) }
func (x *Uint64) Or(n uint64) uint64  { vsched.Pre(); defer vsched.Post(); return x.v.Or(n) }
func LoadUint64(p *uint64) uint64     { vsched.Pre(); defer vsched.Post(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, n uint64) { vsched.Pre(); defer vsched.Post(); atomic.StoreUint64(p, n) }
func SwapUint64(p *uint64, n uint64) uint64 {
	vsched.Pre()
	defer vsched.Post()
	return atomic.SwapUint64(p, n)
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	vsched.Pre()
	defer vsched.Post()
	return atomic.CompareAndSwapUint64(p, o, n)
}
func AddUint64(p *uint64, n uint64) uint64 {
	vsched.Pre()
	defer vsched.Post()
	return atomic.AddUint64(p, n)
}

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr          { vsched.Pre(); defer vsched.Post(); return x.v.Load() }
func (x *Uintptr) Store(n uintptr)        { vsched.Pre(); defer vsched.Post(); x.v.Store(n) }
func (x *Uintptr) Swap(n uintptr) uintptr { vsched.Pre(); defer vsched.Post(); return x.v.Swap(n) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	vsched.Pre()
	defer vsched.Post()
	return x.v.CompareAndSwap(o, n)
}
func (x *Uintptr) Add(n uintptr) uintptr { vsched.Pre(); defer vsched.Post(); return x.v.Add(n) }
func (x *Uintptr) And(n uintptr) uintptr { vsched.Pre(); defer vsched.Post(); return x.v.And(n) }
func (x *Uintptr) Or(n uintptr) uintptr  { vsched.Pre(); defer vsched.Post(); return x.v.Or(n) }
func LoadUintptr(p *uintptr) uintptr     { vsched.Pre(); defer vsched.Post(); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, n uintptr) {
	vsched.Pre()
	defer vsched.Post()
	atomic.StoreUintptr(p, n)
}
func SwapUintptr(p *uintptr, n uintptr) uintptr {
	vsched.Pre()
	defer vsched.Post()
	return atomic.SwapUintptr(p, n)
}
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	vsched.Pre()
	defer vsched.Post()
	return atomic.CompareAndSwapUintptr(p, o, n)
}
func AddUintptr(p *uintptr, n uintptr) uintptr {
	vsched.Pre()
	defer vsched.Post()
	return atomic.AddUintptr(p, n)
}

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool       { vsched.Pre(); defer vsched.Post(); return x.v.Load() }
func (x *Bool) Store(n bool)     { vsched.Pre(); defer vsched.Post(); x.v.Store(n) }
func (x *Bool) Swap(n bool) bool { vsched.Pre(); defer vsched.Post(); return x.v.Swap(n) }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	vsched.Pre()
	defer vsched.Post()
	return x.v.CompareAndSwap(o, n)
}

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T     { vsched.Pre(); defer vsched.Post(); return x.v.Load() }
func (x *Pointer[T]) Store(n *T)   { vsched.Pre(); defer vsched.Post(); x.v.Store(n) }
func (x *Pointer[T]) Swap(n *T) *T { vsched.Pre(); defer vsched.Post(); return x.v.Swap(n) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	vsched.Pre()
	defer vsched.Post()
	return x.v.CompareAndSwap(o, n)
}

type Value struct{ v atomic.Value }

func (x *Value) Load() any      { vsched.Pre(); defer vsched.Post(); return x.v.Load() }
func (x *Value) Store(n any)    { vsched.Pre(); defer vsched.Post(); x.v.Store(n) }
func (x *Value) Swap(n any) any { vsched.Pre(); defer vsched.Post(); return x.v.Swap(n) }
func (x *Value) CompareAndSwap(o, n any) bool {
	vsched.Pre()
	defer vsched.Post()
	return x.v.CompareAndSwap(o, n)
}
