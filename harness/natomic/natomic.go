// Package natomic replaces package sync/atomic in scheduled native replays.
package natomic

import (
	"sync/atomic"

	"github.com/leftmike/maho/zzverif/nsync"
)

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { nsync.Yield(); return x.v.Load() }
func (x *Uint64) Store(n uint64)                  { nsync.Yield(); x.v.Store(n) }
func (x *Uint64) Add(n uint64) uint64             { nsync.Yield(); return x.v.Add(n) }
func (x *Uint64) Swap(n uint64) uint64            { nsync.Yield(); return x.v.Swap(n) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { nsync.Yield(); return x.v.CompareAndSwap(o, n) }

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { nsync.Yield(); return x.v.Load() }
func (x *Int64) Store(n int64)                  { nsync.Yield(); x.v.Store(n) }
func (x *Int64) Add(n int64) int64              { nsync.Yield(); return x.v.Add(n) }
func (x *Int64) Swap(n int64) int64             { nsync.Yield(); return x.v.Swap(n) }
func (x *Int64) CompareAndSwap(o, n int64) bool { nsync.Yield(); return x.v.CompareAndSwap(o, n) }

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { nsync.Yield(); return x.v.Load() }
func (x *Uint32) Store(n uint32)                  { nsync.Yield(); x.v.Store(n) }
func (x *Uint32) Add(n uint32) uint32             { nsync.Yield(); return x.v.Add(n) }
func (x *Uint32) Swap(n uint32) uint32            { nsync.Yield(); return x.v.Swap(n) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { nsync.Yield(); return x.v.CompareAndSwap(o, n) }

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { nsync.Yield(); return x.v.Load() }
func (x *Int32) Store(n int32)                  { nsync.Yield(); x.v.Store(n) }
func (x *Int32) Add(n int32) int32              { nsync.Yield(); return x.v.Add(n) }
func (x *Int32) Swap(n int32) int32             { nsync.Yield(); return x.v.Swap(n) }
func (x *Int32) CompareAndSwap(o, n int32) bool { nsync.Yield(); return x.v.CompareAndSwap(o, n) }

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { nsync.Yield(); return x.v.Load() }
func (x *Bool) Store(n bool)                  { nsync.Yield(); x.v.Store(n) }
func (x *Bool) Swap(n bool) bool              { nsync.Yield(); return x.v.Swap(n) }
func (x *Bool) CompareAndSwap(o, n bool) bool { nsync.Yield(); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { nsync.Yield(); return x.v.Load() }
func (x *Pointer[T]) Store(n *T)                  { nsync.Yield(); x.v.Store(n) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { nsync.Yield(); return x.v.CompareAndSwap(o, n) }

type Value struct{ v atomic.Value }

func (x *Value) Load() any   { nsync.Yield(); return x.v.Load() }
func (x *Value) Store(n any) { nsync.Yield(); x.v.Store(n) }

func AddUint64(p *uint64, n uint64) uint64 { nsync.Yield(); return atomic.AddUint64(p, n) }
func LoadUint64(p *uint64) uint64          { nsync.Yield(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, n uint64)      { nsync.Yield(); atomic.StoreUint64(p, n) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	nsync.Yield()
	return atomic.CompareAndSwapUint64(p, o, n)
}
func AddInt64(p *int64, n int64) int64 { nsync.Yield(); return atomic.AddInt64(p, n) }
func LoadInt64(p *int64) int64         { nsync.Yield(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, n int64)     { nsync.Yield(); atomic.StoreInt64(p, n) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	nsync.Yield()
	return atomic.CompareAndSwapInt64(p, o, n)
}
func AddUint32(p *uint32, n uint32) uint32 { nsync.Yield(); return atomic.AddUint32(p, n) }
func LoadUint32(p *uint32) uint32          { nsync.Yield(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, n uint32)      { nsync.Yield(); atomic.StoreUint32(p, n) }
func AddInt32(p *int32, n int32) int32     { nsync.Yield(); return atomic.AddInt32(p, n) }
func LoadInt32(p *int32) int32             { nsync.Yield(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, n int32)         { nsync.Yield(); atomic.StoreInt32(p, n) }
