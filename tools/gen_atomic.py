# generates simatomic.go (run by hand; output committed)
out=['''//go:build go1.25

// Package simatomic stands in for sync/atomic: the real operation, preceded by
// a yield point.
package simatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/qiniu/uip/verifsim/rt"
)
''']
for T,t in [('Int32','int32'),('Int64','int64'),('Uint32','uint32'),('Uint64','uint64'),('Uintptr','uintptr')]:
    out.append(f'''
func Add{T}(p *{t}, d {t}) {t} {{ rt.Y(0); return atomic.Add{T}(p, d) }}
func Load{T}(p *{t}) {t} {{ rt.Y(0); return atomic.Load{T}(p) }}
func Store{T}(p *{t}, v {t}) {{ rt.Y(0); atomic.Store{T}(p, v) }}
func Swap{T}(p *{t}, v {t}) {t} {{ rt.Y(0); return atomic.Swap{T}(p, v) }}
func CompareAndSwap{T}(p *{t}, o, n {t}) bool {{ rt.Y(0); return atomic.CompareAndSwap{T}(p, o, n) }}

type {T} struct{{ v atomic.{T} }}

func (x *{T}) Add(d {t}) {t} {{ rt.Y(0); return x.v.Add(d) }}
func (x *{T}) Load() {t} {{ rt.Y(0); return x.v.Load() }}
func (x *{T}) Store(v {t}) {{ rt.Y(0); x.v.Store(v) }}
func (x *{T}) Swap(v {t}) {t} {{ rt.Y(0); return x.v.Swap(v) }}
func (x *{T}) CompareAndSwap(o, n {t}) bool {{ rt.Y(0); return x.v.CompareAndSwap(o, n) }}
''')
out.append('''
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer { rt.Y(0); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { rt.Y(0); atomic.StorePointer(p, v) }
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	rt.Y(0)
	return atomic.CompareAndSwapPointer(p, o, n)
}

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool { rt.Y(0); return x.v.Load() }
func (x *Bool) Store(v bool) { rt.Y(0); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool { rt.Y(0); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { rt.Y(0); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T { rt.Y(0); return x.v.Load() }
func (x *Pointer[T]) Store(v *T) { rt.Y(0); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T { rt.Y(0); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { rt.Y(0); return x.v.CompareAndSwap(o, n) }

type Value struct{ v atomic.Value }

func (x *Value) Load() any { rt.Y(0); return x.v.Load() }
func (x *Value) Store(v any) { rt.Y(0); x.v.Store(v) }
func (x *Value) Swap(v any) any { rt.Y(0); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool { rt.Y(0); return x.v.CompareAndSwap(o, n) }
''')
open('/verif/sim/simatomic/simatomic.go','w').write(''.join(out))
