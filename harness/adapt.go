package main

import (
	"fmt"
	"hash/maphash"
	"reflect"
	"unsafe"

	"github.com/wdamron/amt"
)

// V is the stored value: a number and a heap pointer holding the same number,
// so that a value lost to the garbage collector or torn by a wrong offset shows.
type V struct {
	p *int64
	n int64
}

func mkV(n int64) V { p := new(int64); *p = n; return V{p, n} }
func (v V) ok(n int64) bool {
	if n == 0 {
		return v.p == nil && v.n == 0
	}
	return v.p != nil && v.n == n && *v.p == n
}
func (v V) String() string {
	if v.p == nil {
		return fmt.Sprintf("(zero,%d)", v.n)
	}
	return fmt.Sprintf("(%d,%d)", *v.p, v.n)
}

// Cont is one container; keys are indices into the universe of its kind.
type Cont interface {
	IsSet() bool
	Set(k int, v V)
	Mod(k int, f func(*V, bool))
	Del(k int)
	Get(k int) (V, bool)
	Val(k int) V
	Ptr(k int) *V
	All(f func(k int, p *V) bool)
	Len() uint
	Dep() float64
	Nil() bool
	Copy() Cont
	Root() unsafe.Pointer
	Type() reflect.Type
	Clone() Cont // a copy sharing the container but nothing of the adapter
	Same() bool  // keys still as they were made (byte slices)
}

// ------------------------------------------------------------------ generic adapters
type mapAPI[K any] interface {
	Set(K, V)
	Mod(K, func(*V, bool))
	Del(K)
	Get(K) (V, bool)
	Val(K) V
	Ptr(K) *V
	All(func(K, *V) bool)
	Len() uint
	Dep() float64
	Nil() bool
}
type setAPI[K any] interface {
	Add(K)
	Del(K)
	Has(K) bool
	All(func(K) bool)
	Len() uint
	Dep() float64
	Nil() bool
}

// uni is the universe of keys of a kind.
type uni[K any] struct {
	ks   []K
	back func(K) int // index of a key, -1 if it is none of them
	alt  func(K) K   // an equal key in another representation
	same func() bool
	n    int
}

func (u *uni[K]) key(i int) K {
	u.n++
	if u.alt != nil && u.n&1 == 0 {
		return u.alt(u.ks[i])
	}
	return u.ks[i]
}

type mapC[K any, M mapAPI[K]] struct {
	m M
	u *uni[K]
}

func rootOf[T any](p *T) unsafe.Pointer {
	if unsafe.Sizeof(*p) != unsafe.Sizeof(uintptr(0)) {
		return nil
	}
	return *(*unsafe.Pointer)(unsafe.Pointer(p))
}

func (c *mapC[K, M]) IsSet() bool                 { return false }
func (c *mapC[K, M]) Set(k int, v V)              { c.m.Set(c.u.key(k), v) }
func (c *mapC[K, M]) Mod(k int, f func(*V, bool)) { c.m.Mod(c.u.key(k), f) }
func (c *mapC[K, M]) Del(k int)                   { c.m.Del(c.u.key(k)) }
func (c *mapC[K, M]) Get(k int) (V, bool)         { return c.m.Get(c.u.key(k)) }
func (c *mapC[K, M]) Val(k int) V                 { return c.m.Val(c.u.key(k)) }
func (c *mapC[K, M]) Ptr(k int) *V                { return c.m.Ptr(c.u.key(k)) }
func (c *mapC[K, M]) All(f func(int, *V) bool) {
	c.m.All(func(k K, p *V) bool { return f(c.u.back(k), p) })
}
func (c *mapC[K, M]) Len() uint            { return c.m.Len() }
func (c *mapC[K, M]) Dep() float64         { return c.m.Dep() }
func (c *mapC[K, M]) Nil() bool            { return c.m.Nil() }
func (c *mapC[K, M]) Copy() Cont           { d := *c; return &d }
func (c *mapC[K, M]) Root() unsafe.Pointer { return rootOf(&c.m) }
func (c *mapC[K, M]) Type() reflect.Type   { return reflect.TypeOf(c.m) }
func (c *mapC[K, M]) Clone() Cont          { u := *c.u; return &mapC[K, M]{c.m, &u} }
func (c *mapC[K, M]) Same() bool           { return c.u.same == nil || c.u.same() }

type setC[K any, M setAPI[K]] struct {
	m M
	u *uni[K]
}

func (c *setC[K, M]) IsSet() bool                 { return true }
func (c *setC[K, M]) Set(k int, v V)              { c.m.Add(c.u.key(k)) }
func (c *setC[K, M]) Mod(k int, f func(*V, bool)) { panic("no Mod on a set") }
func (c *setC[K, M]) Del(k int)                   { c.m.Del(c.u.key(k)) }
func (c *setC[K, M]) Get(k int) (V, bool)         { return V{}, c.m.Has(c.u.key(k)) }
func (c *setC[K, M]) Val(k int) V                 { return V{} }
func (c *setC[K, M]) Ptr(k int) *V                { return nil }
func (c *setC[K, M]) All(f func(int, *V) bool) {
	c.m.All(func(k K) bool { return f(c.u.back(k), nil) })
}
func (c *setC[K, M]) Len() uint            { return c.m.Len() }
func (c *setC[K, M]) Dep() float64         { return c.m.Dep() }
func (c *setC[K, M]) Nil() bool            { return c.m.Nil() }
func (c *setC[K, M]) Copy() Cont           { d := *c; return &d }
func (c *setC[K, M]) Root() unsafe.Pointer { return rootOf(&c.m) }
func (c *setC[K, M]) Type() reflect.Type   { return reflect.TypeOf(c.m) }
func (c *setC[K, M]) Clone() Cont          { u := *c.u; return &setC[K, M]{c.m, &u} }
func (c *setC[K, M]) Same() bool           { return c.u.same == nil || c.u.same() }

// ------------------------------------------------------------------ key types
// AK is a byte-array key.
type AK struct{ a, b uint64 }

func (k AK) KeyBytes() (r [64]byte) {
	for i := 0; i < 8; i++ {
		r[i] = byte(k.a >> (8 * i))
		r[40+i] = byte(k.b >> (8 * i))
	}
	r[63] = 1
	return
}

// GK is a generic key with a chosen hash; tag takes no part in equality.
type GK struct {
	id  int
	tag int
	w   *World
}

func (k GK) Equal(o GK) bool { return k.id == o.id }
func (k GK) Hash(seed maphash.Seed, iter uint) uint64 {
	if iter > 1<<20 {
		panic(fmt.Sprintf("key asked to hash %d times", iter))
	}
	return k.w.gkHash(seed, k.id, iter)
}

type kindInfo struct {
	name  string
	isSet bool
	fam   string // int string bytes arr gen
	make  func(w *World) Cont
	zero  func(w *World) Cont // uninitialized
}

func mkUni[K any](w *World, ks []K, back func(K) int) *uni[K] {
	return &uni[K]{ks: ks, back: back}
}

func (w *World) uInt() *uni[int64] {
	return mkUni(w, w.ints, func(k int64) int {
		if i, ok := w.intIdx[k]; ok {
			return i
		}
		return -1
	})
}
func (w *World) uStr() *uni[string] {
	return mkUni(w, w.strs, func(k string) int {
		if i, ok := w.strIdx[k]; ok {
			return i
		}
		return -1
	})
}
func (w *World) byteKeys() ([][]byte, func() bool) {
	ks := make([][]byte, len(w.strs))
	var whole [][]byte
	for i, k := range w.strs {
		b := make([]byte, len(k)+8) // spare capacity, to notice appends
		copy(b, k)
		for j := len(k); j < len(b); j++ {
			b[j] = 0xA5
		}
		whole = append(whole, b)
		ks[i] = b[:len(k)]
		if len(k) == 0 {
			ks[i] = nil
		}
	}
	return ks, func() bool {
		for i, k := range w.strs {
			b := whole[i]
			if string(b[:len(k)]) != k {
				return false
			}
			for j := len(k); j < len(b); j++ {
				if b[j] != 0xA5 {
					return false
				}
			}
		}
		return true
	}
}
func (w *World) altBytes(k []byte) []byte {
	if len(k) == 0 {
		return []byte{}
	}
	return append(make([]byte, 0, len(k)), k...)
}
func (w *World) uBytes() *uni[[]byte] {
	ks, same := w.byteKeys()
	u := mkUni(w, ks, func(k []byte) int {
		if i, ok := w.strIdx[string(k)]; ok {
			return i
		}
		return -1
	})
	u.same, u.alt = same, w.altBytes
	return u
}
func (w *World) uArr() *uni[AK] {
	ks := make([]AK, len(w.ints))
	idx := map[AK]int{}
	for i, k := range w.ints {
		ks[i] = AK{uint64(k), uint64(i)}
		idx[ks[i]] = i
	}
	return mkUni(w, ks, func(k AK) int {
		if i, ok := idx[k]; ok {
			return i
		}
		return -1
	})
}
func (w *World) uGen() *uni[GK] {
	ks := make([]GK, w.n)
	for i := range ks {
		ks[i] = GK{i, 0, w}
	}
	u := mkUni(w, ks, func(k GK) int { return k.id })
	u.alt = func(k GK) GK { k.tag = u.n; return k }
	return u
}

var kinds = []kindInfo{
	{"IntMap", false, "int", func(w *World) Cont { return &mapC[int64, amt.IntMap[V]]{amt.NewIntMap[V](), w.uInt()} },
		func(w *World) Cont { return &mapC[int64, amt.IntMap[V]]{u: w.uInt()} }},
	{"IntSet", true, "int", func(w *World) Cont { return &setC[int64, amt.IntSet]{amt.NewIntSet(), w.uInt()} },
		func(w *World) Cont { return &setC[int64, amt.IntSet]{u: w.uInt()} }},
	{"StringMap", false, "str", func(w *World) Cont { return &mapC[string, amt.StringMap[V]]{amt.NewStringMap[V](), w.uStr()} },
		func(w *World) Cont { return &mapC[string, amt.StringMap[V]]{u: w.uStr()} }},
	{"StringSet", true, "str", func(w *World) Cont { return &setC[string, amt.StringSet]{amt.NewStringSet(), w.uStr()} },
		func(w *World) Cont { return &setC[string, amt.StringSet]{u: w.uStr()} }},
	{"BytesMap", false, "str", func(w *World) Cont { return &mapC[[]byte, amt.BytesMap[V]]{amt.NewBytesMap[V](), w.uBytes()} },
		func(w *World) Cont { return &mapC[[]byte, amt.BytesMap[V]]{u: w.uBytes()} }},
	{"BytesSet", true, "str", func(w *World) Cont { return &setC[[]byte, amt.BytesSet]{amt.NewBytesSet(), w.uBytes()} },
		func(w *World) Cont { return &setC[[]byte, amt.BytesSet]{u: w.uBytes()} }},
	{"ArrMap", false, "arr", func(w *World) Cont { return &mapC[AK, amt.ArrMap[AK, V]]{amt.NewArrMap[AK, V](), w.uArr()} },
		func(w *World) Cont { return &mapC[AK, amt.ArrMap[AK, V]]{u: w.uArr()} }},
	{"ArrSet", true, "arr", func(w *World) Cont { return &setC[AK, amt.ArrSet[AK]]{amt.NewArrSet[AK](), w.uArr()} },
		func(w *World) Cont { return &setC[AK, amt.ArrSet[AK]]{u: w.uArr()} }},
	{"Map", false, "gen", func(w *World) Cont { return &mapC[GK, amt.Map[GK, V]]{amt.NewMap[GK, V](), w.uGen()} },
		func(w *World) Cont { return &mapC[GK, amt.Map[GK, V]]{u: w.uGen()} }},
	{"Set", true, "gen", func(w *World) Cont { return &setC[GK, amt.Set[GK]]{amt.NewSet[GK](), w.uGen()} },
		func(w *World) Cont { return &setC[GK, amt.Set[GK]]{u: w.uGen()} }},
}
