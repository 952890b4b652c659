//go:build !nosupplied

package main

import (
	"hash/maphash"

	"github.com/wdamron/amt"
)

func init() {
	kinds = append(kinds, suppliedKinds...)
	supplied = func() []suppliedKey {
		return []suppliedKey{
			{"Int", func(a int64, b string, s maphash.Seed, n uint) uint64 { return amt.Int(a).Hash(s, n) },
				func(a, b int64, c, d string) bool { return amt.Int(a).Equal(amt.Int(b)) }, true},
			{"String", func(a int64, b string, s maphash.Seed, n uint) uint64 { return amt.String(b).Hash(s, n) },
				func(a, b int64, c, d string) bool { return amt.String(c).Equal(amt.String(d)) }, false},
			{"Bytes", func(a int64, b string, s maphash.Seed, n uint) uint64 { return amt.Bytes(b).Hash(s, n) },
				func(a, b int64, c, d string) bool { return amt.Bytes(c).Equal(amt.Bytes(d)) }, false},
			{"HashBytes", func(a int64, b string, s maphash.Seed, n uint) uint64 { return amt.HashBytes([]byte(b), s, n) }, nil, false},
		}
	}
}

func (w *World) uAmtInt() *uni[amt.Int] {
	ks := make([]amt.Int, len(w.ints))
	for i, k := range w.ints {
		ks[i] = amt.Int(k)
	}
	return mkUni(w, ks, func(k amt.Int) int {
		if i, ok := w.intIdx[int64(k)]; ok {
			return i
		}
		return -1
	})
}

func (w *World) uAmtStr() *uni[amt.String] {
	ks := make([]amt.String, len(w.strs))
	for i, k := range w.strs {
		ks[i] = amt.String(k)
	}
	return mkUni(w, ks, func(k amt.String) int {
		if i, ok := w.strIdx[string(k)]; ok {
			return i
		}
		return -1
	})
}

func (w *World) uAmtBytes() *uni[amt.Bytes] {
	b, same := w.byteKeys()
	ks := make([]amt.Bytes, len(b))
	for i := range b {
		ks[i] = b[i]
	}
	u := mkUni(w, ks, func(k amt.Bytes) int {
		if i, ok := w.strIdx[string(k)]; ok {
			return i
		}
		return -1
	})
	u.same, u.alt = same, func(k amt.Bytes) amt.Bytes { return w.altBytes(k) }
	return u
}

var suppliedKinds = []kindInfo{
	{"Map[Int]", false, "int", func(w *World) Cont { return &mapC[amt.Int, amt.Map[amt.Int, V]]{amt.NewMap[amt.Int, V](), w.uAmtInt()} },
		func(w *World) Cont { return &mapC[amt.Int, amt.Map[amt.Int, V]]{u: w.uAmtInt()} }},
	{"Map[Bytes]", false, "str", func(w *World) Cont {
		return &mapC[amt.Bytes, amt.Map[amt.Bytes, V]]{amt.NewMap[amt.Bytes, V](), w.uAmtBytes()}
	},
		func(w *World) Cont { return &mapC[amt.Bytes, amt.Map[amt.Bytes, V]]{u: w.uAmtBytes()} }},
	{"Set[String]", true, "str", func(w *World) Cont {
		return &setC[amt.String, amt.Set[amt.String]]{amt.NewSet[amt.String](), w.uAmtStr()}
	},
		func(w *World) Cont { return &setC[amt.String, amt.Set[amt.String]]{u: w.uAmtStr()} }},
}
