package main

import (
	"fmt"
	"math/bits"
	"reflect"
	"strings"
	"unsafe"
)

//go:linkname findObject runtime.findObject
func findObject(p, refBase, refOff uintptr) (base uintptr, s unsafe.Pointer, objIndex uintptr)

// elemOff is where the runtime's span descriptor keeps its object size, found by trial.
var elemOff = func() uintptr {
	var span [4]unsafe.Pointer
	for i, p := range []unsafe.Pointer{unsafe.Pointer(new([8]*int)), unsafe.Pointer(new([16]*int)), unsafe.Pointer(new([24]*int)), unsafe.Pointer(new([32]*int))} {
		keep = append(keep, p)
		_, span[i], _ = findObject(uintptr(p), 0, 0)
		if span[i] == nil {
			return 0
		}
	}
	for o := uintptr(8); o < 160; o += 8 {
		good := true
		for i := range span {
			if *(*uintptr)(unsafe.Add(span[i], o)) != uintptr(64*(i+1)) {
				good = false
			}
		}
		if good {
			return o
		}
	}
	return 0
}()
var keep []unsafe.Pointer

// objSize is the size of the heap object that starts at p, 0 if unknown, -1 if
// none starts there.
//
//go:nocheckptr
func objSize(p unsafe.Pointer) int {
	if elemOff == 0 {
		return 0
	}
	b, s, _ := findObject(uintptr(p), 0, 0)
	if b != uintptr(p) || s == nil {
		return -1
	}
	return int(*(*uintptr)(unsafe.Add(s, elemOff)))
}

// shape tells where the bitmaps and the array pointer of a branch lie.
type shape struct {
	ok               bool
	root             uintptr
	ptr, pm, tm, siz uintptr
}

func shapeOf(c reflect.Type) (s shape) {
	defer func() {
		if recover() != nil {
			s = shape{}
		}
	}()
	if c.Kind() != reflect.Struct || c.NumField() != 1 || c.Field(0).Type.Kind() != reflect.Ptr {
		return
	}
	rt := c.Field(0).Type.Elem()
	for i := 0; i < rt.NumField(); i++ {
		f := rt.Field(i)
		if f.Type.Kind() != reflect.Struct {
			continue
		}
		p, ok1 := f.Type.FieldByName("ptr")
		a, ok2 := f.Type.FieldByName("pmap")
		b, ok3 := f.Type.FieldByName("tmap")
		if ok1 && ok2 && ok3 && p.Type.Kind() == reflect.UnsafePointer && a.Type.Kind() == reflect.Uint32 && b.Type.Kind() == reflect.Uint32 && f.Type.NumField() == 3 {
			return shape{true, f.Offset, p.Offset, a.Offset, b.Offset, f.Type.Size()}
		}
	}
	return
}

type walker struct {
	s      shape
	out    strings.Builder
	leaves int
	bad16  string
	bad    string
	sizes  bool
	nodes  int
	sized  int
}

//go:nocheckptr
func (w *walker) at(l unsafe.Pointer) (p unsafe.Pointer, pm, tm uint32) {
	return *(*unsafe.Pointer)(unsafe.Add(l, w.s.ptr)), *(*uint32)(unsafe.Add(l, w.s.pm)), *(*uint32)(unsafe.Add(l, w.s.tm))
}

// branch walks the branch whose header is l; it returns its number of leaves.
//
//go:nocheckptr
func (w *walker) branch(l unsafe.Pointer, lvl int) int {
	p, pm, tm := w.at(l)
	if lvl > 240 || pm > 0xFFFF || tm&^pm != 0 || (p == nil && pm != 0) {
		w.bad = fmt.Sprintf("branch at level %d: bitmaps %#x %#x", lvl, pm, tm)
		return 0
	}
	if w.nodes++; w.nodes > 1<<16 {
		w.bad = "endless structure"
		return 0
	}
	n := bits.OnesCount32(pm)
	fmt.Fprintf(&w.out, "(%x/%x", pm, tm)
	if lvl > 0 {
		if n == 0 {
			w.bad16 = fmt.Sprintf("empty branch at level %d", lvl)
		}
		if w.sizes {
			want := (n + 3) / 4 * 4 * int(w.s.siz)
			got := objSize(p)
			if got != 0 {
				w.sized++
			}
			if got != 0 && got != want {
				w.bad16 = fmt.Sprintf("branch at level %d with %d entries occupies %d bytes, not %d", lvl, n, got, want)
			}
		}
	}
	leaves, i := 0, 0
	for b := uint(0); b < 16; b++ {
		if pm&(1<<b) == 0 {
			continue
		}
		it := unsafe.Add(p, uintptr(i)*w.s.siz)
		i++
		if tm&(1<<b) != 0 {
			w.out.WriteByte('.')
			leaves++
		} else {
			leaves += w.branch(it, lvl+1)
		}
		if w.bad != "" {
			return 0
		}
	}
	if lvl > 0 && leaves < 2 {
		w.bad16 = fmt.Sprintf("branch at level %d leads to %d keys", lvl, leaves)
	}
	w.out.WriteByte(')')
	return leaves
}

// walk returns the structure below root, or ok=false when it cannot be read.
func walk(c Cont, s shape, sizes bool) (w *walker, ok bool) {
	w = &walker{s: s, sizes: sizes}
	if !s.ok || c.Root() == nil {
		return w, false
	}
	defer func() {
		if e := recover(); e != nil {
			w.bad = fmt.Sprint("structure cannot be read: ", e)
			ok = true
		}
	}()
	w.leaves = w.branch(unsafe.Add(c.Root(), s.root), 0)
	return w, true
}

// snapshot is the memory of a container: the root, every branch array, every box.
//
//go:nocheckptr
func snapshot(c Cont, s shape) (out []byte, ok bool) {
	defer func() {
		if recover() != nil {
			out, ok = nil, false
		}
	}()
	r := c.Root()
	if !s.ok || r == nil {
		return nil, false
	}
	put := func(p unsafe.Pointer, n int) {
		for i := 0; i < n; i++ {
			out = append(out, *(*byte)(unsafe.Add(p, i)))
		}
	}
	put(r, int(c.Type().Field(0).Type.Elem().Size()))
	var branch func(l unsafe.Pointer, lvl int)
	branch = func(l unsafe.Pointer, lvl int) {
		p := *(*unsafe.Pointer)(unsafe.Add(l, s.ptr))
		pm, tm := *(*uint32)(unsafe.Add(l, s.pm)), *(*uint32)(unsafe.Add(l, s.tm))
		if lvl > 240 || len(out) > 1<<20 {
			panic("structure")
		}
		n := bits.OnesCount32(pm)
		put(p, n*int(s.siz))
		for b, i := 0, 0; b < 16; b++ {
			if pm&(1<<b) == 0 {
				continue
			}
			it := unsafe.Add(p, uintptr(i)*s.siz)
			i++
			if tm&(1<<b) == 0 {
				branch(it, lvl+1)
			} else if q := *(*unsafe.Pointer)(unsafe.Add(it, s.ptr)); q != nil {
				if n := objSize(q); n > 0 && n < 1<<12 {
					put(q, n)
				}
			}
		}
	}
	branch(unsafe.Add(r, s.root), 0)
	return out, true
}
