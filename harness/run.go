package main

import (
	"bytes"
	"fmt"
	"hash/maphash"
	"math"
	"math/rand"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
)

// Op is one step of a history. T: set mod modp del get wr all reb gc oth snap conc
type Op struct {
	T string `json:"t"`
	K int    `json:"k"`
	A int64  `json:"a,omitempty"`
}

// History is one case, replayable.
type History struct {
	Kind string `json:"kind"`
	Cfg  Config `json:"config"`
	Ops  []Op   `json:"ops"`
	Full int    `json:"full"` // full check every so many steps
	// Reads: nothing is checked between the steps; "snap" and "conc" steps look for writes
	Reads bool `json:"reads,omitempty"`
}

type Fail struct {
	Prop string `json:"property"`
	Msg  string `json:"message"`
	At   int    `json:"step"`
}

func genOps(r *rand.Rand, kind *kindInfo, cfg Config, m int) []Op {
	ops := make([]Op, 0, m)
	ph, left := 0, 0
	for len(ops) < m {
		if left == 0 {
			ph, left = r.Intn(4), 3+r.Intn(2*cfg.N+4)
		}
		left--
		o := Op{K: r.Intn(cfg.N), A: 1 + r.Int63n(1<<40)}
		add, del := 45, 25
		switch ph {
		case 0:
			add, del = 75, 5
		case 1:
			add, del = 10, 70
		}
		switch x := r.Intn(100); {
		case x < add:
			o.T = "set"
			if !kind.isSet && r.Intn(3) == 0 {
				o.T = "mod"
				if r.Intn(8) == 0 {
					o.T = "modp"
				}
			}
		case x < add+del:
			o.T = "del"
		default:
			o.T = []string{"get", "wr", "all", "oth", "reb", "get", "wr", "del"}[r.Intn(8)]
			if o.T == "all" {
				o.A = int64(r.Intn(cfg.N + 1))
			}
		}
		ops = append(ops, o)
	}
	return ops
}

type stop struct{}

type runner struct {
	h     *History
	kind  *kindInfo
	w     *World
	c     [2]Cont // a container and a copy of it
	o     Cont    // another container
	model map[int]int64
	omod  map[int]int64
	ptrs  map[int]*V
	seed  uint64
	enc   [][]byte
	sh    shape
	step  int
	deep  bool
	fails []Fail
	seen  map[string]bool
	sem   string
	as    string // properties a failure of the whole check counts for, if not its own
	cnt   *Counts
}

type Counts struct {
	Histories, Steps, Checks, Deep, Structure, Sized int64
	MaxLen                                           int
}

var progress int64

func (x *runner) fail(prop, f string, a ...interface{}) {
	if x.as != "" {
		prop = x.as
	}
	if x.seen[prop] {
		return
	}
	x.seen[prop] = true
	x.fails = append(x.fails, Fail{prop, fmt.Sprintf(f, a...), x.step})
}

// semantic failure: content differs from the model
func (x *runner) failS(f string, a ...interface{}) {
	x.fail(x.sem, f, a...)
	if x.as == "" {
		if x.deep {
			x.fail("C15", f, a...)
		}
		if x.kind.fam == "int" && x.kind.name[:3] == "Int" {
			x.fail("C13", f, a...)
		}
	}
}

var curSeed = uint64(1)

func setHash(w *World, fam string) {
	maphash.VerifHash = func(seed uint64, content []byte) uint64 { return w.hash(fam, seed, content) }
	maphash.VerifSeed = func() uint64 { return curSeed }
}

func (x *runner) keyName(k int) string {
	switch x.kind.fam {
	case "int", "arr":
		return fmt.Sprintf("#%d(%#x)", k, uint64(x.w.ints[k]))
	case "str":
		s := x.w.strs[k]
		if len(s) > 24 {
			s = s[:24] + "..."
		}
		return fmt.Sprintf("#%d(%q)", k, s)
	}
	return fmt.Sprintf("#%d", k)
}

func run(h *History, cnt *Counts) (fails []Fail) {
	x := &runner{h: h, model: map[int]int64{}, omod: map[int]int64{}, ptrs: map[int]*V{}, seen: map[string]bool{}, sem: "C01", cnt: cnt}
	for i := range kinds {
		if kinds[i].name == h.Kind {
			x.kind = &kinds[i]
		}
	}
	if x.kind == nil {
		return nil
	}
	if x.kind.isSet {
		x.sem = "C02"
	}
	x.w = newWorld(h.Cfg)
	x.deep = h.Cfg.Events != nil
	setHash(x.w, x.kind.fam)
	atomic.StoreInt64(&progress, 1)
	defer atomic.StoreInt64(&progress, 0)
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(stop); !ok {
				x.as = ""
				x.fail("C08", "panic: %v", e)
				// after a panic no operation did what it should
				if x.step >= 0 {
					x.failS("panic instead of a result: %v", e)
				}
			}
		}
		fails = x.fails
	}()
	x.step = -1
	x.nilChecks()
	x.encodings()
	curSeed = 0xABCDEF0123456789 ^ uint64(h.Cfg.Seed) | 1
	x.seed = curSeed
	c := x.kind.make(x.w)
	x.c = [2]Cont{c, c.Copy()}
	curSeed++
	x.o = x.kind.make(x.w)
	x.sh = shapeOf(c.Type())
	x.newChecks(c)
	x.newChecks(x.o)
	for i, o := range h.Ops {
		x.step = i
		atomic.AddInt64(&progress, 1)
		x.op(x.c[i&1], x.c[1-i&1], o)
		if cnt != nil {
			cnt.Steps++
		}
		if h.Reads {
			continue
		}
		if h.Full > 0 && (i%h.Full == 0 || i == len(h.Ops)-1) {
			x.check(x.c[1-i&1])
			if i%7 == 0 {
				x.check(x.c[i&1])
				x.other()
			}
			x.structure(x.c[0])
		} else {
			x.light(x.c[1-i&1], o.K)
		}
		if i%97 == 96 {
			runtime.GC()
		}
		if len(x.model) > 0 && cnt != nil && len(x.model) > cnt.MaxLen {
			cnt.MaxLen = len(x.model)
		}
	}
	x.step = len(h.Ops)
	if h.Reads {
		return
	}
	x.other()
	x.rebuild()
	// empty it again
	for _, k := range x.live() {
		atomic.AddInt64(&progress, 1)
		x.c[0].Del(k)
		delete(x.model, k)
		delete(x.ptrs, k)
		if h.Full > 0 && h.Cfg.N < 80 {
			x.check(x.c[1])
			x.structure(x.c[0])
		} else {
			x.light(x.c[1], k)
		}
	}
	x.check(x.c[1])
	x.structure(x.c[0])
	runtime.GC()
	return
}

func (x *runner) live() []int {
	ks := make([]int, 0, len(x.model))
	for k := range x.model {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}

func must(f func()) (panicked bool) {
	defer func() {
		if recover() != nil {
			panicked = true
		}
	}()
	f()
	return
}

func (x *runner) nilChecks() {
	z := x.kind.zero(x.w)
	if must(func() {
		if !z.Nil() {
			x.fail("C11", "Nil of an uninitialized container is false")
		}
		if n := z.Len(); n != 0 {
			x.fail("C11", "Len of an uninitialized container is %d", n)
		}
		if d := z.Dep(); d != 0 {
			x.fail("C11", "Dep of an uninitialized container is %v", d)
		}
		if !z.IsSet() && !z.Val(0).ok(0) {
			x.fail("C11", "Val of an uninitialized map is not zero")
		}
	}) {
		x.fail("C11", "Nil, Len, Dep or Val panics on an uninitialized container")
	}
	for _, c := range []struct {
		n string
		f func()
	}{
		{"Get/Has", func() { z.Get(0) }},
		{"Set/Add", func() { z.Set(0, mkV(1)) }},
		{"Del", func() { z.Del(0) }},
		{"All", func() {
			z.All(func(int, *V) bool { x.fail("C11", "All calls back on an uninitialized container"); return true })
		}},
		{"Ptr", func() { z.Ptr(0) }},
		{"Mod", func() { z.Mod(0, func(*V, bool) { x.fail("C11", "Mod calls back on an uninitialized map") }) }},
	} {
		if z.IsSet() && (c.n == "Ptr" || c.n == "Mod") {
			continue
		}
		if !must(c.f) {
			x.fail("C11", "%s does not panic on an uninitialized container", c.n)
		}
	}
}

func (x *runner) newChecks(c Cont) {
	if must(func() {
		if c.Nil() {
			x.fail("C11", "a new container reports nil")
		}
		if c.Len() != 0 {
			x.fail("C11", "a new container has length %d", c.Len())
		}
		if c.Dep() != 0 {
			x.fail("C11", "a new container has depth %v", c.Dep())
		}
		c.All(func(k int, p *V) bool { x.fail("C11", "a new container holds a key"); return true })
		for k := 0; k < x.w.n; k++ {
			if _, ok := c.Get(k); ok {
				x.fail("C11", "a new container holds key %s", x.keyName(k))
			}
		}
	}) {
		x.fail("C11", "a new container is not usable")
		x.fail("C08", "a new container panics")
	}
}

// encodings records what a first insertion hashes, per key.
func (x *runner) encodings() {
	if x.kind.fam == "gen" {
		return
	}
	w := x.w
	var got []byte
	have := false
	maphash.VerifHash = func(seed uint64, content []byte) uint64 {
		if !have {
			got, have = append([]byte(nil), content...), true
		}
		return w.hash(x.kind.fam, seed, content)
	}
	curSeed = 99
	c := x.kind.make(w)
	for k := 0; k < w.n; k++ {
		have = false
		c.Get(k)
		if !have {
			x.enc = nil
			break
		}
		x.enc = append(x.enc, got)
	}
	setHash(w, x.kind.fam)
}

func (x *runner) depth(model map[int]int64) (float64, bool) {
	if x.kind.fam != "gen" && x.enc == nil {
		return 0, false
	}
	var ds [][]byte
	for k := range model {
		d := make([]byte, 0, 256)
		var enc []byte
		if x.enc != nil {
			enc = x.enc[k]
		}
		top := 2
		if len(x.w.cfg.Events) > 0 {
			top = x.w.last/16 + 2
		}
		for it := 0; it < top; it++ {
			h := x.w.keyHash(x.kind.fam, x.seed, k, it, enc)
			for j := 0; j < 16; j++ {
				d = append(d, byte(h&15))
				h >>= 4
			}
		}
		ds = append(ds, d)
	}
	return meanDepth(ds), true
}

func (x *runner) op(c, c2 Cont, o Op) {
	k := o.K
	old, had := x.model[k]
	switch o.T {
	case "set":
		c.Set(k, mkV(o.A))
		x.model[k] = o.A
		if x.kind.isSet {
			x.model[k] = 1
		}
	case "del":
		c.Del(k)
		delete(x.model, k)
		delete(x.ptrs, k)
	case "mod", "modp":
		n := 0
		var given *V
		pan := must(func() {
			c.Mod(k, func(p *V, ok bool) {
				n++
				given = p
				if ok != had {
					x.fail("C10", "callback told %v, key %s present: %v", ok, x.keyName(k), had)
				}
				if p == nil {
					x.fail("C10", "callback got no value pointer")
					return
				}
				if had && !p.ok(old) || !had && !p.ok(0) {
					x.fail("C10", "callback got %v for key %s, stored %v %d", *p, x.keyName(k), had, old)
				}
				x.as = "C10"
				x.check(c2)
				x.as = ""
				if o.T == "modp" {
					panic(stop{})
				}
				*p = mkV(o.A)
			})
		})
		if n != 1 {
			x.fail("C10", "callback ran %d times", n)
		}
		if pan != (o.T == "modp") {
			if pan {
				x.fail("C08", "Mod of key %s panics", x.keyName(k))
				x.failS("Mod of key %s panics", x.keyName(k))
			} else {
				x.fail("C10", "callback did not run to its panic")
			}
		}
		if o.T == "mod" {
			x.model[k] = o.A
			if v, ok := c2.Get(k); !ok || !v.ok(o.A) {
				x.fail("C10", "after the callback left %d, key %s holds %v %v", o.A, x.keyName(k), v, ok)
			}
			if q := c2.Ptr(k); q != nil && given != nil && q != given {
				x.fail("C07", "the callback got a pointer to key %s that is not where its value is stored", x.keyName(k))
				if had {
					x.fail("C10", "the callback got a pointer to key %s that is not where its value is stored", x.keyName(k))
				}
			}
		} else {
			x.as = "C10"
			x.check(c2)
			x.as = ""
		}
	case "get":
		for i := 0; i < 3; i++ {
			c.Get(k)
		}
	case "wr":
		if x.kind.isSet {
			return
		}
		p := x.ptrs[k]
		if p == nil {
			p = c.Ptr(k)
		}
		if (p != nil) != had {
			x.failS("Ptr of key %s nil: %v, present: %v", x.keyName(k), p == nil, had)
		}
		if p != nil && had {
			*p = mkV(o.A)
			x.model[k] = o.A
			if v, ok := c2.Get(k); !ok || !v.ok(o.A) {
				x.fail("C07", "written %d through the pointer to the value of key %s, lookup gives %v %v", o.A, x.keyName(k), v, ok)
			}
		}
	case "all":
		x.stopAt(c, int(o.A))
	case "oth":
		if o.A%3 == 0 {
			x.o.Del(k)
			delete(x.omod, k)
		} else {
			x.o.Set(k, mkV(o.A))
			x.omod[k] = o.A
			if x.kind.isSet {
				x.omod[k] = 1
			}
		}
	case "reb":
		x.rebuild()
	case "snap":
		if a, ok := snapshot(c, x.sh); ok {
			x.reads(c2)
			if x.cnt != nil {
				x.cnt.Structure++
			}
			if b, ok := snapshot(c, x.sh); ok && !bytes.Equal(a, b) {
				x.fail("C09", "%s: lookups and iterations changed the memory of the container", x.kind.name)
			}
		}
	case "conc": // the race detector decides
		var wg sync.WaitGroup
		for g := 0; g < 2; g++ {
			d := c.Clone()
			wg.Add(1)
			go func() {
				defer wg.Done()
				x.reads(d)
			}()
		}
		wg.Wait()
	}
	if !x.kind.isSet {
		if _, ok := x.model[k]; ok && x.ptrs[k] == nil {
			x.ptrs[k] = c.Ptr(k)
		}
	}
}

// reads: everything that must not write
func (x *runner) reads(d Cont) {
	defer func() { recover() }()
	for i := 0; i < x.w.n; i++ {
		d.Get(i)
		d.Val(i)
		d.Ptr(i)
	}
	d.Len()
	d.Dep()
	d.Nil()
	m := 0
	d.All(func(int, *V) bool { m++; return true })
	d.All(func(int, *V) bool { return false })
}

func (x *runner) stopAt(c Cont, n int) {
	i := 0
	c.All(func(k int, p *V) bool {
		i++
		return i < n
	})
	want := n
	if n == 0 {
		want = 1
	}
	if want > len(x.model) {
		want = len(x.model)
	}
	if i != want {
		x.fail("C06", "iteration told to stop after %d of %d entries made %d calls", n, len(x.model), i)
	}
}

func (x *runner) one(c Cont, k int) {
	want, has := x.model[k]
	v, ok := c.Get(k)
	if ok != has {
		x.failS("key %s: found %v, stored %v", x.keyName(k), ok, has)
		return
	}
	if x.kind.isSet {
		return
	}
	n := int64(0)
	if has {
		n = want
	}
	if !v.ok(n) {
		x.failS("key %s: Get gives %v, stored %d", x.keyName(k), v, n)
	}
	if v = c.Val(k); !v.ok(n) {
		x.failS("key %s: Val gives %v, stored %d", x.keyName(k), v, n)
	}
	p := c.Ptr(k)
	if (p != nil) != has {
		x.failS("key %s: Ptr gives %v, stored %v", x.keyName(k), p, has)
	} else if p != nil && !p.ok(n) {
		x.failS("key %s: Ptr leads to %v, stored %d", x.keyName(k), *p, n)
	}
	if q := x.ptrs[k]; has && q != nil {
		if p != q {
			x.fail("C07", "key %s: its value is no longer where it was", x.keyName(k))
		}
		if !q.ok(n) {
			x.fail("C07", "key %s: pointer held shows %v, stored %d", x.keyName(k), *q, n)
		}
	}
}

func (x *runner) light(c Cont, k int) {
	x.one(c, k)
	if n := c.Len(); n != uint(len(x.model)) {
		x.fail("C03", "Len is %d with %d keys stored", n, len(x.model))
	}
}

func (x *runner) check(c Cont) {
	if x.cnt != nil {
		x.cnt.Checks++
		if x.deep {
			x.cnt.Deep++
		}
	}
	for k := 0; k < x.w.n; k++ {
		x.one(c, k)
	}
	if n := c.Len(); n != uint(len(x.model)) {
		x.fail("C03", "Len is %d with %d keys stored", n, len(x.model))
	}
	if d, ok := x.depth(x.model); ok {
		if g := c.Dep(); math.IsNaN(g) || math.Abs(g-d) > 1e-9*(1+d) {
			x.fail("C04", "Dep is %v, mean depth of the %d keys is %v", g, len(x.model), d)
		}
	}
	var ks []int
	seen := map[int]bool{}
	addr := map[*V]int{}
	c.All(func(k int, p *V) bool {
		if k < 0 || k >= x.w.n {
			x.failI("iteration gives a key that was never stored")
			return len(ks) < 2*x.w.n
		}
		ks = append(ks, k)
		n, has := x.model[k]
		if !has {
			x.failI("iteration gives key %s, which is not stored", x.keyName(k))
		}
		if seen[k] {
			x.failI("iteration gives key %s twice", x.keyName(k))
		}
		seen[k] = true
		if !x.kind.isSet && has {
			if p == nil || !p.ok(n) {
				x.failI("iteration gives a wrong value for key %s", x.keyName(k))
			} else if q := x.ptrs[k]; q != nil && q != p {
				x.fail("C07", "iteration gives another value pointer for key %s", x.keyName(k))
			}
			if j, dup := addr[p]; dup {
				x.fail("C07", "keys %s and %s share a value", x.keyName(k), x.keyName(j))
			}
			addr[p] = k
		}
		return len(ks) < 2*x.w.n
	})
	for _, k := range x.live() {
		if !seen[k] {
			x.failI("iteration leaves out key %s", x.keyName(k))
			break
		}
	}
	i, same := 0, true
	c.All(func(k int, p *V) bool {
		if i >= len(ks) || ks[i] != k {
			same = false
		}
		i++
		return i < 4*x.w.n
	})
	if !same || i != len(ks) {
		x.fail("C06", "a second iteration differs from the first")
	}
	if !x.c[0].Same() {
		x.fail("C14", "a key slice of the caller was changed")
	}
}

func (x *runner) failI(f string, a ...interface{}) {
	x.fail("C06", f, a...)
	if x.as == "" && x.kind.fam == "int" && x.kind.name[:3] == "Int" {
		x.fail("C13", f, a...)
	}
}

// other: the second container is untouched by operations on the first, and both
// copies of the first agree.
func (x *runner) other() {
	if n := x.o.Len(); n != uint(len(x.omod)) {
		x.fail("C14", "another container: Len %d, %d keys stored there", n, len(x.omod))
	}
	for k := 0; k < x.w.n; k++ {
		n, has := x.omod[k]
		v, ok := x.o.Get(k)
		if ok != has || (has && !x.kind.isSet && !v.ok(n)) {
			x.fail("C14", "another container: key %s: %v %v, stored %v %d", x.keyName(k), ok, v, has, n)
		}
		a, ok1 := x.c[0].Get(k)
		b, ok2 := x.c[1].Get(k)
		if ok1 != ok2 || a != b {
			x.fail("C14", "two copies differ on key %s", x.keyName(k))
		}
	}
	if x.c[0].Len() != x.c[1].Len() || x.c[0].Dep() != x.c[1].Dep() {
		x.fail("C14", "two copies differ in length or depth")
	}
}

// rebuild: a container with the same seed and keys, built otherwise, is the same.
func (x *runner) rebuild() {
	curSeed = x.seed
	d := x.kind.make(x.w)
	curSeed++
	r := rand.New(rand.NewSource(x.h.Cfg.Seed + int64(x.step)))
	ks := x.live()
	r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	var extra []int
	for _, k := range ks {
		d.Set(k, mkV(1))
		if r.Intn(2) == 0 {
			e := r.Intn(x.w.n)
			if _, ok := x.model[e]; !ok {
				d.Set(e, mkV(2))
				extra = append(extra, e)
			}
		}
	}
	for _, e := range extra {
		d.Del(e)
	}
	var a, b []int
	x.c[0].All(func(k int, p *V) bool { a = append(a, k); return len(a) < 4*x.w.n })
	d.All(func(k int, p *V) bool { b = append(b, k); return len(b) < 4*x.w.n })
	if fmt.Sprint(a) != fmt.Sprint(b) {
		x.fail("C05", "same %d keys, iteration order %v and %v", len(ks), a, b)
	}
	if g, h := x.c[0].Dep(), d.Dep(); g != h {
		x.fail("C05", "same keys, depths %v and %v", g, h)
	}
	s1, ok1 := walk(x.c[0], x.sh, false)
	s2, ok2 := walk(d, x.sh, false)
	if ok1 && ok2 && s1.out.String() != s2.out.String() {
		x.fail("C05", "same keys, structures %s and %s", s1.out.String(), s2.out.String())
	}
}

func (x *runner) structure(c Cont) {
	s, ok := walk(c, x.sh, true)
	if !ok {
		return
	}
	if x.cnt != nil {
		x.cnt.Structure++
		x.cnt.Sized += int64(s.sized)
	}
	if s.bad != "" {
		x.fail("C08", "%s", s.bad)
		x.fail("C16", "%s", s.bad)
		x.fail("C05", "%s", s.bad)
		return
	}
	if s.bad16 != "" {
		x.fail("C16", "%s", s.bad16)
	}
}
