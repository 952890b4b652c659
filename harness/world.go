package main

import (
	"fmt"
	"hash/maphash"
	"math/rand"
	"sort"
)

// Config fixes the keys and the hash function of a run.
type Config struct {
	Seed   int64 `json:"seed"`
	N      int   `json:"n"`      // number of keys
	Events []int `json:"events"` // levels at which keys may part; nil: ordinary hash
	Alpha  int   `json:"alpha"`  // distinct digits at such a level
}

type World struct {
	cfg    Config
	n      int
	ints   []int64
	strs   []string
	intIdx map[int64]int
	strIdx map[string]int
	ev     map[int]int
	last   int
	memo   map[string][]uint64
}

func mix(a, b uint64) uint64 {
	x := a ^ (b * 0x9E3779B97F4A7C15)
	x ^= x >> 32
	x *= 0xD6E8FEB86659FD93
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 32
	return x
}
func fnv(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h ^= uint64(c)
		h *= 1099511628211
	}
	return mix(h, uint64(len(b)))
}

func newWorld(cfg Config) *World {
	w := &World{cfg: cfg, n: cfg.N, intIdx: map[int64]int{}, strIdx: map[string]int{}, ev: map[int]int{}, last: -1}
	r := rand.New(rand.NewSource(cfg.Seed))
	special := []int64{0, -1, 1, -1 << 63, 1<<63 - 1, 1 << 32, -1 << 32, 0xFFFFFFFF, 0xFFFF, 0x10000, 0xFFFF0000, 3<<32 | 1, 1<<32 | 1, 1<<48 | 1<<16, -2}
	r.Shuffle(len(special), func(i, j int) { special[i], special[j] = special[j], special[i] })
	for len(w.ints) < w.n {
		var k int64
		switch i := len(w.ints); {
		case i < len(special) && r.Intn(2) == 0:
			k = special[i]
		case r.Intn(3) == 0:
			k = int64(r.Intn(4*w.n)) - int64(w.n)
		case r.Intn(2) == 0:
			k = int64(uint64(r.Intn(w.n+4)) << 32)
		default:
			k = int64(r.Uint64())
		}
		if _, dup := w.intIdx[k]; !dup {
			w.intIdx[k] = len(w.ints)
			w.ints = append(w.ints, k)
		}
	}
	for len(w.strs) < w.n {
		var k string
		switch r.Intn(6) {
		case 0:
			k = ""
		case 1:
			k = "^" + string(make([]byte, r.Intn(4)))
		case 2:
			k = fmt.Sprintf("^%d", r.Intn(2*w.n))
		case 3:
			k = fmt.Sprintf("^\xff\x80%c%d", rune(r.Intn(3)), r.Intn(2*w.n))
		case 4:
			b := make([]byte, r.Intn(200))
			for i := range b {
				b[i] = byte('a' + r.Intn(26))
			}
			k = "^" + string(b)
		default:
			k = fmt.Sprintf("^k%x", r.Uint32())
		}
		if _, dup := w.strIdx[k]; !dup {
			w.strIdx[k] = len(w.strs)
			w.strs = append(w.strs, k)
		}
	}
	for i, l := range cfg.Events {
		w.ev[l] = i
		if l > w.last {
			w.last = l
		}
	}
	return w
}

// digits gives 16 digits for rehash iter of the key with identity u.
func (w *World) digits(u uint64, iter uint64) uint64 {
	if w.cfg.Events == nil {
		return mix(u, iter+77)
	}
	var h uint64
	for j := 0; j < 16; j++ {
		l := int(iter)*16 + j
		var d uint64
		if i, ok := w.ev[l]; ok {
			d = mix(mix(u, 1000+uint64(i)), uint64(w.cfg.Seed)) % uint64(w.cfg.Alpha)
			if w.cfg.Alpha < 16 {
				d = (d*5 + mix(uint64(l), uint64(w.cfg.Seed))) & 15
			}
		} else if l > w.last {
			d = mix(u, uint64(l)) & 15
		} else {
			d = mix(uint64(l), uint64(w.cfg.Seed)) & 15
		}
		h |= d << (4 * j)
	}
	return h
}

// hash stands for the hash of some content under a seed (see maphash overlay).
func (w *World) hash(fam string, seed uint64, content []byte) uint64 {
	unit := 0
	switch fam {
	case "int":
		unit = 8
	case "arr":
		unit = 64
	default:
		c := 0
		for _, b := range content {
			if b == '^' {
				c++
			}
		}
		if c > 0 && len(content)%c == 0 {
			unit = len(content) / c
		}
	}
	if unit == 0 || len(content) == 0 || len(content)%unit != 0 {
		return w.digits(mix(fnv(content), seed), 0)
	}
	return w.digits(mix(fnv(content[:unit]), seed), uint64(len(content)/unit-1))
}

func (w *World) gkHash(seed maphash.Seed, id int, iter uint) uint64 {
	return w.digits(mix(uint64(id)+12345, seed.VerifVal()), uint64(iter))
}

// keyHash is the hash a key of the family must have for rehash iter.
func (w *World) keyHash(fam string, seed uint64, k int, iter int, enc []byte) uint64 {
	if fam == "gen" {
		return w.digits(mix(uint64(k)+12345, seed), uint64(iter))
	}
	c := make([]byte, 0, (iter+1)*len(enc))
	for i := 0; i <= iter; i++ {
		c = append(c, enc...)
	}
	return w.hash(fam, seed, c)
}

// meanDepth is the mean, over the keys, of the longest digit prefix shared with another.
func meanDepth(ds [][]byte) float64 {
	if len(ds) == 0 {
		return 0
	}
	sort.Slice(ds, func(i, j int) bool { return string(ds[i]) < string(ds[j]) })
	lcp := func(a, b []byte) int {
		i := 0
		for i < len(a) && i < len(b) && a[i] == b[i] {
			i++
		}
		return i
	}
	sum := 0
	for i := range ds {
		m := 0
		if i > 0 {
			m = lcp(ds[i-1], ds[i])
		}
		if i+1 < len(ds) {
			if x := lcp(ds[i], ds[i+1]); x > m {
				m = x
			}
		}
		sum += m
	}
	return float64(sum) / float64(len(ds))
}

func randConfig(r *rand.Rand) Config {
	c := Config{Seed: r.Int63(), N: 2 + r.Intn(30), Alpha: 2 + r.Intn(15)}
	switch r.Intn(8) {
	case 0: // ordinary hash
		c.N = 2 + r.Intn(400)
		return c
	case 1:
		c.N = 2 + r.Intn(5)
	}
	max := []int{2, 4, 8, 15, 16, 17, 20, 33, 34, 60, 150, 225}[r.Intn(12)]
	ne := r.Intn(8)
	set := map[int]bool{}
	for i := 0; i < ne; i++ {
		l := r.Intn(max + 1)
		switch r.Intn(4) {
		case 0:
			l = max
		case 1:
			l = (l + 8) / 16 * 16
			if r.Intn(2) == 0 && l > 0 {
				l--
			}
		}
		set[l] = true
	}
	if r.Intn(3) == 0 { // a run of levels: every branch has several entries
		s := r.Intn(max + 1)
		for i := 0; i < 4; i++ {
			set[s+i] = true
		}
	}
	c.Events = []int{}
	for l := range set {
		c.Events = append(c.Events, l)
	}
	sort.Ints(c.Events)
	if len(c.Events) == 0 {
		c.Events = []int{max}
	}
	return c
}
