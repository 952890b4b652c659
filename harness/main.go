package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/maphash"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type suppliedKey struct {
	name string
	hash func(a int64, b string, s maphash.Seed, n uint) uint64
	eq   func(a, b int64, c, d string) bool
	int  bool
}

var supplied func() []suppliedKey

var (
	props  = flag.String("props", "", "properties to report, comma separated (default all)")
	only   = flag.String("kinds", "", "container kinds, comma separated (default all)")
	seed   = flag.Int64("seed", 1, "")
	dur    = flag.Duration("time", 5*time.Second, "")
	outdir = flag.String("out", ".", "directory for replay files")
	replay = flag.String("replay", "", "replay this file")
	mode   = flag.String("mode", "hist", "hist | laws | race | sep")
)

func wants() map[string]bool {
	m := map[string]bool{}
	for _, p := range strings.Split(*props, ",") {
		if p != "" {
			m[p] = true
		}
	}
	return m
}

type Report struct {
	Mode       string   `json:"mode"`
	Violations []Vio    `json:"violations"`
	Counts     Counts   `json:"counts"`
	Wall       float64  `json:"wall_s"`
	Kinds      []string `json:"kinds"`
}
type Vio struct {
	Property string `json:"property"`
	Message  string `json:"message"`
	Replay   string `json:"replay"`
}

var cur atomic.Value // *History

func emit(r Report) {
	b, _ := json.Marshal(r)
	fmt.Println(string(b))
}

type Replay struct {
	Property string      `json:"property"`
	Message  string      `json:"message"`
	History  *History    `json:"history,omitempty"`
	Law      interface{} `json:"law,omitempty"`
	How      string      `json:"how"`
}

func save(prop, msg string, h *History, law interface{}) string {
	os.MkdirAll(*outdir, 0o755)
	f := filepath.Join(*outdir, prop+".json")
	b, _ := json.MarshalIndent(Replay{prop, msg, h, law, "run: /verif/check --replay " + f}, "", " ")
	os.WriteFile(f, b, 0o644)
	return f
}

func has(fs []Fail, prop string) *Fail {
	for i := range fs {
		if fs[i].Prop == prop {
			return &fs[i]
		}
	}
	return nil
}

// minimize drops steps as long as the property still fails.
func minimize(h *History, prop string) *History {
	end := time.Now().Add(4 * time.Second)
	try := func(ops []Op) bool {
		if time.Now().After(end) {
			return false
		}
		g := *h
		g.Ops = ops
		return has(run(&g, nil), prop) != nil
	}
	ops := append([]Op(nil), h.Ops...)
	for n := len(ops) / 2; n >= 1; {
		cut := false
		for i := 0; i+n <= len(ops); {
			t := append(append([]Op(nil), ops[:i]...), ops[i+n:]...)
			if try(t) {
				ops, cut = t, true
			} else {
				i += n
			}
		}
		if !cut || n > len(ops) {
			n /= 2
		}
	}
	g := *h
	g.Ops = ops
	return &g
}

func main() {
	flag.Parse()
	debug.SetPanicOnFault(true)
	if *replay != "" {
		os.Exit(doReplay())
	}
	switch *mode {
	case "hist":
		hist()
	case "laws":
		laws()
	case "race":
		race()
	case "sep":
		sep()
	}
}

func doReplay() int {
	b, err := os.ReadFile(*replay)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var r Replay
	if json.Unmarshal(b, &r) != nil || r.History == nil {
		fmt.Println("nothing to replay")
		return 2
	}
	watchdog(r.Property)
	cur.Store(r.History)
	if f := has(run(r.History, nil), r.Property); f != nil {
		fmt.Printf("%s fails at step %d: %s\n", r.Property, f.At, f.Msg)
		return 1
	}
	fmt.Println("no failure")
	return 0
}

var report Report

type lawCall struct {
	Key  string
	Iter uint
}

var curLaw atomic.Value // lawCall

func watchdog(prop string) {
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(200 * time.Millisecond)
			p := atomic.LoadInt64(&progress)
			if p != last || p == 0 {
				last, since = p, time.Now()
				continue
			}
			if time.Since(since) > 10*time.Second {
				if l, ok := curLaw.Load().(lawCall); ok && *mode == "laws" {
					msg := fmt.Sprintf("%s at rehash count %d: the hash does not end", l.Key, l.Iter)
					report.Violations = append(report.Violations, Vio{"C12", msg, save("C12", msg, nil, l)})
					emit(report)
					os.Exit(3)
				}
				h, _ := cur.Load().(*History)
				if h == nil {
					h = &History{}
				}
				g := *h
				if int(p) <= len(g.Ops) {
					g.Ops = g.Ops[:p]
				}
				want := wants()
				for _, q := range []string{"C08", "C01", "C02"} {
					if q != "C08" && (q == "C02") != strings.Contains(g.Kind, "Set") {
						continue
					}
					if len(want) == 0 || want[q] {
						f := save(q, "an operation does not end", &g, nil)
						report.Violations = append(report.Violations, Vio{q, "an operation does not end", f})
					}
				}
				if prop != "" {
					fmt.Println(prop, "an operation does not end")
					os.Exit(1)
				}
				emit(report)
				os.Exit(3)
			}
		}
	}()
}

func hist() {
	want := wants()
	start := time.Now()
	var ks []*kindInfo
	for i := range kinds {
		if *only == "" || strings.Contains(","+*only+",", ","+kinds[i].name+",") {
			ks = append(ks, &kinds[i])
			report.Kinds = append(report.Kinds, kinds[i].name)
		}
	}
	report.Mode = "hist"
	watchdog("")
	found := map[string]bool{}
	r := rand.New(rand.NewSource(*seed))
	os.MkdirAll(*outdir, 0o755)
	for n := 0; time.Since(start) < *dur; n++ {
		k := ks[n%len(ks)]
		cfg := randConfig(r)
		h := &History{Kind: k.name, Cfg: cfg, Full: 1}
		m := 20 + r.Intn(6*cfg.N+20)
		if r.Intn(3) == 0 {
			m = 1 + r.Intn(12)
		}
		if cfg.N > 40 {
			h.Full = 40
		}
		h.Ops = genOps(r, k, cfg, m)
		cur.Store(h)
		b, _ := json.Marshal(Replay{History: h, How: "the process died in this history"}) // should a crash take the process down
		os.WriteFile(filepath.Join(*outdir, "current.json"), b, 0o644)
		fs := run(h, &report.Counts)
		report.Counts.Histories++
		for _, f := range fs {
			if found[f.Prop] || (len(want) > 0 && !want[f.Prop]) {
				continue
			}
			found[f.Prop] = true
			g := *h
			if f.At >= 0 && f.At < len(g.Ops) {
				g.Ops = g.Ops[:f.At+1]
				if has(run(&g, nil), f.Prop) == nil {
					g = *h
				}
			}
			mh := minimize(&g, f.Prop)
			msg := f.Msg
			if x := has(run(mh, nil), f.Prop); x != nil {
				msg = x.Msg
			}
			report.Violations = append(report.Violations, Vio{f.Prop, k.name + ": " + msg, save(f.Prop, k.name+": "+msg, mh, nil)})
		}
		if len(want) > 0 && len(found) >= len(want) {
			break
		}
		if len(want) == 0 && len(found) > 0 && time.Since(start) > *dur/2 {
			break
		}
	}
	report.Wall = time.Since(start).Seconds()
	emit(report)
}

// laws checks the supplied key types (C12).
func laws() {
	start := time.Now()
	report.Mode = "laws"
	bad := func(msg string, law interface{}) {
		if len(report.Violations) == 0 {
			report.Violations = append(report.Violations, Vio{"C12", msg, save("C12", msg, nil, law)})
		}
	}
	watchdog("")
	if supplied == nil {
		bad("the supplied key types cannot be used as generic keys", nil)
		emit(report)
		return
	}
	r := rand.New(rand.NewSource(*seed))
	w := newWorld(Config{Seed: *seed, N: 60})
	var content []byte
	sums := 0
	maphash.VerifHash = func(s uint64, c []byte) uint64 {
		content = append(content[:0], c...)
		sums++
		return mix(fnv(c), s)
	}
	iters := []uint{0, 1, 2, 3, 7, 14, 15, 16, 17, 31, 63, 64, 127, 128, 255, 256, 257, 300, 511, 512, 1000, 4095, 4096, 5000, 65535, 65536, 65537}
	for time.Since(start) < *dur && len(report.Violations) == 0 {
		curSeed = r.Uint64() | 1
		maphash.VerifSeed = func() uint64 { return curSeed }
		s := maphash.MakeSeed()
		for _, sk := range supplied() {
			encs := map[string]int{}
			for i := 0; i < w.n; i++ {
				a, b := w.ints[i], w.strs[i]
				name := fmt.Sprintf("%s(%d)", sk.name, a)
				if !sk.int {
					name = fmt.Sprintf("%s(%q)", sk.name, b)
				}
				sums = 0
				curLaw.Store(lawCall{name, 0})
				atomic.AddInt64(&progress, 1)
				h0 := sk.hash(a, b, s, 0)
				if sums == 0 {
					continue // hashes in another way
				}
				enc := string(content)
				if sk.int {
					if j, dup := encs[enc]; dup {
						bad(fmt.Sprintf("Int(%d) and Int(%d) have the same encoding", a, w.ints[j]), []int64{a, w.ints[j]})
					}
					encs[enc] = i
				} else if enc != b {
					bad(name+" hashes other content than its own", b)
				}
				if h0 != mix(fnv([]byte(enc)), curSeed) {
					bad(name+" gives another hash than that of its content under the seed", b)
				}
				for _, n := range iters {
					if uint(len(b)+8)*n > 1<<20 || (n > 300 && i > 4) {
						continue
					}
					curLaw.Store(lawCall{name, n})
					atomic.AddInt64(&progress, 1)
					h := sk.hash(a, b, s, n)
					c := strings.Repeat(enc, int(n)+1)
					if h != mix(fnv([]byte(c)), curSeed) {
						bad(fmt.Sprintf("%s at rehash count %d hashes %d bytes, want %d copies of %d", name, n, len(content), n+1, len(enc)), map[string]interface{}{"key": name, "iter": n})
					}
					report.Counts.Checks++
				}
				if sk.eq == nil {
					continue
				}
				for j := 0; j < w.n; j++ {
					if got := sk.eq(a, w.ints[j], b, w.strs[j]); got != (i == j) {
						bad(fmt.Sprintf("%s equal to key %d of the universe: %v", name, j, got), []interface{}{a, w.ints[j], b, w.strs[j]})
					}
				}
			}
		}
		report.Counts.Histories++
	}
	report.Wall = time.Since(start).Seconds()
	emit(report)
}

// sep: separate containers used by different goroutines; the race detector and
// the models decide.
func sep() {
	start := time.Now()
	r := rand.New(rand.NewSource(*seed))
	for n := 0; time.Since(start) < *dur; n++ {
		k := &kinds[n%len(kinds)]
		if *only != "" && !strings.Contains(","+*only+",", ","+k.name+",") {
			continue
		}
		cfg := randConfig(r)
		w := newWorld(cfg)
		setHash(w, k.fam)
		fmt.Fprintf(os.Stderr, "CASE %s seed %d\n", k.name, cfg.Seed)
		var wg sync.WaitGroup
		var lost atomic.Value
		play := func(c Cont, ops []Op) (bad string) {
			defer func() {
				if e := recover(); e != nil {
					bad = fmt.Sprint("panic: ", e)
				}
			}()
			model := map[int]bool{}
			for _, o := range ops {
				switch o.T {
				case "set", "mod":
					c.Set(o.K, mkV(o.A))
					model[o.K] = true
				case "del":
					c.Del(o.K)
					delete(model, o.K)
				}
			}
			for i := 0; i < w.n; i++ {
				if _, ok := c.Get(i); ok != model[i] {
					return fmt.Sprintf("a key is found %v, stored %v", ok, model[i])
				}
			}
			return ""
		}
		seeds, all := make([]uint64, 3), make([][]Op, 3)
		for g := range all {
			seeds[g] = r.Uint64() | 1
			curSeed = seeds[g]
			c := k.make(w)
			all[g] = genOps(r, k, cfg, 10+r.Intn(200))
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				if bad := play(c, all[g]); bad != "" {
					lost.Store(bad)
				}
			}(g)
		}
		wg.Wait()
		if x := lost.Load(); x != nil {
			alone := false // does it fail without the other containers?
			for g := range all {
				curSeed = seeds[g]
				alone = alone || play(k.make(w), all[g]) != ""
			}
			if !alone {
				msg := k.name + ": separate containers used at the same time: " + x.(string)
				report.Violations = append(report.Violations, Vio{"C14", msg, save("C14", msg, nil, cfg)})
				break
			}
		}
		report.Counts.Histories++
	}
	report.Mode = "sep"
	report.Wall = time.Since(start).Seconds()
	emit(report)
}

// race: lookups and iteration from several goroutines; the race detector decides.
func race() {
	start := time.Now()
	r := rand.New(rand.NewSource(*seed))
	for n := 0; time.Since(start) < *dur; n++ {
		k := &kinds[n%len(kinds)]
		if *only != "" && !strings.Contains(","+*only+",", ","+k.name+",") {
			continue
		}
		cfg := randConfig(r)
		h := &History{Kind: k.name, Cfg: cfg, Reads: true}
		h.Ops = append(genOps(r, k, cfg, 10+r.Intn(200)), Op{T: "snap"}, Op{T: "conc"})
		b, _ := json.Marshal(Replay{Property: "C09", History: h, How: "concurrent lookups and iterations race at the end of this history"})
		os.WriteFile(filepath.Join(*outdir, "current.json"), b, 0o644)
		fmt.Fprintf(os.Stderr, "CASE %s seed %d\n", k.name, cfg.Seed)
		if f := has(run(h, &report.Counts), "C09"); f != nil {
			g := *h
			g.Ops = g.Ops[:len(g.Ops)-1]
			report.Violations = append(report.Violations, Vio{"C09", f.Msg, save("C09", f.Msg, minimize(&g, "C09"), nil)})
			break
		}
		report.Counts.Histories++
	}
	runtime.KeepAlive(r)
	report.Mode = "race"
	report.Wall = time.Since(start).Seconds()
	emit(report)
}
