// Command drv drives the real library through its public API with seeded
// pseudo-random histories and records every call with its arguments and
// results, one history per line, for validation against spec/StoreTrace.tla.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"sync/atomic"
	"time"

	"addrsverif/api"
	"addrsverif/fam4"
	"addrsverif/fam6"
)

// M is one event.
type M map[string]interface{}

// H is one history under construction.
type H struct {
	r    *rand.Rand
	f    api.Fam
	w    int
	pr   *profile
	ev   []M
	pool []P
	kind int
	m    int
	// objects, in creation order (handle i is index i-1)
	mixed  bool // tables compare values in different ways
	T      []api.Table
	MT     []api.MTable
	zeroMT []bool
	S      []api.Set
	MS     []api.MSet
	zeroMS []bool
	// comparison monitoring
	cmps   int
	alien  int
	known  map[int]bool
	depth  int
	inWalk bool // in a walk whose callback may perform further steps
	// calls in callbacks: how deep they are, may be, and how many are left
	nest, nestMax, budget int
	long                  int // long runs yet to be made
	// histories of overlapping calls
	cmpCB func()
	fault int // the callback that is to panic, counting down
	fired bool
	boom  interface{} // what it panics with
	lastQ *P
	all   bool // use all of the pool
	big   bool // tables and sets of hundreds of entries
	extra M
}

var (
	opStart int64 // unix nanos of the call in flight, 0 when none
	opEvent atomic.Value
	curHist atomic.Value
)

// call runs one library call, catching a panic. It returns the event's pan
// field: 0 or 1.
func (h *H) call(e M, f func()) {
	opEvent.Store(&e)
	outer := atomic.SwapInt64(&opStart, time.Now().UnixNano())
	defer func() {
		atomic.StoreInt64(&opStart, outer)
		x := recover()
		switch {
		case x != nil && h.fired && x == h.boom:
			e["pan"] = 3 // the panic of a callback came out
		case x != nil && h.fired:
			e["pan"] = 5 // something else came out
			e["msg"] = fmt.Sprint(x)
		case x != nil:
			e["pan"] = 1
			e["msg"] = fmt.Sprint(x)
		case h.fired:
			e["pan"] = 4 // the panic of a callback was swallowed
		}
		h.fired = false
		e["al"] = h.alien
	}()
	e["pan"] = 0
	e["al"] = 0
	f()
}

type boomVal struct{ n int }

// booms are the values that callbacks panic with: all comparable
var booms = func() []interface{} {
	r := []interface{}{"planted in a callback", fmt.Errorf("planted"), boomVal{7}, &boomVal{8}, 9, io.EOF}
	func() {
		defer func() { r = append(r, recover()) }()
		var t []int
		_ = t[len(r)]
	}()
	func() {
		defer func() { r = append(r, recover()) }()
		var m map[string]int
		m["x"] = 1
	}()
	return r
}()

// tick is called in everything the library calls back.
func (h *H) tick() {
	if h.fault > 0 {
		h.fault--
		if h.fault == 0 {
			h.fired = true
			h.boom = booms[h.r.Intn(len(booms))]
			panic(h.boom)
		}
	}
}

func (h *H) emit(e M) {
	for k, v := range e {
		if x, ok := v.([]interface{}); v == nil || ok && x == nil { // the JSON module of TLC knows no null
			e[k] = []interface{}{}
		}
	}
	h.ev = append(h.ev, e)
}

// ---- encoding

func (h *H) limbs(a A) []int {
	if h.w == 32 {
		return []int{int(a.Lo >> 16 & 0xffff), int(a.Lo & 0xffff)}
	}
	r := make([]int, 8)
	for i := 0; i < 4; i++ {
		r[i] = int(a.Hi >> (48 - 16*i) & 0xffff)
		r[4+i] = int(a.Lo >> (48 - 16*i) & 0xffff)
	}
	return r
}
func (h *H) jp(p P) []interface{}       { return []interface{}{h.limbs(p.A), p.L} }
func (h *H) jr(r api.Rng) []interface{} { return []interface{}{h.limbs(r.X), h.limbs(r.Y)} }
func big(v uint64) []int {
	r := []int{}
	for ; v != 0; v >>= 16 {
		r = append(r, int(v&0xffff))
	}
	return r
}
func (h *H) jsarg(a api.SArg, idx int) M {
	m := M{"k": a.Kind}
	switch a.Kind {
	case "a":
		m["a"] = h.limbs(a.P.A)
	case "p":
		m["p"] = h.jp(a.P)
	case "r":
		m["x"], m["y"] = h.limbs(a.R.X), h.limbs(a.R.Y)
	case "s", "m":
		m["h"] = idx
	}
	if a.RS != nil { // a set that is known by its ranges
		rs := []interface{}{}
		for _, r := range a.RS {
			rs = append(rs, h.jr(r))
		}
		m["k"], m["rs"] = "rs", rs
	}
	return m
}

type line struct {
	N    int         `json:"n"`
	ID   string      `json:"id"`
	K    interface{} `json:"k,omitempty"`
	M    interface{} `json:"m,omitempty"`
	Init interface{} `json:"init,omitempty"`
	Ev   []M         `json:"ev"`
}

func main() {
	prof := flag.String("profile", "table", "")
	seed := flag.Int64("seed", 1, "")
	fam := flag.String("fam", "0", "4, 6 or 0 for both alternately")
	hist := flag.Int("hist", 10, "number of histories")
	first := flag.Int("first", 0, "index of the first history")
	length := flag.Int("len", 40, "steps per history")
	out := flag.String("out", "", "")
	gent := flag.String("gent", "", "the behaviours of GenTables")
	gens := flag.String("gens", "", "the behaviours of GenSets")
	full := flag.Bool("full", false, "replay whole scopes")
	flag.Parse()
	if strings.HasPrefix(*prof, "rep:") {
		runRep((*prof)[4:], *seed, *hist, *fam, *full, *gent, *gens)
		return
	}
	pr, ok := profiles[strings.TrimSuffix(*prof, "+")]
	if !ok && *prof != "free" && *prof != "race" && *prof != "burst" && *prof != "cycle" && *prof != "sched" {
		fmt.Fprintln(os.Stderr, "no such profile")
		os.Exit(2)
	}
	fd, err := os.Create(*out)
	if err != nil {
		panic(err)
	}
	wr := bufio.NewWriter(fd)
	enc := json.NewEncoder(wr)
	enc.SetEscapeHTML(false)
	put := func(h *H, id string) {
		ln := line{N: h.w / 16, ID: id, Ev: h.ev}
		if h.extra != nil {
			ln.K, ln.M, ln.Init = h.extra["k"], h.extra["m"], h.extra["init"]
		}
		if err := enc.Encode(ln); err != nil {
			panic(err)
		}
	}
	go func() { // watchdog: a call that never returns becomes its own event
		for {
			time.Sleep(200 * time.Millisecond)
			s := atomic.LoadInt64(&opStart)
			hung := s != 0 && time.Since(time.Unix(0, s)) > 30*time.Second
			if !hung {
				var ms runtime.MemStats
				runtime.ReadMemStats(&ms)
				hung = s != 0 && ms.HeapAlloc > 6<<30
			}
			if hung {
				h := curHist.Load().(*H)
				e := *(opEvent.Load().(*M))
				e2 := M{}
				for k, v := range e {
					e2[k] = v
				}
				e2["pan"], e2["msg"], e2["al"] = 2, "call did not return", 0
				h.ev = append(h.ev, e2)
				put(h, fmt.Sprintf("%s/hang", *prof))
				wr.Flush()
				fd.Close()
				fmt.Println("HANG")
				os.Exit(0)
			}
		}
	}()
	if !ok {
		pr = &profile{}
	}
	for i := *first; i < *first+*hist; i++ {
		f := api.Fam(fam4.F{})
		if *fam == "6" || *fam == "0" && i%2 == 1 {
			f = fam6.F{}
		}
		r := rand.New(rand.NewSource(*seed*1000003 + int64(i)*7919 + 17))
		h := &H{r: r, f: f, w: f.Bits(), pr: pr, known: map[int]bool{}, big: strings.HasSuffix(*prof, "+")}
		curHist.Store(h)
		if *prof == "race" {
			raceRuns(h, *length)
			continue
		}
		if *prof == "burst" || *prof == "cycle" {
			run := burstRuns
			if *prof == "cycle" {
				run = cycleRuns
			}
			run(h, *length)
			put(h, fmt.Sprintf("%s/seed=%d/i=%d", *prof, *seed, i))
			continue
		}
		if *prof == "sched" {
			k := 0
			schedRuns(h, *length, func(h *H, x M) {
				h.extra = x
				put(h, fmt.Sprintf("%s/seed=%d/i=%d.%d", *prof, *seed, i, k))
				k++
			})
			if schedOver {
				break
			}
			continue
		}
		if *prof == "free" {
			freeRuns(h, *length, func(h *H, x M) {
				h.extra = x
				put(h, fmt.Sprintf("%s/seed=%d/i=%d", *prof, *seed, i))
			})
			continue
		}
		pr.run(h, *length, i)
		put(h, fmt.Sprintf("%s/seed=%d/i=%d", *prof, *seed, i))
	}
	if err := wr.Flush(); err != nil {
		panic(err)
	}
	fd.Close()
}
