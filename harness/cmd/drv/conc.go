package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"addrsverif/api"
)

// Histories of overlapping calls on one mutable object, for ConcTrace.tla.
//
// Nested histories are deterministic: the library asks its arguments for
// their prefix or set, and the comparison for its verdict, in the middle of a
// call, and the answer first performs other calls, to completion. Free
// histories come from goroutines.

type cobj struct {
	h    *H
	kind string // "t" or "s"
	mt   []api.MTable
	ms   []api.MSet
	ids  int
	dep  int
	max  int
	rec  func(M)
	busy int // nested calls left
	// the initial contents, and another object, which isn't modified
	oldT    api.Table
	oldS    api.Set
	otherT  api.MTable
	other   api.MSet
	otherRs []interface{}
}

type cop struct {
	o   string
	p   P
	arg string
	v   int
	y   api.SArg
	l   int
	of  bool // of the other object
}

var tcops = []string{"ins", "ins", "iou", "iou", "upd", "goi", "rem", "rem", "rem", "get", "lpm", "num", "list", "old", "agg", "map", "diff"}
var scops = []string{"ins", "ins", "ins", "ins", "rem", "rem", "rem", "rem", "list", "contains", "empty", "u", "i", "d", "snum", "old", "ou", "oi", "od", "oc", "pc", "snp", "swr", "swp", "sfind"}

func (c *cobj) choose(r *rand.Rand) cop {
	h := c.h
	if c.kind == "t" {
		q := cop{o: tcops[r.Intn(len(tcops))], p: h.pool[r.Intn(len(h.pool))], v: 1 + r.Intn(3)}
		if q.p.L == h.w && r.Intn(2) == 0 {
			q.arg = "a"
		} else {
			q.arg = "p"
		}
		if q.o == "lpm" && r.Intn(2) == 0 {
			q.p.L = h.w
		}
		return q
	}
	q := cop{o: scops[r.Intn(len(scops))], p: h.pool[r.Intn(len(h.pool))]}
	switch r.Intn(6) {
	case 0:
		q.y = api.SArg{Kind: "a", P: P{A: q.p.A, L: h.w}}
	case 1:
		q.y = api.SArg{Kind: "r", R: api.Rng{X: net(h.w, q.p), Y: last(h.w, q.p)}}
	case 2, 3: // several prefixes at once
		q.y = c.several(r)
	default:
		q.y = api.SArg{Kind: "p", P: q.p}
	}
	q.l = max(0, min(h.w+1, q.p.L-2+r.Intn(6)))
	if r.Intn(4) == 0 {
		q.l = h.w
	}
	switch q.o {
	case "ou", "oi", "od", "oc":
		if r.Intn(2) == 0 { // the operand is the object itself
			q.y = api.SArg{Kind: "m", M: c.ms[0]}
		}
	}
	return q
}

// several is a set of some prefixes of the pool, immutable or not, or the
// range from one of them to another.
func (c *cobj) several(r *rand.Rand) api.SArg {
	h := c.h
	if p, q := h.pool[r.Intn(len(h.pool))], h.pool[r.Intn(len(h.pool))]; r.Intn(3) == 0 {
		if x, y := net(h.w, p), last(h.w, q); !lt(y, x) {
			return api.SArg{Kind: "r", R: api.Rng{X: x, Y: y}}
		}
	}
	m := h.f.NewSet()
	for n := 2 + r.Intn(3); n > 0; n-- {
		m.Insert(api.SArg{Kind: "p", P: h.pool[r.Intn(len(h.pool))]})
	}
	a := api.SArg{Kind: "m", M: m, RS: []api.Rng{}}
	m.Snap().WalkR(func(g api.Rng) bool { a.RS = append(a.RS, g); return true })
	if r.Intn(3) > 0 {
		a.Kind, a.S = "s", m.Snap()
	}
	return a
}

func (c *cobj) callEvent(id int, q cop) M {
	e := M{"op": "call", "c": id, "k": c.kind, "o": q.o}
	if c.kind == "t" {
		e["p"], e["v"] = c.h.jp(q.p), q.v
	} else {
		e["y"] = c.h.jsarg(q.y, 0)
		switch q.o {
		case "eq", "eqr":
			e["rs"] = c.otherRs
		case "pc":
			e["p"] = c.h.jp(q.p)
		case "snp", "sfind":
			e["l"] = q.l
		}
	}
	if q.of {
		e["of"] = c.otherRs
	}
	return e
}

// do performs the call and fills in the event of its return. cb is called
// when the library looks at the argument, or for each item listed.
func (c *cobj) do(hnd int, q cop, e M, cb func()) {
	h := c.h
	defer func() {
		if x := recover(); x != nil {
			s, isStr := x.(string)
			e["pan"] = 3
			if isStr && !strings.HasPrefix(s, "harness:") {
				e["pan"] = 1
			}
			e["msg"] = fmt.Sprint(x)
		}
	}()
	e["pan"] = 0
	if c.kind == "t" {
		t := c.mt[hnd]
		if q.of {
			t = c.otherT
		}
		a := api.PArg{Kind: q.arg, P: q.p, CB: cb}
		e["r"] = true
		switch q.o {
		case "ins":
			e["r"] = t.Insert(a, q.v)
		case "upd":
			e["r"] = t.Update(a, q.v)
		case "iou":
			t.InsertOrUpdate(a, q.v)
		case "goi":
			e["v"] = t.GetOrInsert(a, q.v)
		case "rem":
			e["r"] = t.Remove(a)
		case "get":
			v, ok := t.Get(a)
			e["v"], e["found"] = v, ok
		case "lpm":
			v, ok, p := t.LPM(a)
			e["v"], e["found"], e["q"] = v, ok, h.jp(p)
		case "num":
			e["r"] = t.Num()
		case "list":
			s := t.Snap()
			if cb != nil {
				s.Walk(func(P, int) bool { cb(); return true })
			}
			muted(func() { e["out"], _ = h.walkOf(s, 0) })
		case "old":
			e["out"], _ = h.walkOf(c.oldT, 0)
		case "agg":
			z := t.Snap().Agg()
			muted(func() { e["out"], _ = h.walkOf(z, 0) })
		case "map":
			z := t.Snap().Map(func(_ P, v int) int {
				if cb != nil {
					cb()
				}
				return v + 1
			})
			muted(func() { e["out"], _ = h.walkOf(z, 0) })
		case "diff":
			out := []interface{}{}
			t.Snap().Diff(c.oldT, [4]bool{true, true, true, true}, func(d api.DiffRep) bool {
				if cb != nil {
					cb()
				}
				muted(func() { out = append(out, []interface{}{d.D, h.jp(d.P)}) })
				return true
			})
			e["out"] = out
		}
		return
	}
	s := c.ms[hnd]
	if q.of {
		s = c.other
	}
	y := q.y
	if y.Kind == "m" && y.RS == nil {
		y.M = s
	}
	y.CB = cb
	e["r"] = true
	switch q.o {
	case "ins":
		s.Insert(y)
	case "rem":
		s.Remove(y)
	case "contains":
		e["r"] = s.Contains(y)
	case "empty":
		e["r"] = s.IsEmpty()
	case "u", "i", "d":
		z := s.Alg(q.o, y)
		muted(func() { e["out"], _ = h.listOf(z, 0) })
	case "ou", "oi", "od":
		z := c.oldS.Alg(q.o[1:], y)
		muted(func() { e["out"], _ = h.listOf(z, 0) })
	case "oc":
		e["r"] = c.oldS.Contains(y)
	case "pc": // of an immutable operand: does it contain this set?
		e["r"] = h.f.Contains(api.SArg{Kind: "p", P: q.p}, api.SArg{Kind: "m", M: s, CB: cb})
	case "eq":
		e["r"] = s.Equal(c.other)
	case "eqr":
		e["r"] = c.other.Equal(s)
	case "old":
		e["out"], _ = h.listOf(c.oldS, 0)
	case "snum":
		e["r"] = []int{-1}
		if n := s.NumAddresses(); n >= 0 { // -1: not offered by the family
			e["r"] = big(uint64(n))
		}
	case "snp":
		n, err := s.Snap().NumPrefixes(uint32(q.l))
		e["r"], e["err"] = big(n), err != nil
	case "swr":
		out := []interface{}{}
		s.Snap().WalkR(func(g api.Rng) bool {
			if cb != nil {
				cb()
			}
			muted(func() { out = append(out, h.jr(g)) })
			return true
		})
		e["out"] = out
	case "swp":
		out := []interface{}{}
		s.Snap().WalkP(func(p P) bool {
			if cb != nil {
				cb()
			}
			muted(func() { out = append(out, h.jp(p)) })
			return true
		})
		e["out"] = out
	case "sfind":
		p, err := s.Snap().Find(y, uint32(q.l))
		e["q"], e["err"] = h.jp(p), err != nil
	case "list":
		z := s.Snap()
		if cb != nil {
			z.WalkP(func(P) bool { cb(); return true })
		}
		muted(func() { e["out"], _ = h.listOf(z, 0) })
	}
}

// nested performs one call with other calls in the middle of it.
func (c *cobj) nested() {
	r := c.h.r
	q := c.choose(r)
	c.ids++
	id := c.ids
	c.rec(c.callEvent(id, q))
	c.dep++
	n := 0
	cb := func() {
		if c.dep <= c.max && c.busy > 0 && n == 0 && r.Intn(16) == 0 {
			n = 3
			c.busy--
			c.many()
			return
		}
		if c.dep <= c.max && c.busy > 0 && n < 3 && r.Intn(3) > 0 {
			n++
			c.busy--
			c.nested()
			if r.Intn(3) == 0 && c.busy > 0 {
				c.busy--
				c.nested()
			}
		}
	}
	e := M{"op": "ret", "c": id}
	hnd := r.Intn(2)
	outer := c.h.cmpCB
	c.h.cmpCB = cb
	c.do(hnd, q, e, cb)
	c.h.cmpCB = outer
	c.dep--
	c.rec(e)
}

// many makes 2^8 or 2^16 modifications by a cycle of two, of which the last
// is recorded (the others lead back to where it begins).
func (c *cobj) many() {
	r := c.h.r
	p := c.h.pool[r.Intn(len(c.h.pool))]
	x := cop{o: "iou", p: p, arg: "p", v: 8, y: api.SArg{Kind: "p", P: p}}
	y := x
	y.v = 9
	if c.kind == "s" {
		x.o, y.o = "ins", "rem"
		if r.Intn(2) == 0 {
			x.o, y.o = "rem", "ins"
		}
	}
	n := 128
	if r.Intn(4) == 0 {
		n = 32768
	}
	outer := c.h.cmpCB
	c.h.cmpCB = nil
	defer func() { c.h.cmpCB = outer }()
	hnd := r.Intn(2)
	for k := 1; k <= n; k++ {
		for _, q := range []cop{x, y} {
			e := M{"op": "ret"}
			c.do(hnd, q, e, nil)
			if k == n || e["pan"] != 0 {
				c.ids++
				e["c"] = c.ids
				c.rec(c.callEvent(c.ids, q))
				c.rec(e)
			}
			if e["pan"] != 0 {
				return
			}
		}
	}
}

func newCobj(h *H, hook bool) *cobj {
	c := &cobj{h: h, kind: "t"}
	if h.r.Intn(3) == 0 {
		c.kind = "s"
	}
	if c.kind == "t" {
		h.kind, h.m = 0, 0
		if h.r.Intn(2) == 0 {
			h.kind = 10
			h.m = []int{0, 2}[h.r.Intn(2)]
		}
		var hk api.CmpHook
		if hook {
			hk = func(a, b int) {
				if h.cmpCB != nil {
					h.cmpCB()
				}
			}
		}
		t := h.f.NewTable(h.kind, h.m, hk)
		c.mt = []api.MTable{t, t.Copy()}
	} else {
		s := h.f.NewSet()
		c.ms = []api.MSet{s, s.Copy()}
	}
	return c
}

// keep remembers the contents as the old ones, and returns them.
func (c *cobj) keep() []interface{} {
	if c.kind == "t" {
		c.oldT = c.mt[0].Snap()
	} else {
		c.oldS = c.ms[0].Snap()
	}
	return c.contents()
}

// makeOther makes another object, with something more or less than the initial contents.
func (c *cobj) makeOther() {
	h, r := c.h, c.h.r
	p := h.pool[r.Intn(len(h.pool))]
	if c.kind == "t" {
		c.otherT = c.oldT.Mut()
		for k := 1 + r.Intn(2); k > 0; k-- {
			if a := (api.PArg{Kind: "p", P: p}); r.Intn(2) == 0 {
				c.otherT.Remove(a)
			} else {
				c.otherT.InsertOrUpdate(a, 1+r.Intn(5))
			}
			p = h.pool[r.Intn(len(h.pool))]
		}
		c.otherRs, _ = h.walkOf(c.otherT.Snap(), 0)
		return
	}
	c.other = c.oldS.Mut()
	if y := (api.SArg{Kind: "p", P: p}); r.Intn(2) == 0 {
		c.other.Remove(y)
	} else {
		c.other.Insert(y)
	}
	c.listOther()
}

func (c *cobj) listOther() {
	c.otherRs = []interface{}{}
	c.other.Snap().WalkR(func(g api.Rng) bool { c.otherRs = append(c.otherRs, c.h.jr(g)); return true })
}

// mayBeOf says whether the call can as well be made of the other object
func (q cop) mayBeOf() bool {
	for _, o := range append(tasks[:len(tasks):len(tasks)], sasks...) {
		if q.o == o {
			return true
		}
	}
	return false
}

// populate inserts up to n entries
func (c *cobj) populate(n int) {
	r := c.h.r
	for n = r.Intn(n + 1); n > 0; n-- {
		p := c.h.pool[r.Intn(len(c.h.pool))]
		if c.kind == "t" {
			c.mt[0].Insert(api.PArg{Kind: "p", P: p}, 1+r.Intn(3))
		} else {
			c.ms[0].Insert(api.SArg{Kind: "p", P: p})
		}
	}
}

func (c *cobj) contents() []interface{} {
	if c.kind == "t" {
		out, _ := c.h.walkOf(c.mt[0].Snap(), 0)
		return out
	}
	out := []interface{}{}
	c.ms[0].Snap().WalkR(func(r api.Rng) bool { out = append(out, c.h.jr(r)); return true })
	return out
}

// nestedRun is a deterministic history.
func nestedRun(h *H, n, i int) {
	h.pool = genPool(h.r, h.w, 3+h.r.Intn(4), 4)
	c := newCobj(h, true)
	c.max = 1 + h.r.Intn(3)
	c.populate(3)
	h.extra = M{"k": c.kind, "m": h.m, "init": c.keep()}
	c.rec = func(e M) {
		h.ev = append(h.ev, e)
	}
	for len(h.ev) < n {
		c.busy = 1 + h.r.Intn(4)
		h.cmpCB = nil
		e := M{"op": "nested"}
		h.call(e, c.nested)
		h.cmpCB = nil
		c.dep = 0
	}
	c.ids++
	q := cop{o: "list"}
	c.rec(c.callEvent(c.ids, q))
	e := M{"op": "ret", "c": c.ids}
	c.do(0, q, e, nil)
	c.rec(e)
}

// freeRuns performs rounds of goroutines on one object. Every round is one
// history; put gets those that are not repetitions and have an overlap.
func freeRuns(h *H, rounds int, put func(h *H, init M)) {
	seen := map[string]bool{}
	h.pool = genPool(h.r, h.w, 3+h.r.Intn(3), 4)
	c := newCobj(h, false)
	type rec struct {
		t int64
		e M
	}
	for round := 0; round < rounds; round++ {
		if round%50 == 49 {
			h.pool = genPool(h.r, h.w, 3+h.r.Intn(3), 4)
			c = newCobj(h, false)
		}
		before := c.keep()
		c.makeOther()
		procs := 2 + h.r.Intn(3)
		per := 1 + h.r.Intn(2)
		recs := make([][]rec, procs)
		var clock int64
		var wg sync.WaitGroup
		start := make(chan bool)
		for p := 0; p < procs; p++ {
			p := p
			r := rand.New(rand.NewSource(h.r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for k := 0; k < per; k++ {
					q := c.choose(r)
					q.of = q.mayBeOf() && r.Intn(3) == 0
					id := p*per + k + 1
					spin := r.Intn(4)
					cb := func() {
						for s := 0; s < spin; s++ {
							runtime.Gosched()
						}
					}
					ev := c.callEvent(id, q)
					recs[p] = append(recs[p], rec{atomic.AddInt64(&clock, 1), ev})
					e := M{"op": "ret", "c": id}
					c.do(p%2, q, e, cb)
					recs[p] = append(recs[p], rec{atomic.AddInt64(&clock, 1), e})
				}
			}()
		}
		close(start)
		wg.Wait()
		all := []rec{}
		for _, x := range recs {
			all = append(all, x...)
		}
		sort.Slice(all, func(i, j int) bool { return all[i].t < all[j].t })
		ev := []M{}
		overlap, open := false, 0
		for _, x := range all {
			ev = append(ev, x.e)
			if x.e["op"] == "call" {
				open++
				overlap = overlap || open > 1
			} else {
				open--
			}
		}
		ids := map[int]int{} // number the calls in the order in which they appear
		for _, x := range ev {
			old := x["c"].(int)
			if _, ok := ids[old]; !ok {
				ids[old] = len(ids) + 1
			}
			x["c"] = ids[old]
		}
		q := cop{o: "list"}
		e := M{"op": "ret", "c": 99}
		c.do(0, q, e, nil)
		ev = append(ev, c.callEvent(99, q), e)
		k, _ := json.Marshal([]interface{}{before, ev})
		if !overlap || seen[string(k)] {
			continue
		}
		seen[string(k)] = true
		h.ev = ev
		put(h, M{"k": c.kind, "m": h.m, "init": before})
	}
}

// raceRuns lets goroutines loose without any synchronization of its own, for
// the race detector to watch.
func raceRuns(h *H, rounds int) {
	for round := 0; round < rounds; round++ {
		h.pool = genPool(h.r, h.w, 3+h.r.Intn(3), 4)
		c := newCobj(h, false)
		c.populate(5)
		c.keep()
		c.makeOther()
		var wg sync.WaitGroup
		start := make(chan bool)
		for p := 0; p < 4; p++ {
			p := p
			r := rand.New(rand.NewSource(h.r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for k := 0; k < 12; k++ {
					q := c.choose(r)
					q.of = q.mayBeOf() && r.Intn(2) == 0
					c.do(p%2, q, M{}, nil)
				}
			}()
		}
		close(start)
		wg.Wait()
	}
}
