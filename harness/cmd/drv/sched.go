package main

import (
	"encoding/json"
	"math/rand"
	"sync/atomic"
	"time"

	"addrsverif/api"
)

// Systematic schedules, for ConcTrace.tla. The library is compiled with a
// scheduling point before every statement (cmd/instr); only one of the
// overlapping calls runs at a time, and a plan says after how many points which
// other one goes on. All plans with one preemption are tried, and many with
// two or three.

type thread struct {
	ops   []cop
	wake  chan bool
	n     int // points passed
	since int // at which it was last resumed
	done  bool
	q     cop
	e     M // of the return of the call in progress
}

// reads must not wait for other calls; of modifications that is not said
func (q cop) reads() bool {
	switch q.o {
	case "ins", "upd", "iou", "goi", "rem":
		return false
	}
	return true
}

// seg lets thread t run for n points, or to its end (n = 0).
type seg struct{ t, n int }

type sched struct {
	th    []*thread
	plan  []seg
	left  int
	cur   *thread
	quiet bool
	steps int64 // to see that it moves
	end   chan bool
	ev    []M
	stuck bool // a call waits for one that is paused
}

var sch *sched // nil: the points do nothing
var schedOver bool

func schedPoint() {
	s := sch
	if s == nil || s.quiet {
		return
	}
	t := s.cur
	t.n++
	atomic.AddInt64(&s.steps, 1)
	if s.left > 0 {
		s.left--
		if s.left == 0 {
			s.next(t)
		}
	} else if t.n-t.since > 300000 { // it spins
		if t.q.reads() && t.e != nil {
			t.e["waits"] = true
		}
		s.next(t)
		t.since = t.n
	}
}

// next passes the control on; t is the thread that has it, and waits unless it is done.
func (s *sched) next(t *thread) {
	var to *thread
	for to == nil && len(s.plan) > 0 {
		g := s.plan[0]
		s.plan = s.plan[1:]
		if !s.th[g.t].done {
			to, s.left = s.th[g.t], g.n
		}
	}
	if to == nil {
		s.left = 0
		for _, x := range s.th {
			if !x.done && (to == nil || to == t) {
				to = x
			}
		}
	}
	if to == nil {
		s.end <- true
		return
	}
	to.since = to.n
	if to == t {
		return
	}
	s.cur = to
	to.wake <- true
	if !t.done {
		<-t.wake
	}
}

// muted runs f without scheduling points.
func muted(f func()) {
	if sch == nil {
		f()
		return
	}
	sch.quiet = true
	defer func() { sch.quiet = false }()
	f()
}

// runPlan performs the calls of the threads on c.
func (c *cobj) runPlan(progs [][]cop, plan []seg) *sched {
	s := &sched{end: make(chan bool, 1)}
	ids := 0
	for k, ops := range progs {
		k, t := k, &thread{ops: ops, wake: make(chan bool, 1)}
		s.th = append(s.th, t)
		go func() {
			<-t.wake
			for _, q := range t.ops {
				ids++
				id := ids
				s.ev = append(s.ev, c.callEvent(id, q))
				e := M{"op": "ret", "c": id}
				t.q, t.e = q, e
				c.do(k%2, q, e, nil)
				if e["waits"] == true {
					e["pan"] = 9
				}
				s.ev = append(s.ev, e)
				t.e = nil
			}
			t.done = true
			s.next(t)
		}()
	}
	s.plan = plan[1:]
	s.cur, s.left = s.th[plan[0].t], plan[0].n
	sch = s
	s.cur.wake <- true
	last, same := int64(-1), 0
	tick := time.NewTimer(time.Hour)
	if !tick.Stop() {
		<-tick.C
	}
	for {
		tick.Reset(500 * time.Millisecond)
		select {
		case <-s.end:
			tick.Stop()
			sch = nil
			return s
		case <-tick.C:
			if n := atomic.LoadInt64(&s.steps); n != last {
				last, same = n, 0
			} else if same++; same == 40 {
				// the call in progress waits for a paused one: its goroutines are lost
				s.stuck = true
				if t := s.cur; t.q.reads() && t.e != nil {
					s.ev = append(s.ev, M{"op": "ret", "c": t.e["c"], "pan": 9})
				} else {
					s.ev = nil
				}
				sch = nil
				return s
			}
		}
	}
}

// sprog chooses calls; those that modify conflict often.
func (c *cobj) sprog(r *rand.Rand) cop {
	for {
		q := c.choose(r)
		switch r.Intn(12) {
		case 0:
			q.o = "old"
		case 1:
			if c.kind == "s" {
				q.o = []string{"eq", "eqr"}[r.Intn(2)]
			}
		}
		return q
	}
}

// questions that can be asked of any object
var tasks = []string{"get", "lpm", "num", "agg", "map", "diff", "list"}
var sasks = []string{"contains", "empty", "u", "i", "d", "snum", "snp", "swr", "swp", "sfind", "list"}
var twins int

func schedRuns(h *H, budget int, put func(h *H, init M)) {
	if !installPoints(schedPoint) {
		panic("harness: built without scheduling points")
	}
	r := h.r
	h.pool = genPool(r, h.w, 2+r.Intn(4), 4)
	c := newCobj(h, false)
	c.populate(5)
	// a comparison of sets with a modification that takes the one from a part
	// of the other to more than it, or the other way round
	var cross []cop
	var half P
	if y := h.pool[r.Intn(len(h.pool))]; c.kind == "s" && r.Intn(4) == 0 && y.L < h.w {
		half = P{net(h.w, y), y.L + 1}
		q := cop{o: []string{"ins", "rem"}[r.Intn(2)], p: y, y: api.SArg{Kind: "p", P: y}}
		if q.o == "rem" {
			c.ms[0].Insert(q.y)
		} else {
			c.ms[0].Remove(q.y)
		}
		cross = []cop{q}
	}
	// a modification by several prefixes, all of which change something
	var whole []cop
	if c.kind == "s" && cross == nil && r.Intn(3) == 0 {
		q := cop{o: []string{"ins", "rem"}[r.Intn(2)], p: h.pool[0], y: c.several(r)}
		for try := 0; len(q.y.RS) < 2 && try < 20; try++ {
			q.y = c.several(r)
		}
		if q.o == "rem" {
			c.ms[0].Insert(q.y)
		} else {
			c.ms[0].Remove(q.y)
		}
		whole = []cop{q}
	}
	init := c.keep()
	c.makeOther()
	if c.kind == "s" && cross != nil {
		c.other = c.oldS.Mut()
		if y := (api.SArg{Kind: "p", P: half}); cross[0].o == "rem" {
			c.other.Remove(y)
		} else {
			c.other.Insert(y)
		}
		c.listOther()
	}
	var prime []cop
	fresh := func() {
		if c.kind == "t" {
			m := c.oldT.Mut()
			c.mt = []api.MTable{m, m.Copy()}
		} else {
			m := c.oldS.Mut()
			c.ms = []api.MSet{m, m.Copy()}
		}
		for _, q := range prime {
			c.do(0, q, M{}, nil)
		}
	}
	shape := [][]int{{1, 1}, {1, 1}, {1, 1}, {1, 2}, {1, 2}, {1, 1, 1}, {2, 2}, {1, 3}}[r.Intn(8)]
	progs := make([][]cop, len(shape))
	for k, n := range shape {
		for ; n > 0; n-- {
			progs[k] = append(progs[k], c.sprog(r))
		}
	}
	if cross != nil {
		progs = [][]cop{{{o: []string{"eq", "eqr"}[r.Intn(2)]}}, cross}
	}
	if whole != nil {
		q := c.sprog(r)
		switch r.Intn(5) {
		case 0:
			q = cop{o: "list"}
		case 1:
			q = cop{o: "contains", p: h.pool[0], y: c.several(r)}
		case 2:
			q = cop{o: []string{"ins", "rem", "u", "i", "d"}[r.Intn(5)], p: h.pool[0], y: whole[0].y}
		case 3:
			q = cop{o: "rem", p: h.pool[0], y: c.several(r)}
		}
		progs = [][]cop{whole, {q}}
	}
	if cross == nil && whole == nil && r.Intn(2) == 0 {
		// the same question about two objects, which both may have been asked before
		budget /= 4
		twins++
		q := c.choose(r)
		if c.kind == "t" {
			q.o = tasks[twins%len(tasks)]
		} else {
			q.o = sasks[twins%len(sasks)]
			if q.y.Kind == "m" && q.y.RS == nil {
				q.y = api.SArg{Kind: "p", P: q.p}
			}
		}
		some := func(n int) (l []cop) {
			for ; n > 0; n-- {
				q.of = r.Intn(2) == 0
				l = append(l, q)
			}
			return
		}
		prime = some(r.Intn(2))
		progs = [][]cop{some(1 + r.Intn(2)), some(1)}
		if r.Intn(4) == 0 {
			progs = append(progs, []cop{c.sprog(r)})
		}
	}
	seen := map[string]bool{}
	run := func(plan ...seg) []int {
		if schedOver {
			return make([]int, len(progs))
		}
		fresh()
		s := c.runPlan(progs, plan)
		counts := make([]int, len(s.th))
		if s.stuck {
			schedOver = true
			if h.ev = s.ev; h.ev != nil {
				put(h, M{"k": c.kind, "m": h.m, "init": init})
			}
		}
		if schedOver {
			return counts
		}
		for k, t := range s.th {
			counts[k] = t.n
		}
		id := 90
		q := cop{o: "list"}
		e := M{"op": "ret", "c": id}
		c.do(0, q, e, nil)
		s.ev = append(s.ev, c.callEvent(id, q), e)
		q = cop{o: "old"}
		e = M{"op": "ret", "c": id + 1}
		c.do(0, q, e, nil)
		s.ev = append(s.ev, c.callEvent(id+1, q), e)
		k, _ := json.Marshal(s.ev)
		if !seen[string(k)] {
			seen[string(k)] = true
			h.ev = s.ev
			put(h, M{"k": c.kind, "m": h.m, "init": init})
		}
		return counts
	}
	nt := len(progs)
	n := make([]int, nt)
	for a := 0; a < nt; a++ { // one after another
		k := run(seg{a, 0}, seg{(a + 1) % nt, 0})
		for j := range n {
			n[j] = max(n[j], k[j])
		}
	}
	budget -= nt
	// thread a, up to each of its points, then the others
	for a := 0; a < nt; a++ {
		step := 1 + n[a]*nt/max(1, budget)
		for k := 1 + r.Intn(step); k <= n[a]; k += step {
			b := (a + 1 + r.Intn(nt-1)) % nt
			plan := []seg{{a, k}, {b, 0}}
			if nt == 3 {
				plan = append(plan, seg{3 - a - b, 0})
			}
			run(plan...)
			budget--
		}
	}
	// two or three preemptions
	for ; budget > 0; budget-- {
		var plan []seg
		a := r.Intn(nt)
		for k := 2 + r.Intn(2); k > 0; k-- {
			plan = append(plan, seg{a, 1 + r.Intn(n[a]+1)})
			a = (a + 1 + r.Intn(nt-1)) % nt
		}
		run(append(plan, seg{a, 0})...)
	}
}
