package main

import (
	"addrsverif/api"
)

// ---- choosing things

func (h *H) pick() P { return h.pool[h.r.Intn(len(h.pool))] }

// noisy adds host bits to a prefix now and then.
func (h *H) noisy(p P) P {
	if h.r.Intn(3) == 0 && p.L < h.w {
		p.A = or(net(h.w, p), and(rndAddr(h.r, h.w), not(h.w, maskOf(h.w, p.L))))
	}
	return p
}

// arg chooses how to pass a prefix.
func (h *H) arg(p P) api.PArg {
	a := h.arg0(p)
	if h.r.Intn(12) == 0 || h.pr.fault && h.r.Intn(3) == 0 {
		a.CB = h.tick // a type of the user's
	}
	return a
}
func (h *H) arg0(p P) api.PArg {
	switch {
	case p.L == h.w && h.r.Intn(2) == 0:
		return api.PArg{Kind: "a", P: p}
	case p.L == 0 && net(h.w, p) == (A{}) && h.r.Intn(2) == 0:
		return api.PArg{Kind: "n", P: P{}}
	}
	return api.PArg{Kind: "p", P: p}
}

// query is a pool prefix or one near the pool, or near the last query.
func (h *H) query() P {
	if h.lastQ != nil && h.r.Intn(4) == 0 {
		q := *h.lastQ
		switch h.r.Intn(4) {
		case 0:
			q.L = h.w
		case 1:
			q.L = h.pick().L
		case 2:
			q.L = max(0, min(h.w, q.L-2+h.r.Intn(5)))
		}
		return q
	}
	q := h.query0()
	h.lastQ = &q
	return q
}
func (h *H) query0() P {
	p := h.pick()
	switch h.r.Intn(8) {
	case 0:
		return P{net(h.w, p), h.w}
	case 1:
		return P{last(h.w, p), h.w}
	case 2:
		if h.r.Intn(2) == 0 {
			return P{succ(h.w, last(h.w, p)), h.w}
		}
		return P{pred(h.w, net(h.w, p)), h.w}
	case 3:
		l := min(h.w, p.L+1+h.r.Intn(4))
		a := or(net(h.w, p), and(A{h.r.Uint64(), h.r.Uint64()}, not(h.w, maskOf(h.w, p.L))))
		return P{a, l}
	case 4:
		return P{p.A, max(0, p.L-1-h.r.Intn(3))}
	case 5:
		return h.noisy(P{rndAddr(h.r, h.w), rndLen(h.r, h.w)})
	}
	return h.noisy(p)
}

func (h *H) val() int {
	v := h.r.Intn(h.pr.vals) + 1
	if h.kind >= 10 && h.kind != 10 && h.r.Intn(8) == 0 {
		v = 0
	}
	if (h.kind == 2 || h.kind == 4) && h.r.Intn(8) == 0 {
		v = 0
	}
	if h.m > 0 && h.r.Intn(2) == 0 {
		v += h.m * h.r.Intn(3)
	}
	h.known[v] = true
	return v
}

func (h *H) hook(a, b int) {
	h.cmps++
	h.reenter()
	if !h.known[a] || !h.known[b] {
		h.alien++
	}
}

// ---- table operations; each returns false if it does not apply

func (h *H) addT(t api.Table)             { h.T = append(h.T, t) }
func (h *H) addM(m api.MTable, zero bool) { h.MT = append(h.MT, m); h.zeroMT = append(h.zeroMT, zero) }

func (h *H) tNew() bool {
	if len(h.MT) > h.maxT(12) {
		return false
	}
	m := h.m
	if h.kind >= 10 && m >= 0 && len(h.MT) > 0 && h.pr.mixm && h.r.Intn(2) == 0 {
		m = []int{0, 0, 2, 3, 5}[h.r.Intn(5)]
	}
	h.tNewOf(m)
	return true
}

// tNewOf makes a table that compares modulo m, maybe not as others do.
func (h *H) tNewOf(m int) {
	if m != h.m {
		h.mixed = true
	}
	e := M{"op": "t.new", "m": m}
	h.call(e, func() { h.addM(h.f.NewTable(h.kind, m, h.hook), false) })
	h.emit(e)
}

// tOther makes a table of values much like another's that compares values in another way, and diffs the two.
func (h *H) tOther() bool {
	if h.kind < 10 || h.m < 0 || len(h.T) == 0 || len(h.T) > h.maxT(24)-1 || len(h.MT) >= h.maxT(12) {
		return false
	}
	i := h.rndT()
	h.tNewOf([]int{0, 0, 2, 3, 5}[h.r.Intn(5)])
	k := len(h.MT) - 1
	xs := []interface{}{}
	e := M{"op": "t.bulk", "h": k + 1}
	t := h.MT[k]
	put := func(p P, v int) {
		h.known[v] = true
		xs = append(xs, M{"o": "ins", "p": h.jp(p), "v": v, "r": t.Insert(api.PArg{Kind: "p", P: p}, v)})
	}
	h.call(e, func() {
		h.T[i].Walk(func(p P, v int) bool {
			switch h.r.Intn(8) {
			case 0:
				return true
			case 1:
				v = h.val()
			case 2, 3, 4:
				v += h.T[i].M() * (1 + h.r.Intn(2))
			case 5:
				v += t.Snap().M()
			}
			put(p, v)
			return len(xs) < capOut
		})
		for n := h.r.Intn(3); n > 0; n-- {
			put(h.pick(), h.val())
		}
	})
	e["xs"] = xs
	h.emit(e)
	if j := len(h.T); e["pan"] == 0 {
		if h.tSnapOf(k); len(h.T) > j {
			h.diffOn(i, j, [4]bool{true, true, true, h.r.Intn(2) == 0}, 0)
			h.diffOn(j, i, [4]bool{true, true, true, h.r.Intn(2) == 0}, 0)
		}
	}
	return true
}
func (h *H) tZero() bool {
	e := M{"op": "t.zero"}
	h.call(e, func() { h.addM(h.f.ZeroMTable(h.kind), true) })
	h.emit(e)
	return true
}
func (h *H) tIZero() bool {
	if h.kind >= 10 { // a zero table uses ==, which not every type supports
		return false
	}
	e := M{"op": "t.izero"}
	h.call(e, func() { h.addT(h.f.ZeroTable(h.kind)) })
	h.emit(e)
	return true
}
func (h *H) rndM() int { return h.r.Intn(len(h.MT)) }

// rndT prefers recent tables.
func (h *H) rndT() int {
	if h.r.Intn(2) == 0 && len(h.T) > 3 {
		return len(h.T) - 1 - h.r.Intn(3)
	}
	return h.r.Intn(len(h.T))
}

func (h *H) tSnap() bool {
	if len(h.MT) == 0 || len(h.T) > h.maxT(24) {
		return false
	}
	h.tSnapOf(h.rndM())
	return true
}
func (h *H) tSnapOf(i int) {
	e := M{"op": "t.snap", "h": i + 1}
	h.call(e, func() { h.addT(h.MT[i].Snap()) })
	h.emit(e)
}
func (h *H) tClone() bool {
	if len(h.T) == 0 || len(h.MT) > h.maxT(14) {
		return false
	}
	i := h.rndT()
	e := M{"op": "t.clone", "h": i + 1}
	h.call(e, func() { h.addM(h.T[i].Mut(), false) })
	h.emit(e)
	return true
}
func (h *H) tCopy() bool {
	if len(h.MT) == 0 || len(h.MT) > h.maxT(14) {
		return false
	}
	i := h.rndM()
	e := M{"op": "t.copy", "h": i + 1}
	h.call(e, func() { h.addM(h.MT[i].Copy(), h.zeroMT[i]) })
	h.emit(e)
	return true
}

var modOps = []string{"ins", "ins", "ins", "upd", "iou", "iou", "goi", "rem", "rem", "rem"}

func (h *H) tMod() bool {
	if len(h.MT) == 0 {
		return false
	}
	i := h.rndM()
	if h.r.Intn(2) == 0 {
		i = len(h.MT) - 1
	}
	if h.r.Intn(12) == 0 && h.tMove(i) {
		return true
	}
	ops := modOps
	if h.pr.grow {
		ops = []string{"ins", "ins", "iou", "goi", "upd", "rem"}
	}
	h.tModOn(i, ops[h.r.Intn(len(ops))], h.noisy(h.pick()))
	return true
}

// moved is the prefix with one of its bits changed, mostly one of the last.
func (h *H) moved(p P) P {
	if p.L > 0 {
		k := p.L - 1 - h.r.Intn(1+h.r.Intn(min(p.L, 6)))
		b := setBit(h.w, p.A, k, 1)
		if b == p.A {
			b = setBit(h.w, p.A, k, 0)
		}
		p.A = b
	}
	return p
}

// tMove exchanges entries for others, so that their number stays, or values.
func (h *H) tMove(i int) bool {
	if h.zeroMT[i] {
		return false
	}
	var ps []P
	e := M{"op": "t.peek"}
	h.call(e, func() {
		h.MT[i].Snap().Walk(func(p P, _ int) bool {
			ps = append(ps, p)
			return len(ps) < capOut
		})
	})
	if e["pan"] != 0 || len(ps) == 0 {
		return false
	}
	p := ps[h.r.Intn(len(ps))]
	switch h.r.Intn(4) {
	case 0:
		h.tModOn(i, "iou", h.noisy(p))
	case 1:
		h.tModOn(i, "rem", h.noisy(p))
		h.tModOn(i, "ins", h.noisy(p))
	case 2:
		h.tModOn(i, "rem", h.noisy(p))
		h.tModOn(i, "ins", h.noisy(h.moved(p)))
	case 3:
		h.tModOn(i, "goi", h.noisy(h.moved(p)))
		h.tModOn(i, "rem", h.noisy(p))
	}
	return true
}

func (h *H) tModOn(i int, o string, p P) {
	v := h.val()
	e := M{"op": "t.mod", "o": o, "h": i + 1, "p": h.jp(p), "v": v, "r": true, "v2": 0}
	a := h.arg(p)
	if a.Kind == "n" {
		e["p"] = h.jp(P{})
	}
	e["as"] = a.Kind
	t := h.MT[i]
	h.call(e, func() {
		switch o {
		case "ins":
			e["r"] = t.Insert(a, v)
		case "upd":
			e["r"] = t.Update(a, v)
		case "iou":
			t.InsertOrUpdate(a, v)
		case "goi":
			e["v2"] = t.GetOrInsert(a, v)
		case "rem":
			e["r"] = t.Remove(a)
		}
	})
	h.emit(e)
}

type reader interface {
	Get(api.PArg) (int, bool)
	LPM(api.PArg) (int, bool, P)
	Num() int64
}

// src chooses a table to read, through a mutable or an immutable handle.
func (h *H) src() (string, int, reader) {
	if len(h.T) > 0 && (len(h.MT) == 0 || h.r.Intn(2) == 0) {
		i := h.rndT()
		return "t", i, h.T[i]
	}
	if len(h.MT) == 0 {
		return "", 0, nil
	}
	i := h.rndM()
	return "m", i, h.MT[i]
}

func (h *H) tGet() bool {
	k, i, t := h.src()
	if t == nil {
		return false
	}
	p := h.query()
	if h.r.Intn(2) == 0 {
		p = h.noisy(h.pick())
	}
	h.getOn(k, i, t, p)
	return true
}
func (h *H) getOn(k string, i int, t reader, p P) {
	a := h.arg(p)
	if a.Kind == "n" {
		p = P{}
	}
	e := M{"op": "t.get", "k": k, "h": i + 1, "p": h.jp(p), "as": a.Kind}
	h.call(e, func() {
		v, ok := t.Get(a)
		e["found"], e["v"] = ok, v
	})
	h.emit(e)
}
func (h *H) tLPM() bool {
	k, i, t := h.src()
	if t == nil {
		return false
	}
	h.lpmOn(k, i, t, h.query())
	for h.r.Intn(3) == 0 { // more lookups, with nothing in between
		if h.r.Intn(3) > 0 {
			h.lpmOn(k, i, t, h.query())
		} else {
			h.getOn(k, i, t, h.query())
		}
	}
	return true
}
func (h *H) lpmOn(k string, i int, t reader, p P) {
	a := h.arg(p)
	if a.Kind == "n" {
		p = P{}
	}
	e := M{"op": "t.lpm", "k": k, "h": i + 1, "p": h.jp(p), "as": a.Kind}
	h.call(e, func() {
		v, ok, q := t.LPM(a)
		e["found"], e["v"], e["q"] = ok, v, h.jp(q)
	})
	h.emit(e)
}
func (h *H) tNum() bool {
	k, i, t := h.src()
	if t == nil {
		return false
	}
	return h.tnumOn(k, i, t)
}
func (h *H) tnumOn(k string, i int, t reader) bool {
	e := M{"op": "t.num", "k": k, "h": i + 1}
	h.call(e, func() { e["r"] = t.Num() })
	h.emit(e)
	return true
}

func (h *H) stop(n int) int {
	if h.r.Intn(3) > 0 {
		return 0
	}
	return 1 + h.r.Intn(n+2)
}

// reenter performs a step of the history in the middle of another, from a
// callback of the library.
func (h *H) reenter() {
	h.tick()
	if h.inWalk && h.nest < h.nestMax && h.budget > 0 && h.r.Intn(3) == 0 {
		h.budget--
		cmps := h.cmps
		h.nest++
		h.depth++
		h.inWalk = false
		h.step()
		h.inWalk = true
		h.depth--
		h.nest--
		h.cmps = cmps // those of the calls in between do not count for this one
	}
}

const capOut = 4000 // no listing in these histories can be longer

func (h *H) walkOf(t api.Table, stop int) (out []interface{}, r bool) {
	out = []interface{}{}
	r = t.Walk(func(p P, v int) bool {
		h.reenter()
		out = append(out, []interface{}{h.jp(p), v})
		return len(out) != stop && len(out) < capOut
	})
	return
}

func (h *H) tWalk() bool {
	if len(h.T) == 0 {
		return false
	}
	i := h.rndT()
	h.walkOn(i, h.stop(len(h.pool)))
	return true
}
func (h *H) walkOn(i, stop int) {
	e := M{"op": "t.walk", "k": "t", "h": i + 1, "stop": stop}
	h.call(e, func() {
		h.inWalk = true
		e["out"], e["r"] = h.walkOf(h.T[i], stop)
	})
	h.inWalk = false
	h.emit(e)
}

// tDump lists a mutable table through a throw-away snapshot.
func (h *H) tDump() bool {
	if len(h.MT) == 0 {
		return false
	}
	h.dumpOn(h.rndM())
	return true
}
func (h *H) dumpOn(i int) {
	e := M{"op": "t.walk", "k": "m", "h": i + 1, "stop": 0}
	h.call(e, func() { e["out"], e["r"] = h.walkOf(h.MT[i].Snap(), 0) })
	h.emit(e)
}

// tAll checks the contents of every handle.
func (h *H) tAll() bool {
	for i := range h.T {
		h.walkOn(i, 0)
	}
	for i := range h.MT {
		h.dumpOn(i)
	}
	return true
}

func (h *H) tDiff() bool {
	if len(h.T) == 0 {
		return false
	}
	i, j := h.rndT(), h.rndT()
	on := [4]bool{true, true, true, true}
	switch h.r.Intn(4) {
	case 0:
		for x := range on {
			on[x] = h.r.Intn(2) == 0
		}
	case 1, 2:
		on[3] = false
	}
	h.diffOn(i, j, on, h.stop(len(h.pool)))
	return true
}

// tDiffCheap asks for everything but the unchanged entries.
func (h *H) tDiffCheap() bool {
	if len(h.T) < 2 {
		return false
	}
	i, j := h.rndT(), h.rndT()
	if h.r.Intn(2) == 0 { // neighbours in history
		j = max(0, i-1)
	}
	h.diffOn(i, j, [4]bool{h.r.Intn(8) > 0, h.r.Intn(8) > 0, h.r.Intn(8) > 0, false}, h.stop(4*len(h.pool)))
	return true
}

// tStep diffs the versions before and after one modification.
func (h *H) tStep() bool {
	if len(h.MT) == 0 || len(h.T) > h.maxT(24)*2 {
		return false
	}
	i := h.rndM()
	if h.zeroMT[i] {
		return false
	}
	snap := func() {
		e := M{"op": "t.snap", "h": i + 1}
		h.call(e, func() { h.addT(h.MT[i].Snap()) })
		h.emit(e)
	}
	snap()
	n := len(h.T)
	h.tModOn(i, []string{"upd", "upd", "iou", "rem", "ins", "goi"}[h.r.Intn(6)], h.noisy(h.pick()))
	snap()
	h.diffOn(n-1, n, [4]bool{true, true, true, false}, 0)
	return true
}
func (h *H) diffOn(i, j int, on [4]bool, stop int) {
	if m := h.T[j].M(); h.mixed && m != 0 && m != h.T[i].M() {
		// its values are known up to its own comparison only
		if h.T[i].M() != 0 {
			return
		}
		i, j = j, i
	}
	e := M{"op": "t.diff", "k": "t", "h": i + 1, "k2": "t", "g": j + 1, "on": on, "stop": stop}
	h.call(e, func() {
		out := []interface{}{}
		before := h.cmps
		h.inWalk = true
		e["r"] = h.T[i].Diff(h.T[j], on, func(d api.DiffRep) bool {
			h.reenter()
			out = append(out, M{"d": d.D, "p": h.jp(d.P), "v": d.V, "v2": d.V2})
			return len(out) != stop && len(out) < capOut
		})
		e["out"] = out
		e["cmp"] = h.cmps - before
	})
	h.inWalk = false
	h.emit(e)
}

func (h *H) tAgg() bool {
	if len(h.T) == 0 || len(h.T) > h.maxT(24) {
		return false
	}
	return h.aggOn(h.rndT())
}
func (h *H) aggOn(i int) bool {
	e := M{"op": "t.agg", "h": i + 1}
	var out []interface{}
	h.call(e, func() {
		h.inWalk = true
		t := h.T[i].Agg()
		h.inWalk = false
		out, _ = h.walkOf(t, 0)
		e["out"] = out
		h.addT(t)
	})
	h.emit(e)
	if e["pan"] == 0 {
		j := len(h.T) - 1
		for n := h.r.Intn(4); n > 0; n-- { // host lookups on the result
			q := h.query()
			q.L = h.w
			h.lpmOn("t", j, h.T[j], q)
		}
		if h.pr.aggmin {
			h.emit(M{"op": "t.aggmin", "h": i + 1, "out": out, "pan": 0, "al": 0})
		}
	}
	return e["pan"] == 0
}

// tReAgg goes on from an aggregate: entries above, beside or below what is in it, and it is aggregated again.
func (h *H) tReAgg() bool {
	if len(h.T) == 0 || len(h.T) > h.maxT(24)-3 || len(h.MT) > h.maxT(14) {
		return false
	}
	if !h.aggOn(h.rndT()) {
		return true
	}
	j := len(h.T) - 1
	var ps []P
	e := M{"op": "t.clone", "h": j + 1}
	h.call(e, func() {
		h.T[j].Walk(func(p P, _ int) bool {
			ps = append(ps, p)
			return len(ps) < capOut
		})
		h.addM(h.T[j].Mut(), false)
	})
	h.emit(e)
	if e["pan"] != 0 || len(ps) == 0 {
		return true
	}
	k := len(h.MT) - 1
	for n := 1 + h.r.Intn(2); n > 0; n-- {
		p := ps[h.r.Intn(len(ps))]
		switch h.r.Intn(5) {
		case 0, 1: // above everything
			for !covers(h.w, p, ps[0]) || !covers(h.w, p, ps[len(ps)-1]) {
				p.L--
			}
			p.L = max(0, p.L-h.r.Intn(3))
			if h.r.Intn(4) == 0 {
				p.L = 0
			}
		case 2:
			p.L = max(0, p.L-1-h.r.Intn(3))
		case 3:
			if p.L > 0 {
				p.A = setBit(h.w, p.A, p.L-1, 1-getBit(h.w, p.A, p.L-1))
			}
		case 4:
			p.L = min(h.w, p.L+1+h.r.Intn(2))
		}
		p.A = net(h.w, p)
		h.tModOn(k, []string{"iou", "iou", "ins", "rem"}[h.r.Intn(4)], p)
	}
	j = len(h.T)
	if h.tSnapOf(k); len(h.T) > j {
		h.aggOn(j)
	}
	return true
}

var mapFns = [][]int{{1, 0, 0}, {1, 0, 0}, {0, 0, 3}, {0, 1, 0}, {1, 0, 1}, {3, 0, 1}, {0, 0, 1}, {2, 1, 5}, {1, 96, 7}, {}}

func (h *H) mapFn(fn []int, m, l, v int) int {
	if m > 0 {
		v %= m
	}
	x := (fn[0]*v + fn[1]*l + fn[2]) % 97
	h.known[x] = true
	return x
}

func (h *H) tMap() bool {
	if len(h.T) == 0 || len(h.T) > h.maxT(24) {
		return false
	}
	i := h.rndT()
	return h.mapOn(i, mapFns[h.r.Intn(len(mapFns))])
}
func (h *H) mapOn(i int, fn []int) bool {
	e := M{"op": "t.map", "h": i + 1, "fn": fn}
	m := h.m
	if h.kind >= 10 && h.m >= 0 {
		m = h.T[i].M()
	}
	h.call(e, func() {
		calls := []interface{}{}
		var f func(P, int) int
		if len(fn) > 0 {
			f = func(p P, v int) int {
				h.reenter()
				calls = append(calls, []interface{}{h.jp(p), v})
				return h.mapFn(fn, m, p.L, v)
			}
		}
		h.inWalk = true
		t := h.T[i].Map(f)
		h.inWalk = false
		e["calls"] = calls
		e["out"], _ = h.walkOf(t, 0)
		h.addT(t)
	})
	h.emit(e)
	return e["pan"] == 0
}

// tBuild runs Build with a callback that performs further steps of the
// history (possibly nested builds) on the clone and on other handles.
func (h *H) tBuild() bool {
	if len(h.T) == 0 || len(h.T) > h.maxT(20) || len(h.MT) > h.maxT(14) || h.depth > 2 {
		return false
	}
	i := h.rndT()
	return h.buildOn(i, h.r.Intn(3) > 0)
}
func (h *H) buildOn(i int, commit bool) bool {
	end := M{"op": "t.bend", "h": i + 1, "commit": commit}
	h.depth++
	var res api.Table
	h.call(end, func() {
		res = h.T[i].Build(func(m api.MTable) bool {
			h.emit(M{"op": "t.bbeg", "h": i + 1, "pan": 0, "al": 0})
			h.addM(m, false)
			g := len(h.MT) - 1
			end["g"] = g + 1
			n := h.r.Intn(6)
			if h.r.Intn(3) == 0 && h.tMove(g) {
				n = h.r.Intn(2)
			}
			for ; n > 0; n-- {
				if h.r.Intn(4) > 0 {
					h.tModOn(g, modOps[h.r.Intn(len(modOps))], h.noisy(h.pick()))
				} else {
					h.step()
				}
			}
			h.tick()
			return commit
		})
		end["out"], _ = h.walkOf(res, 0)
		h.addT(res)
	})
	h.depth--
	if end["pan"] == 1 {
		end["out"] = []interface{}{}
	}
	h.emit(end)
	return end["pan"] == 0
}
