package main

import (
	"runtime"
	"runtime/debug"

	"addrsverif/api"
)

// The cost profile measures the memory that calls on large tables and sets
// take. The specification bounds it by the number of levels, never by the
// number of entries.

// allocs is the number of objects and of bytes that f allocates, at best of a few runs.
func allocs(f func()) (best, bytes int) {
	best = -1
	for i := 0; i < 4; i++ {
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		f()
		runtime.ReadMemStats(&b)
		if n := int(b.Mallocs - a.Mallocs); best < 0 || n < best {
			best, bytes = n, int(b.TotalAlloc-a.TotalAlloc)
		}
	}
	return
}

func heap() int64 {
	runtime.GC()
	runtime.GC()
	var a runtime.MemStats
	runtime.ReadMemStats(&a)
	return int64(a.HeapAlloc)
}

func (h *H) cost(op string, n int, f func()) {
	e := M{"op": op, "n": n}
	h.call(e, func() { e["c"], e["b"] = allocs(f) })
	h.emit(e)
}

func costRun(h *H, n, i int) {
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	h.kind = []int{0, 10, 1}[h.r.Intn(3)]
	size := 3000 + h.r.Intn(3000)
	// entries all over the space, or hosts of one block, some of them nested
	base, l := rndAddr(h.r, h.w), 0
	if h.r.Intn(2) == 0 {
		l = h.w - 14
	}
	pfx := func() P {
		a := or(and(base, maskOf(h.w, l)), and(A{h.r.Uint64(), h.r.Uint64()}, not(h.w, maskOf(h.w, l))))
		k := l + 13 + h.r.Intn(h.w-l-12)
		return P{net(h.w, P{a, k}), k}
	}
	t := h.f.NewTable(h.kind, h.m, func(a, b int) {})
	ps := make([]P, size)
	for k := range ps {
		ps[k] = pfx()
		t.InsertOrUpdate(api.PArg{Kind: "p", P: ps[k]}, h.r.Intn(3)+1)
	}
	snap := t.Snap()
	h.cost("cost.snap", size, func() { snap = t.Snap() })
	var m api.MTable
	h.cost("cost.snap", size, func() { m = snap.Mut() })
	h.cost("cost.snap", size, func() { snap.Build(func(api.MTable) bool { return true }) })
	for k := 0; k < 12; k++ {
		p := pfx()
		if k%2 == 0 {
			p = ps[h.r.Intn(size)]
		}
		a := api.PArg{Kind: "p", P: p}
		m = snap.Mut()
		h.cost("cost.mod", size, func() { m.Insert(a, 3) })
		h.cost("cost.mod", size, func() { m.Update(a, k) })
		h.cost("cost.mod", size, func() { m.InsertOrUpdate(a, k+1) })
		h.cost("cost.mod", size, func() { m.GetOrInsert(a, k) })
		h.cost("cost.mod", size, func() { m.Get(a) })
		h.cost("cost.mod", size, func() { m.LPM(a) })
		h.cost("cost.mod", size, func() { snap.Get(a) })
		h.cost("cost.mod", size, func() { snap.LPM(a) })
		h.cost("cost.snap", size, func() { m.Num(); snap.Num() })
		// a fresh clone each time, so that every run has something to change
		h.cost("cost.mod", size, func() { snap.Mut().Insert(a, 3) })
		h.cost("cost.mod", size, func() { snap.Mut().Update(a, k+5) })
		h.cost("cost.mod", size, func() { snap.Mut().InsertOrUpdate(a, k+6) })
		h.cost("cost.mod", size, func() { snap.Mut().Remove(a) })
		h.cost("cost.mod", size, func() { snap.Build(func(x api.MTable) bool { x.Remove(a); return true }) })
	}
	h.cost("cost.mod", size, func() { snap.Walk(func(P, int) bool { return false }) })
	runtime.GC()
	// sets: scattered prefixes, then one block in random order
	s := h.f.NewSet()
	for _, p := range ps {
		s.Insert(api.SArg{Kind: "p", P: p})
	}
	z := s.Snap()
	h.cost("cost.snap", size, func() { z = s.Snap() })
	h.cost("cost.snap", size, func() { z.Mut() })
	h.cost("cost.snap", size, func() { z.Self() })
	h.cost("cost.snap", size, func() { z.IsEmpty(); s.IsEmpty() })
	for k := 0; k < 12; k++ {
		p := pfx()
		if k%2 == 0 {
			p = ps[h.r.Intn(size)]
		}
		a := api.SArg{Kind: "p", P: p}
		h.cost("cost.smod", size, func() { z.Mut().Insert(a) })
		h.cost("cost.smod", size, func() { z.Mut().Remove(a) })
		h.cost("cost.smod", size, func() { z.Alg("u", a) })
		h.cost("cost.smod", size, func() { z.Alg("d", a) })
	}
	h.cost("cost.smod", size, func() { z.WalkP(func(P) bool { return false }) })
	s, z, t, m, snap = nil, nil, nil, nil, nil
	runtime.GC()
	h.heapOf(func() (interface{}, int, int) {
		k := 10
		block := P{net(h.w, P{base, h.w - k}), h.w - k}
		const copies = 16
		sets := make([]api.MSet, copies)
		pieces := 0
		for c := range sets {
			sets[c] = h.f.NewSet()
			for _, x := range h.r.Perm(1 << k) {
				a := block.A
				a.Lo |= uint64(x)
				sets[c].Insert(api.SArg{Kind: "a", P: P{a, h.w}})
				if x%5 == c%5 {
					sets[c].Remove(api.SArg{Kind: "a", P: P{a, h.w}})
					sets[c].Insert(api.SArg{Kind: "a", P: P{a, h.w}})
				}
			}
			sets[c].Snap().WalkP(func(P) bool { pieces++; return true })
		}
		return sets, pieces, 0
	})
	// every reading of every version of a small set and of a small table, of which only the last is kept
	h.heapOf(func() (interface{}, int, int) {
		s := h.f.NewSet()
		q := func() api.SArg { return api.SArg{Kind: "p", P: ps[h.r.Intn(60)]} }
		var old api.Set
		for k := 0; k < 2500; k++ {
			if y := q(); k%3 == 0 && k > 100 {
				s.Remove(y)
			} else {
				s.Insert(y)
			}
			z := s.Snap()
			y := q()
			z.NumAddresses()
			z.NumPrefixes(uint32(h.w))
			z.NumPrefixes(uint32(k % h.w))
			z.IsEmpty()
			_ = z.String()
			z.Contains(y)
			z.Find(y, uint32(h.w))
			z.Find(api.SArg{Kind: "nil"}, uint32(k%h.w))
			z.WalkP(func(P) bool { return true })
			z.WalkR(func(api.Rng) bool { return true })
			for _, o := range []string{"u", "i", "d"} {
				z.Alg(o, y)
				if old != nil {
					z.Alg(o, api.SArg{Kind: "s", S: old})
				}
			}
			if old != nil {
				z.Equal(old)
				z.Contains(api.SArg{Kind: "s", S: old})
				z.Find(api.SArg{Kind: "s", S: old}, uint32(h.w))
			}
			z.Build(func(x api.MSet) bool { x.Insert(y); return k%2 == 0 })
			old = z
		}
		pieces := 0
		s.Snap().WalkP(func(P) bool { pieces++; return true })
		return s, pieces, 0
	})
	h.heapOf(func() (interface{}, int, int) {
		t := h.f.NewTable(h.kind, h.m, func(a, b int) {})
		q := func() api.PArg { return api.PArg{Kind: "p", P: ps[h.r.Intn(60)]} }
		var old api.Table
		yes := func(api.DiffRep) bool { return true }
		for k := 0; k < 2500; k++ {
			switch y := q(); {
			case k%4 == 0 && k > 100:
				t.Remove(y)
			case k%4 == 1:
				t.GetOrInsert(y, k%7)
			default:
				t.InsertOrUpdate(y, k%7)
			}
			z := t.Snap()
			y := q()
			z.Num()
			z.Get(y)
			z.LPM(y)
			t.LPM(y)
			z.Walk(func(P, int) bool { return true })
			z.Agg().Agg()
			z.Map(func(_ P, v int) int { return v % 3 })
			if old != nil {
				z.Diff(old, [4]bool{true, true, true, k%2 == 0}, yes)
				old.Diff(z, [4]bool{true, true, true, false}, yes)
			}
			z.Build(func(x api.MTable) bool { x.Remove(y); return k%2 == 0 })
			old = z
		}
		return t, int(t.Num()), 0
	})
	// what is left of a large set: few of its prefixes, by removing the others or by intersection
	h.heapOf(func() (interface{}, int, int) {
		x, few := h.f.NewSet(), h.f.NewSet()
		for k, p := range ps {
			x.Insert(api.SArg{Kind: "p", P: p})
			if k%1000 == 5 {
				few.Insert(api.SArg{Kind: "p", P: p})
			}
		}
		y := x.Snap().Alg("i", api.SArg{Kind: "s", S: few.Snap()})
		for k, p := range ps {
			if k%1000 != 5 {
				x.Remove(api.SArg{Kind: "p", P: p})
			}
		}
		pieces := 0
		for _, z := range []api.Set{x.Snap(), y} {
			z.WalkP(func(P) bool { pieces++; return true })
		}
		return []interface{}{x, y}, pieces, 0
	})
	// what is left of a large table, with values small and large
	for _, kind := range []int{h.kind, 16} {
		ps := ps
		if kind == 16 {
			ps = ps[:1500]
		}
		count := func(n int) (int, int) { return n, n * (kind / 16) * api.BigBytes }
		table := func() api.MTable { return h.f.NewTable(kind, h.m, func(a, b int) {}) }
		keep := func(p P) bool { return p.A.Lo%512 == 5 || p.A.Hi%512 == 5 }
		h.heapOf(func() (interface{}, int, int) {
			x := table()
			for _, k := range h.r.Perm(len(ps)) {
				x.InsertOrUpdate(api.PArg{Kind: "p", P: ps[k]}, h.r.Intn(3)+1)
			}
			for _, k := range h.r.Perm(len(ps)) {
				if !keep(ps[k]) {
					x.Remove(api.PArg{Kind: "p", P: ps[k]})
				}
			}
			n, v := count(int(x.Num()))
			return x, n, v
		})
		// entries that come and go, are updated, and are at the forks of others
		h.heapOf(func() (interface{}, int, int) {
			x := table()
			for k, p := range ps {
				a := api.PArg{Kind: "p", P: p}
				x.InsertOrUpdate(a, k)
				x.InsertOrUpdate(a, k+1)
				x.GetOrInsert(a, k+2)
				if k >= 8 {
					x.Remove(api.PArg{Kind: "p", P: ps[k-8]})
					x.Snap().Mut().Update(a, 3)
				}
			}
			n, v := count(int(x.Num()))
			return x, n, v
		})
		h.heapOf(func() (interface{}, int, int) {
			x := table()
			for k := 0; k < 2; k++ {
				for c := 0; c < 1<<9; c++ {
					p := P{or(net(h.w, P{base, h.w - 10}), A{Lo: uint64(c)}), h.w}
					for p.L > h.w-9 {
						a := api.PArg{Kind: "p", P: P{net(h.w, p), p.L}}
						if k == 0 || p.L == h.w {
							x.InsertOrUpdate(a, 1)
						} else {
							x.Remove(a)
						}
						p.L--
					}
				}
			}
			n, v := count(int(x.Num()))
			return x, n, v
		})
		// an aggregate, of a block of hosts that have one value but for a few, and what it is mapped to
		h.heapOf(func() (interface{}, int, int) {
			x := table()
			for _, k := range h.r.Perm(1024) {
				a := net(h.w, P{base, h.w - 10})
				a.Lo |= uint64(k)
				v := 1
				if k%200 == 5 {
					v = 2
				}
				x.InsertOrUpdate(api.PArg{Kind: "a", P: P{a, h.w}}, v)
			}
			y := x.Snap().Agg()
			z := x.Snap().Map(func(P, int) int { return 3 }).Agg()
			n, v := count(int(y.Num() + z.Num()))
			return []interface{}{y, z}, n, v
		})
	}
}

// heapOf reports the memory held by what f returns, which has n entries or
// prefixes, and values of v bytes.
func (h *H) heapOf(f func() (x interface{}, n, v int)) {
	before := heap()
	var x interface{}
	e := M{"op": "cost.heap"}
	h.call(e, func() { x, e["n"], e["v"] = f() })
	e["c"] = int(max(0, int(heap()-before)))
	runtime.KeepAlive(x)
	h.emit(e)
}

func init() { profiles["cost"] = &profile{vals: 4, runner: costRun} }
