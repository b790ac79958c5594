package main

import (
	"fmt"
	"time"

	"addrsverif/api"
)

// Long runs: the same few modifications over and over, hundreds or tens of
// thousands of times, on a mutable object or on as many clones of an immutable
// one. What a call returns may not depend on how many there were before.

type tMods []M

func (h *H) someMods() (xs tMods, do func(api.MTable, M) interface{}) {
	for n := 1 + h.r.Intn(5); n > 0; n-- {
		p := h.noisy(h.pick())
		xs = append(xs, M{"o": modOps[h.r.Intn(len(modOps))], "p": h.jp(p), "v": h.val(), "arg": api.PArg{Kind: "p", P: p}})
	}
	return xs, func(t api.MTable, x M) interface{} {
		a, v := x["arg"].(api.PArg), x["v"].(int)
		switch x["o"] {
		case "ins":
			return t.Insert(a, v)
		case "upd":
			return t.Update(a, v)
		case "goi":
			return t.GetOrInsert(a, v)
		case "rem":
			return t.Remove(a)
		}
		t.InsertOrUpdate(a, v)
		return true
	}
}

// with returns the calls together with their results.
func (xs tMods) with(rs []interface{}) (out []interface{}) {
	for i, x := range xs[:min(len(rs), len(xs))] {
		out = append(out, M{"o": x["o"], "p": x["p"], "v": x["v"], "r": rs[i]})
	}
	return out
}

func (h *H) alikeResults(a, b []interface{}) bool {
	for i := range a {
		x, ok := a[i].(int)
		if y := b[i]; ok && h.mixed { // tables of different comparisons: any may be meant
			continue
		} else if ok && h.m > 0 {
			if x%h.m != y.(int)%h.m {
				return false
			}
		} else if a[i] != y {
			return false
		}
	}
	return true
}

func (h *H) rounds() int {
	switch n := h.r.Intn(12); {
	case n < 3:
		return 4 + h.r.Intn(60)
	case n < 10 || h.big:
		return 260 + h.r.Intn(60)
	}
	return 66000 + h.r.Intn(1000)
}

// repeat performs rounds until there were enough, or it takes too long.
func repeat(n int, f func(k int, last bool)) {
	start := time.Now()
	for k, last := 1, false; !last; k++ {
		last = k >= n || k > 3 && time.Since(start) > 1500*time.Millisecond
		f(k, last)
	}
}

func (h *H) listTable(t api.Table) (out []interface{}) {
	t.Walk(func(p P, v int) bool {
		out = append(out, []interface{}{h.jp(p), v})
		return len(out) < capOut
	})
	return out
}

// tRep repeats modifications of one table; the first three rounds and the last are recorded, and the others
// must be like the third.
func (h *H) tRep() bool {
	if len(h.MT) == 0 {
		return false
	}
	i := h.rndM()
	if h.zeroMT[i] {
		return false
	}
	xs, do := h.someMods()
	snap, t, n := h.r.Intn(2) == 0, h.MT[i], h.rounds()
	exact := h.r.Intn(3) == 0
	if exact {
		xs, n, snap = h.exactMods(xs)
		if len(h.T) <= h.maxT(24) {
			h.tSnapOf(i)
		}
	}
	var all, third []interface{}
	odd := 0
	e := M{"op": "t.rep", "h": i + 1}
	h.call(e, func() {
		repeat(n, func(k int, last bool) {
			rs := []interface{}{}
			for _, x := range xs {
				rs = append(rs, do(t, x))
			}
			if k <= 3 || last {
				all = append(all, xs.with(rs)...)
			}
			if k == 3 {
				third = rs
			}
			if k > 3 && !h.alikeResults(third, rs) {
				odd++
			}
			if snap {
				t.Snap()
			}
			e["n"] = k
		})
	})
	e["xs"], e["odd"] = all, odd
	h.emit(e)
	if exact && len(h.T) <= h.maxT(24)+1 {
		h.tSnapOf(i)
		h.walkOn(len(h.T)-1, 0)
	}
	return true
}

// exactMods are two modifications that both change the table, and how often to do them for 2^8 or 2^16 changes
// in all.
func (h *H) exactMods(xs tMods) (tMods, int, bool) {
	x, y := M{}, M{}
	for k, v := range xs[0] {
		x[k], y[k] = v, v
	}
	x["o"], y["o"] = "iou", "iou"
	y["v"] = x["v"].(int) + 1
	h.known[y["v"].(int)] = true
	n := 128
	if h.r.Intn(2) == 0 {
		n = 32768
	}
	return tMods{x, y}, n, false
}

// tChurn repeats modifications of clones of the same table: each round must go like the first.
func (h *H) tChurn() bool {
	if len(h.T) == 0 {
		return false
	}
	i := h.rndT()
	xs, do := h.someMods()
	t, how := h.T[i], h.r.Intn(3)
	if h.r.Intn(3) == 0 {
		return h.tLongBuild(i, xs, do)
	}
	var first, out []interface{}
	odd := 0
	e := M{"op": "t.churn", "h": i + 1}
	h.call(e, func() {
		repeat(h.rounds(), func(k int, last bool) {
			rs := []interface{}{}
			var u api.Table
			if how == 0 {
				m := t.Mut()
				for _, x := range xs {
					rs = append(rs, do(m, x))
				}
				u = m.Snap()
			} else {
				u = t.Build(func(m api.MTable) bool {
					for _, x := range xs {
						rs = append(rs, do(m, x))
					}
					return how == 1 || k == 1 || last
				})
			}
			if k == 1 {
				first = rs
			} else if !h.alikeResults(first, rs) {
				odd++
			}
			if k == 1 || last {
				out = h.listTable(u)
			}
			e["n"] = k
		})
	})
	e["xs"], e["odd"], e["out"] = xs.with(first), odd, out
	h.emit(e)
	return true
}

// tLongBuild makes 2^8 or 2^16 changes in a build.
func (h *H) tLongBuild(i int, xs tMods, do func(api.MTable, M) interface{}) bool {
	xs, n, _ := h.exactMods(xs)
	var all, third, out []interface{}
	odd := 0
	e := M{"op": "t.churn", "h": i + 1, "n": n}
	h.call(e, func() {
		u := h.T[i].Build(func(m api.MTable) bool {
			for k := 1; k <= n; k++ {
				rs := []interface{}{do(m, xs[0]), do(m, xs[1])}
				if k <= 3 || k == n {
					all = append(all, xs.with(rs)...)
				}
				if k == 3 {
					third = rs
				}
				if k > 3 && !h.alikeResults(third, rs) {
					odd++
				}
			}
			return true
		})
		out = h.listTable(u)
	})
	e["xs"], e["odd"], e["out"] = all, odd, out
	h.emit(e)
	return true
}

func (h *H) someSetMods() (xs []interface{}, args []api.SArg) {
	for n := 1 + h.r.Intn(4); n > 0; n-- {
		a := api.SArg{Kind: "p", P: h.noisy(h.pick())}
		if h.r.Intn(4) == 0 {
			a = api.SArg{Kind: "r", R: h.rng()}
		}
		o := "ins"
		if h.r.Intn(2) == 0 {
			o = "rem"
		}
		xs = append(xs, M{"o": o, "y": h.jsarg(a, 0)})
		args = append(args, a)
	}
	return xs, args
}

// sRep is one round of modifications many times over.
func (h *H) sRep() bool {
	if len(h.MS) == 0 {
		return false
	}
	i := h.r.Intn(len(h.MS))
	if h.zeroMS[i] {
		return false
	}
	xs, args := h.someSetMods()
	s, snap := h.MS[i], h.r.Intn(2) == 0
	odd, want := 0, ""
	n := h.rounds()
	exact := len(args) > 1 && h.r.Intn(3) == 0
	if exact { // 2^8 or 2^16 changes in all
		args = args[:2]
		xs = []interface{}{M{"o": "ins", "y": h.jsarg(args[0], 0)}, M{"o": "ins", "y": h.jsarg(args[1], 0)}}
		n = 256
		if h.r.Intn(4) == 0 && args[0].Kind != "r" {
			n = 65536
		}
		if len(h.S) <= h.maxT(24) {
			h.sSnapOf(i)
		}
	}
	e := M{"op": "s.rep", "h": i + 1, "xs": xs}
	h.call(e, func() {
		if exact {
			for k := 2; k < n; k += 2 {
				s.Insert(args[0])
				s.Remove(args[0])
			}
			h.setRound(s, xs, args)
			e["n"] = n
			return
		}
		repeat(n, func(k int, last bool) {
			h.setRound(s, xs, args)
			if k%64 == 1 || snap || last {
				got := s.Snap()
				if k%64 == 1 || last {
					if x := fmt.Sprint(h.listOf(got, 0)); k == 1 {
						want = x
					} else if x != want {
						odd++
					}
				}
			}
			e["n"] = k
		})
	})
	e["odd"] = odd
	h.emit(e)
	if exact {
		h.sListOn("m", i)
	}
	return true
}
func (h *H) setRound(s api.MSet, xs []interface{}, args []api.SArg) {
	for j, a := range args {
		if xs[j].(M)["o"] == "ins" {
			s.Insert(a)
		} else {
			s.Remove(a)
		}
	}
}

// sChurn modifies clones of the same set.
func (h *H) sChurn() bool {
	if len(h.S) == 0 {
		return false
	}
	i := h.r.Intn(len(h.S))
	xs, args := h.someSetMods()
	s, how := h.S[i], h.r.Intn(3)
	var out []interface{}
	odd := 0
	e := M{"op": "s.churn", "h": i + 1, "xs": xs}
	h.call(e, func() {
		repeat(h.rounds(), func(k int, last bool) {
			var z api.Set
			if how == 0 {
				m := s.Mut()
				h.setRound(m, xs, args)
				z = m.Snap()
			} else {
				z = s.Build(func(m api.MSet) bool {
					h.setRound(m, xs, args)
					return how == 1 || k == 1 || last
				})
			}
			if k == 1 || last {
				x, _ := h.listOf(z, 0)
				if k > 1 && fmt.Sprint(x) != fmt.Sprint(out) {
					odd++
				}
				out = x
			}
			e["n"] = k
		})
	})
	e["odd"], e["out"] = odd, out
	h.emit(e)
	return true
}

// longRun is one of these, if there is an object for it.
func (h *H) longRun() bool {
	fs := []func() bool{h.tRep, h.tChurn, h.sRep, h.sChurn}
	for _, k := range h.r.Perm(len(fs)) {
		if fs[k]() {
			return true
		}
	}
	return false
}
