package main

import (
	"addrsverif/api"
)

// The giant profiles: tables and sets of up to 10^5 and more entries, all but
// a few of them in one regular block (spec/Giant.tla). Listings are recorded
// as runs.

type block struct {
	root P
	l, n int
	s    int
}

func (h *H) blkAt(b block, i int) P {
	a := net(h.w, b.root)
	for j := b.l - 1; j >= b.root.L; j-- {
		a = setBit(h.w, a, j, i&1)
		i >>= 1
	}
	return P{a, b.l}
}
func (h *H) blkIdx(b block, p P) int { // -1: not of the block
	if p.L != b.l || net(h.w, P{p.A, b.root.L}) != net(h.w, b.root) {
		return -1
	}
	i := 0
	for j := b.root.L; j < b.l; j++ {
		i = 2*i + getBit(h.w, p.A, j)
	}
	if i%b.s != 0 || i >= b.n*b.s {
		return -1
	}
	return i
}

// runs compresses a listing.
type runs struct {
	h    *H
	b    block
	out  []interface{}
	pp   P
	n    int
	v    int
	d    string
	last int
	tot  int
}

func (r *runs) add(p P, v int, d string) {
	r.tot++
	i := r.h.blkIdx(r.b, p)
	if r.n > 0 && i >= 0 && r.last >= 0 && i == r.last+r.b.s && v == r.v && d == r.d && (d == "" || d == "S") {
		r.n++
		r.last = i
		return
	}
	r.flush()
	r.pp, r.n, r.v, r.d, r.last = p, 1, v, d, i
}
func (r *runs) flush() {
	if r.n > 0 && len(r.out) < 3000 {
		x := []interface{}{r.h.jp(r.pp), r.n, r.v}
		if r.d != "" {
			x = append(x, r.d)
		}
		r.out = append(r.out, x)
	}
	r.n = 0
}
func (r *runs) list() []interface{} {
	r.flush()
	if r.out == nil {
		return []interface{}{}
	}
	return r.out
}

// size is around a power of two, where counters of some width would overflow.
func (h *H) giantSize() (n, bits int) {
	e := []int{7, 8, 9, 12, 15, 16, 16, 16, 17}[h.r.Intn(9)]
	n = 1 << e
	switch h.r.Intn(4) {
	case 0:
		n += h.r.Intn(300) - 150
		if n < 3 {
			n = 3
		}
	case 1:
		n += h.r.Intn(3) - 1
	case 2:
		n += h.r.Intn(n / 3)
	}
	return n, e + 3
}

func (h *H) giantBlock(s int) block {
	n, d := h.giantSize()
	l := d + h.r.Intn(h.w-d+1)
	switch h.r.Intn(3) {
	case 0:
		l = h.w
	case 1:
		l = min(h.w, max(d, h.w/2+h.r.Intn(5)-2))
	}
	root := P{rndAddr(h.r, h.w), l - d}
	root.A = net(h.w, root)
	return block{root, l, n, s}
}

// place is a prefix in or near the block.
func (h *H) place(b block) P {
	i := h.r.Intn(b.n * b.s)
	switch h.r.Intn(8) {
	case 0:
		i = 0
	case 1:
		i = (b.n - 1) * b.s
	case 2:
		i = b.n * b.s
	}
	p := h.blkAt(b, i)
	switch h.r.Intn(10) {
	case 0, 1: // below an entry
		k := min(h.w, p.L+1+h.r.Intn(3))
		p = P{or(p.A, and(A{h.r.Uint64(), h.r.Uint64()}, not(h.w, maskOf(h.w, p.L)))), k}
	case 2, 3: // above some
		p.L = max(0, p.L-1-h.r.Intn(4))
	case 4:
		p.L = max(0, b.root.L-h.r.Intn(3))
	case 5:
		p = P{rndAddr(h.r, h.w), rndLen(h.r, h.w)}
	}
	return p
}

// order visits 0..n-1 in one of several orders.
func (h *H) order(n int, f func(int)) {
	switch h.r.Intn(4) {
	case 0:
		for i := 0; i < n; i++ {
			f(i)
		}
	case 1:
		for i := n - 1; i >= 0; i-- {
			f(i)
		}
	case 2:
		for _, i := range h.r.Perm(n) {
			f(i)
		}
	default: // both ends towards the middle
		for i := 0; i < n-1-i; i++ {
			f(i)
			f(n - 1 - i)
		}
		if n%2 == 1 {
			f(n / 2)
		}
	}
}

func giantRun(h *H, n, i int) {
	b := h.giantBlock(1 + h.r.Intn(2))
	h.kind = []int{0, 0, 1, 10}[h.r.Intn(4)]
	if h.kind >= 10 {
		h.m = []int{0, 3}[h.r.Intn(2)]
	}
	v0 := 1 + h.r.Intn(4)
	h.known[v0] = true
	var t api.MTable
	e := M{"op": "g.fill", "root": h.jp(b.root), "len": b.l, "n": b.n, "s": b.s, "v": v0, "m": h.m}
	h.call(e, func() {
		t = h.f.NewTable(h.kind, h.m, h.hook)
		r := 0
		op := h.r.Intn(4)
		h.order(b.n, func(i int) {
			a := api.PArg{Kind: "p", P: h.blkAt(b, i*b.s)}
			switch op {
			case 0:
				if t.GetOrInsert(a, v0) == v0 {
					r++
				}
			case 1:
				t.InsertOrUpdate(a, v0)
				r++
			default:
				if t.Insert(a, v0) {
					r++
				}
			}
		})
		e["r"] = r
	})
	h.emit(e)
	if e["pan"] != 0 {
		return
	}
	isMap := map[int]bool{} // tables whose block has another value
	mods := map[int]int{}   // modifications before a snapshot
	nmod := 0
	get := func() (int, reader) {
		k := h.r.Intn(len(h.T) + 1)
		if k == 0 {
			return 0, t
		}
		return k, h.T[k-1]
	}
	snap := func() {
		e := M{"op": "g.snap"}
		h.call(e, func() { h.addT(t.Snap()) })
		mods[len(h.T)] = nmod
		h.emit(e)
	}
	num := func(k int, x reader) {
		e := M{"op": "g.num", "h": k}
		h.call(e, func() { e["r"] = x.Num() })
		h.emit(e)
	}
	num(0, t)
	snap()
	for len(h.ev) < n {
		switch h.r.Intn(16) {
		case 0, 1, 2, 3:
			p := h.noisy(h.place(b))
			v, o := h.val(), modOps[h.r.Intn(len(modOps))]
			e := M{"op": "g.mod", "o": o, "p": h.jp(p), "v": v}
			nmod++
			h.call(e, func() {
				a := h.arg0(p)
				var r interface{} = true
				switch o {
				case "ins":
					r = t.Insert(a, v)
				case "upd":
					r = t.Update(a, v)
				case "iou":
					t.InsertOrUpdate(a, v)
				case "goi":
					r = t.GetOrInsert(a, v)
				case "rem":
					r = t.Remove(a)
				}
				e["r"] = r
			})
			h.emit(e)
		case 4:
			k, x := get()
			num(k, x)
		case 5, 6:
			k, x := get()
			p := h.noisy(h.place(b))
			e := M{"op": "g.get", "h": k, "p": h.jp(p)}
			h.call(e, func() {
				v, ok := x.Get(h.arg0(p))
				e["found"] = ok
				if ok {
					e["v"] = v
				}
			})
			h.emit(e)
		case 7, 8:
			k, x := get()
			p := h.noisy(h.place(b))
			e := M{"op": "g.lpm", "h": k, "p": h.jp(p)}
			h.call(e, func() {
				v, ok, q := x.LPM(h.arg0(p))
				e["found"] = ok
				if ok {
					e["v"], e["q"] = v, h.jp(q)
				}
			})
			h.emit(e)
		case 9:
			if len(h.T) < 8 {
				snap()
			}
		case 10:
			k := 1 + h.r.Intn(len(h.T))
			stop := 0
			if h.r.Intn(2) == 0 {
				stop = 1 + h.r.Intn(b.n+20)
			}
			e := M{"op": "g.walk", "h": k, "stop": stop}
			h.call(e, func() {
				rs := &runs{h: h, b: b}
				e["r"] = h.T[k-1].Walk(func(p P, v int) bool {
					rs.add(p, v, "")
					return rs.tot != stop
				})
				e["out"] = rs.list()
			})
			h.emit(e)
		case 11, 12:
			k, g := 1+h.r.Intn(len(h.T)), 1+h.r.Intn(len(h.T))
			if isMap[k] || isMap[g] {
				continue
			}
			if h.r.Intn(4) == 0 {
				e := M{"op": "g.diffall", "h": k, "g": g}
				h.call(e, func() {
					rs := &runs{h: h, b: b}
					h.T[k-1].Diff(h.T[g-1], [4]bool{true, true, true, true}, func(d api.DiffRep) bool {
						rs.add(d.P, d.V, d.D)
						return true
					})
					e["out"] = rs.list()
				})
				h.emit(e)
				continue
			}
			e := M{"op": "g.diff", "h": k, "g": g}
			h.call(e, func() {
				h.cmps = 0
				out := []interface{}{}
				e["r"] = h.T[k-1].Diff(h.T[g-1], [4]bool{true, true, true, false}, func(d api.DiffRep) bool {
					if len(out) < 3000 {
						out = append(out, M{"d": d.D, "p": h.jp(d.P), "v": d.V, "v2": d.V2})
					}
					return true
				})
				e["out"], e["cmp"] = out, h.cmps
			})
			h.emit(e)
		case 13:
			k := 1 + h.r.Intn(len(h.T))
			if len(h.T) >= 8 || isMap[k] {
				continue
			}
			fn := []int{h.r.Intn(4), h.r.Intn(3), h.r.Intn(5)}
			e := M{"op": "g.map", "h": k, "fn": fn}
			h.call(e, func() {
				calls, out := &runs{h: h, b: b}, &runs{h: h, b: b}
				u := h.T[k-1].Map(func(p P, v int) int {
					calls.add(p, v, "")
					x := h.mapFn(fn, h.m, p.L, v)
					h.known[x] = true
					return x
				})
				u.Walk(func(p P, v int) bool { out.add(p, v, ""); return true })
				e["calls"], e["out"] = calls.list(), out.list()
				h.addT(u)
				isMap[len(h.T)] = true
			})
			h.emit(e)
		case 14:
			k := 1 + h.r.Intn(len(h.T))
			if b.s == 2 && (isMap[k] || mods[k] > 0) {
				continue
			}
			e := M{"op": "g.agg", "h": k}
			h.call(e, func() {
				u := h.T[k-1].Agg()
				if b.s == 2 {
					rs := &runs{h: h, b: b}
					e["op"] = "g.aggrun"
					u.Walk(func(p P, v int) bool { rs.add(p, v, ""); return true })
					e["out"] = rs.list()
					return
				}
				out := []interface{}{}
				e["more"] = false
				u.Walk(func(p P, v int) bool {
					if len(out) >= 1500 {
						e["more"] = true
						return false
					}
					out = append(out, []interface{}{h.jp(p), v})
					return true
				})
				e["out"] = out
			})
			h.emit(e)
		case 15: // a burst of lookups
			for j := 0; j < 6; j++ {
				k, x := get()
				p := h.place(b)
				e := M{"op": "g.get", "h": k, "p": h.jp(p)}
				h.call(e, func() {
					v, ok := x.Get(h.arg0(p))
					e["found"] = ok
					if ok {
						e["v"] = v
					}
				})
				h.emit(e)
			}
		}
		if h.ev[len(h.ev)-1]["pan"] != 0 {
			return
		}
	}
}

func giantSetRun(h *H, n, i int) {
	b := h.giantBlock(2)
	var t api.MSet
	e := M{"op": "gs.fill", "root": h.jp(b.root), "len": b.l, "n": b.n, "s": b.s}
	h.call(e, func() {
		t = h.f.NewSet()
		h.order(b.n, func(i int) { t.Insert(api.SArg{Kind: "p", P: h.blkAt(b, i*2)}) })
	})
	h.emit(e)
	if e["pan"] != 0 {
		return
	}
	snap := func() {
		e := M{"op": "gs.snap"}
		h.call(e, func() { h.addS(t.Snap()) })
		h.emit(e)
	}
	listing := func(s api.Set) ([]interface{}, bool) {
		rs := &runs{h: h, b: b}
		r := s.WalkP(func(p P) bool { rs.add(p, 0, ""); return true })
		return rs.list(), r
	}
	// small prefixes and large ones, but not all of the block
	place := func() P {
		for {
			p := h.place(b)
			if p.L > b.root.L+4 && p.L+10 >= b.l {
				return p
			}
		}
	}
	snap()
	for len(h.ev) < n {
		k := 1 + h.r.Intn(len(h.S))
		g := 1 + h.r.Intn(len(h.S))
		switch h.r.Intn(14) {
		case 0, 1, 2, 3:
			o := []string{"ins", "rem"}[h.r.Intn(2)]
			e := M{"op": "gs.mod", "o": o, "h": 0}
			var a api.SArg
			if h.r.Intn(8) == 0 && len(h.S) > 1 {
				k = 2 + h.r.Intn(len(h.S)-1)
				e["h"] = k
				a = api.SArg{Kind: "s", S: h.S[k-1]}
			} else {
				p := h.noisy(place())
				e["p"] = h.jp(p)
				a = api.SArg{Kind: "p", P: p}
			}
			h.call(e, func() {
				if o == "ins" {
					t.Insert(a)
				} else {
					t.Remove(a)
				}
			})
			h.emit(e)
		case 4:
			if len(h.S) < 9 {
				snap()
			}
		case 5:
			if h.S[k-1].NumAddresses() < 0 { // not offered
				continue
			}
			e := M{"op": "gs.num", "h": k}
			h.call(e, func() { e["r"] = big(uint64(h.S[k-1].NumAddresses())) })
			h.emit(e)
		case 6:
			l := []int{b.l, b.l - 1, h.w, h.r.Intn(h.w + 1), min(h.w, b.l+46+h.r.Intn(6))}[h.r.Intn(5)]
			e := M{"op": "gs.npfx", "h": k, "l": l}
			h.call(e, func() {
				c, err := h.S[k-1].NumPrefixes(uint32(l))
				e["r"], e["err"] = big(c), err != nil
			})
			h.emit(e)
		case 7, 8:
			e := M{"op": "gs.list", "h": k}
			h.call(e, func() { e["out"], e["r"] = listing(h.S[k-1]) })
			h.emit(e)
		case 9:
			if len(h.S) >= 9 {
				continue
			}
			o := []string{"u", "i", "d"}[h.r.Intn(3)]
			e := M{"op": "gs.alg", "o": o, "h": k, "g": g}
			h.call(e, func() {
				s := h.S[k-1].Alg(o, api.SArg{Kind: "s", S: h.S[g-1]})
				e["out"], _ = listing(s)
				h.addS(s)
			})
			h.emit(e)
		case 10:
			e := M{"op": "gs.contains", "h": k, "g": g}
			h.call(e, func() { e["r"] = h.S[k-1].Contains(api.SArg{Kind: "s", S: h.S[g-1]}) })
			h.emit(e)
		case 11:
			p := place()
			e := M{"op": "gs.has", "h": k, "p": h.jp(p)}
			h.call(e, func() { e["r"] = h.S[k-1].Contains(api.SArg{Kind: "p", P: p}) })
			h.emit(e)
		case 12:
			e := M{"op": "gs.equal", "h": k, "g": g}
			h.call(e, func() { e["r"] = h.S[k-1].Equal(h.S[g-1]) })
			h.emit(e)
		case 13: // the other halves
			if h.r.Intn(3) > 0 {
				continue
			}
			e := M{"op": "gs.other"}
			h.call(e, func() {
				x, y := h.f.NewSet(), h.f.NewSet()
				h.order(b.n, func(i int) { x.Insert(api.SArg{Kind: "p", P: h.blkAt(b, i*2)}) })
				h.order(b.n, func(i int) { y.Insert(api.SArg{Kind: "p", P: h.blkAt(b, i*2+1)}) })
				xs, ys := x.Snap(), y.Snap()
				u := xs.Alg("u", api.SArg{Kind: "s", S: ys})
				plain := func(s api.Set) []interface{} {
					out := []interface{}{}
					s.WalkP(func(p P) bool {
						out = append(out, h.jp(p))
						return len(out) < 2000
					})
					return out
				}
				e["union"] = plain(u)
				e["inter"] = plain(xs.Alg("i", api.SArg{Kind: "s", S: ys}))
				e["back"] = u.Alg("d", api.SArg{Kind: "s", S: ys}).Equal(xs) && xs.Equal(h.S[0]) && !ys.Equal(xs)
				e["hasnum"] = u.NumAddresses() >= 0
				e["num"] = big(uint64(u.NumAddresses()))
			})
			h.emit(e)
		}
		if h.ev[len(h.ev)-1]["pan"] != 0 {
			return
		}
	}
}
func init() {
	profiles["giant"] = &profile{vals: 4, runner: giantRun}
	profiles["gset"] = &profile{vals: 4, runner: giantSetRun}
}
