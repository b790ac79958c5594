package main

import "addrsverif/api"

// Large scenarios ("profile+"): tables and sets of some hundred entries, and
// chains of entries nested in each other, built by bulk events that record
// many calls at once.

// bigPool makes a pool of one of several shapes.
func bigPool(h *H, i int) []P {
	r, w := h.r, h.w
	shape := i / 2 % 8 // both families
	switch shape {
	case 0, 1, 2: // a chain along one path, from the default route to a host, and what branches off it
		a := rndAddr(r, w)
		on, off := 8, 4
		if shape > 0 { // mostly branches
			on, off = 1+r.Intn(3), 1
		}
		switch r.Intn(4) + 2*shape { // along an edge of the space
		case 0, 2, 3:
			a = A{}
		case 1, 4, 5:
			a = full(w)
		}
		h.all = shape > 0
		pool := []P{}
		for l := 0; l <= w; l++ {
			if r.Intn(on) > 0 || l < 2 && r.Intn(2) == 0 {
				pool = append(pool, P{net(w, P{a, l}), l})
			}
			if l > 0 && r.Intn(off) == 0 {
				pool = append(pool, P{setBit(w, net(w, P{a, l}), l-1, 1-getBit(w, a, l-1)), l})
			}
			if l > 0 && r.Intn(12) == 0 {
				b := setBit(w, a, l-1, 1-getBit(w, a, l-1))
				n := min(w, l+1+r.Intn(4))
				pool = append(pool, P{net(w, P{b, n}), n})
			}
		}
		return pool
	case 3: // a densely filled block: runs of neighbouring prefixes of a few lengths
		l := min(w-8, max(0, rndLen(r, w)-8))
		base := net(w, P{rndAddr(r, w), l})
		pool := []P{}
		seen := map[P]bool{}
		for n := 0; n < 150+r.Intn(150); n++ {
			k := l + 8
			if r.Intn(4) == 0 {
				k = l + r.Intn(9)
			}
			q := base
			for i := l; i < k; i++ {
				q = setBit(w, q, i, r.Intn(2))
			}
			if p := (P{q, k}); !seen[p] {
				seen[p] = true
				pool = append(pool, p)
			}
		}
		return pool
	case 4: // all over the space
		pool := []P{}
		for n := 0; n < 120; n++ {
			p := P{rndAddr(r, w), rndLen(r, w)}
			pool = append(pool, P{net(w, p), p.L})
		}
		return pool
	}
	return genPool(r, w, 80+r.Intn(120), 10+r.Intn(12))
}

func (h *H) maxT(n int) int {
	if h.big {
		return 7
	}
	return n
}

// tBulk performs many modifications on a table as one event.
func (h *H) tBulkOn(i, n int, ops []string) {
	xs := make([]interface{}, 0, n)
	e := M{"op": "t.bulk", "h": i + 1}
	perm := h.r.Perm(len(h.pool))
	t := h.MT[i]
	h.call(e, func() {
		for k := 0; k < n; k++ {
			p := h.noisy(h.pool[perm[k%len(perm)]])
			v, o := h.val(), ops[h.r.Intn(len(ops))]
			a := api.PArg{Kind: "p", P: p}
			var r interface{} = true
			switch o {
			case "ins":
				r = t.Insert(a, v)
			case "upd":
				r = t.Update(a, v)
			case "iou":
				t.InsertOrUpdate(a, v)
			case "goi":
				r = t.GetOrInsert(a, v)
			case "rem":
				r = t.Remove(a)
			}
			xs = append(xs, M{"o": o, "p": h.jp(p), "v": v, "r": r})
		}
	})
	e["xs"] = xs
	h.emit(e)
}

// shape makes entries at and below p of which many branches look like each
// other: the same structure and values, or all but one of them.
func (h *H) shape(p P, depth int) []ent {
	var out []ent
	val := func() int {
		if h.pr.vals == 0 {
			return 1 + h.r.Intn(2)
		}
		if h.r.Intn(2) == 0 {
			return h.val()
		}
		v := 1 + h.r.Intn(4)
		h.known[v] = true
		return v
	}
	if h.r.Intn(4) > 0 {
		out = append(out, ent{p, val()})
	}
	k := 1
	if h.r.Intn(3) == 0 {
		k += h.r.Intn(3)
	}
	if depth == 0 || p.L+k > h.w {
		return out
	}
	below := func(side int) P {
		q := P{setBit(h.w, p.A, p.L, side), p.L + k}
		for i := p.L + 1; i < q.L; i++ {
			q.A = setBit(h.w, q.A, i, h.r.Intn(2))
		}
		return q
	}
	if h.r.Intn(5) == 0 {
		return append(out, h.shape(below(h.r.Intn(2)), depth-1)...)
	}
	a, b := below(0), below(1)
	sub := h.shape(a, depth-1)
	out = append(out, sub...)
	if h.r.Intn(5) == 0 {
		return append(out, h.shape(b, depth-1)...)
	}
	odd := -1 // the entry that differs
	if len(sub) > 0 && h.r.Intn(2) == 0 {
		odd = h.r.Intn(len(sub))
	}
	for i, e := range sub {
		q := ent{P{or(b.A, and(e.p.A, not(h.w, maskOf(h.w, b.L)))), e.p.L}, e.v}
		if i == odd {
			if h.r.Intn(3) == 0 {
				continue
			}
			q.v = val()
		}
		out = append(out, q)
	}
	return out
}

type ent struct {
	p P
	v int
}

func (h *H) shapeOf(more int) []ent {
	depth, most := 2+more+h.r.Intn(3), 28+12*more
	if h.big {
		depth, most = 4+h.r.Intn(4), 200
	}
	es := []ent{}
	for try := 0; try < 8 && (len(es) < 3 || len(es) > most); try++ {
		p := h.pool[h.r.Intn(len(h.pool))]
		p.L = max(0, min(p.L, h.w-h.r.Intn(8)-2))
		p.A = net(h.w, p)
		es = h.shape(p, depth)
	}
	if len(es) > most {
		es = es[:most]
	}
	return es
}

// tShape makes a table of lookalike branches, in any order, takes a version, modifies it and takes another.
func (h *H) tShape() bool {
	if len(h.MT) >= h.maxT(14)-1 || len(h.T) > h.maxT(24)-4 || !h.tNew() {
		return false
	}
	es := h.shapeOf(0)
	k := len(h.MT) - 1
	xs := make([]interface{}, 0, len(es))
	e := M{"op": "t.bulk", "h": k + 1}
	t := h.MT[k]
	h.call(e, func() {
		for _, i := range h.r.Perm(len(es)) {
			p := h.noisy(es[i].p)
			xs = append(xs, M{"o": "ins", "p": h.jp(p), "v": es[i].v, "r": t.Insert(api.PArg{Kind: "p", P: p}, es[i].v)})
		}
	})
	e["xs"] = xs
	h.emit(e)
	if e["pan"] != 0 || len(es) == 0 {
		return true
	}
	j := len(h.T)
	h.tSnapOf(k)
	for n := h.r.Intn(3); n > 0; n-- {
		p := es[h.r.Intn(len(es))].p
		if h.r.Intn(3) == 0 && p.L > 0 {
			p.A = setBit(h.w, p.A, p.L-1, 1-getBit(h.w, p.A, p.L-1))
		}
		h.tModOn(k, []string{"iou", "iou", "ins", "rem", "upd"}[h.r.Intn(5)], p)
	}
	h.tSnapOf(k)
	if len(h.T) != j+2 {
		return true
	}
	for _, o := range h.pr.shape {
		switch o {
		case 'a':
			h.aggOn(j + h.r.Intn(2))
		case 'd':
			a, b := j, j+1
			if h.r.Intn(2) == 0 {
				a, b = b, a
			}
			h.diffOn(a, b, [4]bool{true, true, true, h.r.Intn(2) == 0}, h.stop(2*len(es)))
		case 'm':
			h.mapOn(j+h.r.Intn(2), mapFns[h.r.Intn(len(mapFns))])
		case 'w':
			h.walkOn(j+h.r.Intn(2), h.stop(2*len(es)))
		}
	}
	return true
}
func (h *H) tBulk() bool {
	if len(h.MT) == 0 {
		return false
	}
	i := h.rndM()
	if h.zeroMT[i] {
		return false
	}
	ops := modOps
	if h.r.Intn(3) == 0 {
		ops = []string{"rem", "rem", "upd"}
	}
	h.tBulkOn(i, 1+h.r.Intn(len(h.pool)/2+1), ops)
	return true
}

func (h *H) most() int {
	if h.all {
		return len(h.pool)
	}
	return len(h.pool) * (2 + h.r.Intn(3)) / 4
}

// tLoad fills the last table with most of the pool.
func (h *H) tLoad() {
	h.tBulkOn(len(h.MT)-1, h.most(), []string{"ins", "ins", "iou", "goi"})
}

func (h *H) sBulkOn(i, n int, rem int) {
	xs := make([]interface{}, 0, n)
	e := M{"op": "s.bulk", "h": i + 1}
	perm := h.r.Perm(len(h.pool))
	h.call(e, func() {
		for k := 0; k < n; k++ {
			a := api.SArg{Kind: "p", P: h.noisy(h.pool[perm[k%len(perm)]])}
			if h.r.Intn(4) == 0 {
				a = api.SArg{Kind: "r", R: h.rng()}
			}
			o := "ins"
			if h.r.Intn(4) < rem {
				o = "rem"
			}
			if o == "ins" {
				h.MS[i].Insert(a)
			} else {
				h.MS[i].Remove(a)
			}
			xs = append(xs, M{"o": o, "y": h.jsarg(a, 0)})
		}
	})
	e["xs"] = xs
	h.emit(e)
}

// coversOne tells whether an entry lies below p
func (h *H) coversOne(es []ent, p P) bool {
	for _, e := range es {
		if e.p.L > p.L && net(h.w, P{e.p.A, p.L}) == net(h.w, p) {
			return true
		}
	}
	return false
}

// sShape makes a set of lookalike branches, takes a version, modifies it and takes another.
func (h *H) sShape() bool {
	if len(h.MS) >= h.maxT(8) || len(h.S) > h.maxT(24)-4 || !h.sNew() {
		return false
	}
	es := h.shapeOf(1)
	k := len(h.MS) - 1
	xs := make([]interface{}, 0, len(es))
	e := M{"op": "s.bulk", "h": k + 1}
	h.call(e, func() {
		which := h.r.Intn(6) // all of them, some, the lowest, or a part of each of the lowest
		side, more := h.r.Intn(2), 1+h.r.Intn(3)
		for _, i := range h.r.Perm(len(es)) {
			a := api.SArg{Kind: "p", P: h.noisy(es[i].p)}
			if which == 1 && es[i].v%2 == 0 && a.P.L < h.w-1 {
				continue
			}
			if which > 1 && h.coversOne(es, es[i].p) {
				continue
			}
			if which > 2 && a.P.L+more <= h.w {
				a.P = P{setBit(h.w, net(h.w, a.P), a.P.L, side), a.P.L + more}
			}
			h.MS[k].Insert(a)
			xs = append(xs, M{"o": "ins", "y": h.jsarg(a, 0)})
		}
	})
	e["xs"] = xs
	h.emit(e)
	if e["pan"] != 0 || len(es) == 0 {
		return true
	}
	j := len(h.S)
	h.sSnapOf(k)
	n := h.r.Intn(3)
	resized := h.r.Intn(3) == 0 && h.sResize(k)
	if resized {
		n = 0
	}
	for ; n > 0; n-- {
		p := es[h.r.Intn(len(es))].p
		if h.r.Intn(3) == 0 && p.L > 0 {
			p.A = setBit(h.w, p.A, p.L-1, 1-getBit(h.w, p.A, p.L-1))
		}
		h.smodOn(k, []string{"ins", "rem", "rem"}[h.r.Intn(3)], api.SArg{Kind: "p", P: p}, 0)
	}
	h.sSnapOf(k)
	if len(h.S) != j+2 {
		return true
	}
	a, b := j, j+1
	if h.r.Intn(2) == 0 {
		a, b = b, a
	}
	x, y := api.SArg{Kind: "s", S: h.S[a]}, api.SArg{Kind: "s", S: h.S[b]}
	if h.pr.shape == "f" {
		h.findOn(x, a+1, y, b+1, h.anyLen())
		return true
	}
	h.algOn([]string{"u", "i", "d"}[h.r.Intn(3)], x, a+1, y, b+1)
	if resized || h.r.Intn(3) == 0 {
		h.smodOn(k, []string{"ins", "ins", "rem"}[h.r.Intn(3)], api.SArg{Kind: "s", S: h.S[j]}, j+1)
		h.sListOn("m", k)
	}
	return true
}

// sResize makes prefixes of a set twice or half as large, one or all of them, so that their number and the shape stay.
func (h *H) sResize(i int) bool {
	var ps []P
	xs := []interface{}{}
	e := M{"op": "s.bulk", "h": i + 1}
	h.call(e, func() {
		h.MS[i].Snap().WalkP(func(p P) bool {
			ps = append(ps, p)
			return len(ps) < capOut
		})
		grow, one := h.r.Intn(2) == 0, -1
		if h.r.Intn(3) == 0 && len(ps) > 0 {
			one = h.r.Intn(len(ps))
		}
		for j, p := range ps {
			if one >= 0 && one != j || grow && p.L == 0 || !grow && p.L == h.w {
				continue
			}
			o := "ins"
			if grow {
				p.L--
			} else {
				o, p = "rem", P{A: setBit(h.w, net(h.w, p), p.L, h.r.Intn(2)), L: p.L + 1}
			}
			a := api.SArg{Kind: "p", P: h.noisy(p)}
			if grow {
				h.MS[i].Insert(a)
			} else {
				h.MS[i].Remove(a)
			}
			xs = append(xs, M{"o": o, "y": h.jsarg(a, 0)})
		}
	})
	e["xs"] = xs
	h.emit(e)
	return e["pan"] == 0
}
func (h *H) sBulk() bool {
	if len(h.MS) == 0 {
		return false
	}
	i := h.r.Intn(len(h.MS))
	if h.zeroMS[i] {
		return false
	}
	h.sBulkOn(i, 1+h.r.Intn(len(h.pool)/2+1), 1+h.r.Intn(3))
	return true
}
func (h *H) sLoad() {
	// most prefixes short of the largest ones, or the set is one range
	keep := []P{}
	for _, p := range h.pool {
		if p.L > h.w/2 || h.r.Intn(10) == 0 {
			keep = append(keep, p)
		}
	}
	if len(keep) > 20 {
		h.pool = keep
	}
	h.sBulkOn(len(h.MS)-1, h.most(), h.r.Intn(2))
	h.sSnap()
	h.sBulkOn(len(h.MS)-1, len(h.pool)/3, 2)
	h.sSnap()
}

// items is a guess at the length of a listing of a set.
func (h *H) items(n int) int {
	if h.big {
		return len(h.pool)
	}
	return n
}
