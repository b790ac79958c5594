package main

import (
	"addrsverif/api"
)

func (h *H) addS(s api.Set)              { h.S = append(h.S, s) }
func (h *H) addMS(m api.MSet, zero bool) { h.MS = append(h.MS, m); h.zeroMS = append(h.zeroMS, zero) }

// point is an address at or next to an edge of a pool prefix.
func (h *H) point() A {
	p := h.pick()
	switch h.r.Intn(5) {
	case 0:
		return net(h.w, p)
	case 1:
		return last(h.w, p)
	case 2:
		return succ(h.w, last(h.w, p))
	case 3:
		return pred(h.w, net(h.w, p))
	}
	return or(net(h.w, p), and(A{h.r.Uint64() >> uint(h.r.Intn(64)), h.r.Uint64() >> uint(h.r.Intn(64))}, not(h.w, maskOf(h.w, p.L))))
}

func (h *H) rng() api.Rng {
	switch h.r.Intn(4) {
	case 0:
		p := h.pick()
		return api.Rng{X: net(h.w, p), Y: last(h.w, p)}
	case 1: // complementary ends and near misses of them
		p := h.pick()
		x, y := net(h.w, p), last(h.w, p)
		if h.r.Intn(2) == 0 && x != y {
			x = succ(h.w, x)
		}
		if h.r.Intn(2) == 0 && lt(x, y) {
			y = pred(h.w, y)
		}
		return api.Rng{X: x, Y: y}
	}
	x, y := h.point(), h.point()
	if lt(y, x) {
		x, y = y, x
	}
	return api.Rng{X: x, Y: y}
}

// operand chooses a set argument; the int is the handle for the event.
func (h *H) operand(kinds string) (api.SArg, int) {
	a, i := h.operand0(kinds)
	if h.r.Intn(12) == 0 || h.pr.fault && h.r.Intn(3) == 0 {
		a.CB = h.tick // a type of the user's
	}
	return a, i
}
func (h *H) operand0(kinds string) (api.SArg, int) {
	for {
		switch kinds[h.r.Intn(len(kinds))] {
		case 'a':
			return api.SArg{Kind: "a", P: P{A: h.point(), L: h.w}}, 0
		case 'p':
			return api.SArg{Kind: "p", P: h.noisy(h.pick())}, 0
		case 'r':
			return api.SArg{Kind: "r", R: h.rng()}, 0
		case 's':
			if len(h.S) > 0 {
				i := h.r.Intn(len(h.S))
				return api.SArg{Kind: "s", S: h.S[i]}, i + 1
			}
		case 'm':
			if len(h.MS) > 0 {
				i := h.r.Intn(len(h.MS))
				return api.SArg{Kind: "m", M: h.MS[i]}, i + 1
			}
		case 'n':
			return api.SArg{Kind: "nil"}, 0
		}
	}
}

const anyOperand = "apprrssssmmn"

func (h *H) sNew() bool {
	if len(h.MS) > h.maxT(8) {
		return false
	}
	e := M{"op": "s.new"}
	h.call(e, func() { h.addMS(h.f.NewSet(), false) })
	h.emit(e)
	return true
}
func (h *H) sZero() bool {
	e := M{"op": "s.zero"}
	h.call(e, func() { h.addMS(h.f.ZeroMSet(), true) })
	h.emit(e)
	return true
}
func (h *H) sIZero() bool {
	e := M{"op": "s.izero"}
	h.call(e, func() { h.addS(h.f.ZeroSet()) })
	h.emit(e)
	return true
}
func (h *H) sSnap() bool {
	if len(h.MS) == 0 || len(h.S) > h.maxT(24) {
		return false
	}
	h.sSnapOf(h.r.Intn(len(h.MS)))
	return true
}
func (h *H) sSnapOf(i int) {
	e := M{"op": "s.snap", "h": i + 1}
	h.call(e, func() { h.addS(h.MS[i].Snap()) })
	h.emit(e)
}
func (h *H) sClone() bool {
	if len(h.S) == 0 || len(h.MS) > h.maxT(10) {
		return false
	}
	i := h.r.Intn(len(h.S))
	e := M{"op": "s.clone", "h": i + 1}
	h.call(e, func() { h.addMS(h.S[i].Mut(), false) })
	h.emit(e)
	return true
}
func (h *H) sCopy() bool {
	if len(h.MS) == 0 || len(h.MS) > h.maxT(10) {
		return false
	}
	i := h.r.Intn(len(h.MS))
	e := M{"op": "s.copy", "h": i + 1}
	h.call(e, func() { h.addMS(h.MS[i].Copy(), h.zeroMS[i]) })
	h.emit(e)
	return true
}
func (h *H) sMod() bool {
	if len(h.MS) == 0 {
		return false
	}
	i := h.r.Intn(len(h.MS))
	if h.r.Intn(2) == 0 {
		i = len(h.MS) - 1
	}
	h.sModOn(i)
	return true
}

// sMove exchanges addresses for others, so that their number stays.
func (h *H) sMove(i int) bool {
	if h.zeroMS[i] {
		return false
	}
	var ps []P
	e := M{"op": "s.peek"}
	h.call(e, func() {
		h.MS[i].Snap().WalkP(func(p P) bool {
			ps = append(ps, p)
			return len(ps) < capOut
		})
	})
	if e["pan"] != 0 || len(ps) == 0 {
		return false
	}
	p := ps[h.r.Intn(len(ps))]
	if h.r.Intn(3) == 0 && p.L < h.w { // a half or an address of it only
		p.A = or(net(h.w, p), and(rndAddr(h.r, h.w), not(h.w, maskOf(h.w, p.L))))
		p.L = min(h.w, p.L+1+h.r.Intn(3))
	}
	arg := func(p P) api.SArg { return api.SArg{Kind: "p", P: h.noisy(p)} }
	q := h.moved(p)
	if h.r.Intn(2) == 0 {
		h.smodOn(i, "rem", arg(p), 0)
		h.smodOn(i, "ins", arg(q), 0)
	} else {
		h.smodOn(i, "ins", arg(q), 0)
		h.smodOn(i, "rem", arg(p), 0)
	}
	return true
}
func (h *H) sModOn(i int) {
	if h.r.Intn(12) == 0 && h.sMove(i) {
		return
	}
	o := "ins"
	if h.r.Intn(5) < 2 {
		o = "rem"
	}
	a, idx := h.operand("aapppprrrsmn")
	h.smodOn(i, o, a, idx)
}
func (h *H) smodOn(i int, o string, a api.SArg, idx int) {
	e := M{"op": "s.mod", "o": o, "h": i + 1, "y": h.jsarg(a, idx)}
	h.call(e, func() {
		if o == "ins" {
			h.MS[i].Insert(a)
		} else {
			h.MS[i].Remove(a)
		}
	})
	h.emit(e)
}
func (h *H) listOf(s api.Set, stop int) ([]interface{}, bool) {
	out := []interface{}{}
	r := s.WalkP(func(p P) bool {
		h.reenter()
		out = append(out, h.jp(p))
		return len(out) != stop && len(out) < capOut
	})
	return out, r
}
func (h *H) sAlg() bool {
	if len(h.S) > h.maxT(24) {
		return false
	}
	x, xi := h.operand("ssssm")
	y, yi := h.operand(anyOperand)
	return h.algOn([]string{"u", "i", "d"}[h.r.Intn(3)], x, xi, y, yi)
}
func (h *H) algOn(o string, x api.SArg, xi int, y api.SArg, yi int) bool {
	e := M{"op": "s.alg", "o": o, "x": h.jsarg(x, xi), "y": h.jsarg(y, yi)}
	h.call(e, func() {
		var z api.Set
		if x.Kind == "s" {
			z = x.S.Alg(o, y)
		} else {
			z = x.M.Alg(o, y)
		}
		e["out"], _ = h.listOf(z, 0)
		h.addS(z)
	})
	h.emit(e)
	return e["pan"] == 0
}
func (h *H) sTo() bool {
	if len(h.S) > h.maxT(24) {
		return false
	}
	x, xi := h.operand("aapppprrrrrrsm")
	return h.toOn(x, xi)
}
func (h *H) toOn(x api.SArg, xi int) bool {
	e := M{"op": "s.to", "x": h.jsarg(x, xi)}
	h.call(e, func() {
		z := h.f.ToSet(x)
		e["out"], _ = h.listOf(z, 0)
		h.addS(z)
	})
	h.emit(e)
	return e["pan"] == 0
}
func (h *H) sList() bool {
	if len(h.MS) > 0 && (len(h.S) == 0 || h.r.Intn(2) == 0) {
		h.sListOn("m", h.r.Intn(len(h.MS)))
		return true
	}
	if len(h.S) == 0 {
		return false
	}
	h.sListOn("s", h.r.Intn(len(h.S)))
	return true
}
func (h *H) sListOn(k string, i int) {
	e := M{"op": "s.list", "k": k, "h": i + 1}
	h.call(e, func() {
		if k == "m" {
			e["out"], _ = h.listOf(h.MS[i].Snap(), 0)
		} else {
			e["out"], _ = h.listOf(h.S[i], 0)
		}
	})
	h.emit(e)
}
func (h *H) sAll() bool {
	for i := range h.S {
		h.sListOn("s", i)
	}
	for i := range h.MS {
		h.sListOn("m", i)
	}
	return true
}
func (h *H) sContains() bool {
	x, xi := h.operand("pprrsssm")
	y, yi := h.operand(anyOperand)
	h.containsOn(x, xi, y, yi)
	return true
}
func (h *H) containsOn(x api.SArg, xi int, y api.SArg, yi int) bool {
	e := M{"op": "s.contains", "x": h.jsarg(x, xi), "y": h.jsarg(y, yi)}
	h.call(e, func() { e["r"] = h.f.Contains(x, y) })
	h.emit(e)
	return true
}
func (h *H) sEqual() bool {
	k := "s"
	if h.r.Intn(4) == 0 {
		k = "m"
	}
	x, xi := h.operand(k)
	y, yi := h.operand(k)
	return h.equalOn(k, x, xi, y, yi)
}
func (h *H) equalOn(k string, x api.SArg, xi int, y api.SArg, yi int) bool {
	e := M{"op": "s.equal", "x": h.jsarg(x, xi), "y": h.jsarg(y, yi)}
	h.call(e, func() {
		if k == "s" {
			e["r"] = x.S.Equal(y.S)
		} else {
			e["r"] = x.M.Equal(y.M)
		}
	})
	h.emit(e)
	return true
}
func (h *H) sEmpty() bool {
	x, xi := h.operand("sm")
	return h.emptyOn(x, xi)
}
func (h *H) emptyOn(x api.SArg, xi int) bool {
	e := M{"op": "s.empty", "x": h.jsarg(x, xi)}
	h.call(e, func() {
		if x.Kind == "s" {
			e["r"] = x.S.IsEmpty()
		} else {
			e["r"] = x.M.IsEmpty()
		}
	})
	h.emit(e)
	return true
}
func (h *H) sNum() bool {
	if h.w != 32 {
		return false
	}
	x, xi := h.operand("pprrssm")
	return h.numOn(x, xi)
}
func (h *H) numOn(x api.SArg, xi int) bool {
	e := M{"op": "s.num", "x": h.jsarg(x, xi)}
	h.call(e, func() { e["r"] = big(uint64(h.f.NumAddresses(x))) })
	h.emit(e)
	return true
}
func (h *H) sNumPfx() bool {
	x, xi := h.operand("pprrsss")
	l := h.anyLen()
	if h.w == 128 && h.r.Intn(2) == 0 { // around the 64-bit limit, of one prefix or of all together
		switch x.Kind {
		case "p":
			l = min(200, x.P.L+60+h.r.Intn(8))
		case "s":
			shortest := h.w
			h.call(M{"op": "s.peek"}, func() {
				x.S.WalkP(func(p P) bool { shortest = min(shortest, p.L); return true })
			})
			l = min(h.w, shortest+61+h.r.Intn(4))
		}
	}
	return h.numPfxOn(x, xi, l)
}
func (h *H) numPfxOn(x api.SArg, xi, l int) bool {
	e := M{"op": "s.npfx", "x": h.jsarg(x, xi), "l": l}
	h.call(e, func() {
		n, err := h.f.NumPrefixes(x, uint32(l))
		e["err"] = err != nil
		e["r"] = big(n)
	})
	h.emit(e)
	return true
}
func (h *H) anyLen() int {
	switch h.r.Intn(8) {
	case 0:
		return h.w + 1 + h.r.Intn(300)
	case 1, 2:
		return rndLen(h.r, h.w)
	case 3:
		return h.w
	}
	return min(h.w, max(0, h.pick().L-1+h.r.Intn(6)))
}
func (h *H) sWalkP() bool {
	if len(h.S) == 0 {
		return false
	}
	return h.walkPOn(h.r.Intn(len(h.S)), h.stop(h.items(10)))
}
func (h *H) walkPOn(i, stop int) bool {
	e := M{"op": "s.walkp", "h": i + 1, "stop": stop}
	h.call(e, func() {
		h.inWalk = true
		e["out"], e["r"] = h.listOf(h.S[i], stop)
	})
	h.inWalk = false
	h.emit(e)
	return true
}
func (h *H) sWalkR() bool {
	if len(h.S) == 0 {
		return false
	}
	return h.walkROn(h.r.Intn(len(h.S)), h.stop(h.items(8)))
}
func (h *H) walkROn(i, stop int) bool {
	e := M{"op": "s.walkr", "h": i + 1, "stop": stop}
	h.call(e, func() {
		h.inWalk = true
		out := []interface{}{}
		e["r"] = h.S[i].WalkR(func(r api.Rng) bool {
			h.reenter()
			out = append(out, h.jr(r))
			return len(out) != stop && len(out) < capOut
		})
		e["out"] = out
	})
	h.inWalk = false
	h.emit(e)
	return true
}
func (h *H) sWalkA() bool {
	if len(h.S) == 0 || h.w != 32 {
		return false
	}
	i := h.r.Intn(len(h.S))
	stop := 1 + h.r.Intn(60)
	if h.r.Intn(2) == 0 {
		stop = 300
	}
	return h.walkAOn(i, stop)
}
func (h *H) walkAOn(i, stop int) bool {
	e := M{"op": "s.walka", "h": i + 1, "stop": stop}
	h.call(e, func() {
		out := []interface{}{}
		h.inWalk = true
		e["r"] = h.S[i].WalkA(func(a A) bool {
			h.reenter()
			out = append(out, h.limbs(a))
			return len(out) < stop
		})
		e["out"] = out
	})
	h.inWalk = false
	h.emit(e)
	return true
}
func (h *H) sFind() bool {
	x, xi := h.operand("s")
	y, yi := h.operand(anyOperand)
	h.findOn(x, xi, y, yi, h.anyLen())
	return true
}
func (h *H) findOn(x api.SArg, xi int, y api.SArg, yi int, l int) (P, bool) {
	e := M{"op": "s.find", "x": h.jsarg(x, xi), "y": h.jsarg(y, yi), "l": l}
	var p P
	ok := false
	h.call(e, func() {
		q, err := x.S.Find(y, uint32(l))
		e["err"] = err != nil
		e["p"] = h.jp(q)
		p, ok = q, err == nil
	})
	h.emit(e)
	return p, ok
}

// sAlloc allocates from a set until it is full or a limit is reached, adding
// every result to a reserved mutable set.
func (h *H) sAlloc() bool {
	if len(h.S) == 0 || len(h.MS) > h.maxT(10) {
		return false
	}
	x, xi := h.operand("s")
	e := M{"op": "s.new"}
	h.call(e, func() { h.addMS(h.f.NewSet(), false) })
	h.emit(e)
	g := len(h.MS) - 1
	if h.r.Intn(2) == 0 {
		h.sModOn(g)
	}
	l := min(h.w, h.pick().L+1+h.r.Intn(4))
	for n := 0; n < 12; n++ {
		if h.r.Intn(3) == 0 {
			l = min(h.w, max(0, l+h.r.Intn(4)-2))
		}
		p, ok := h.findOn(x, xi, api.SArg{Kind: "m", M: h.MS[g]}, g+1, l)
		if !ok {
			break
		}
		a := api.SArg{Kind: "p", P: p}
		e := M{"op": "s.mod", "o": "ins", "h": g + 1, "y": h.jsarg(a, 0)}
		h.call(e, func() { h.MS[g].Insert(a) })
		h.emit(e)
	}
	return true
}
func (h *H) sBuild() bool {
	if len(h.S) == 0 || len(h.S) > h.maxT(20) || len(h.MS) > h.maxT(10) || h.depth > 2 {
		return false
	}
	i := h.r.Intn(len(h.S))
	commit := h.r.Intn(3) > 0
	end := M{"op": "s.bend", "h": i + 1, "commit": commit}
	h.depth++
	h.call(end, func() {
		res := h.S[i].Build(func(m api.MSet) bool {
			h.emit(M{"op": "s.bbeg", "h": i + 1, "pan": 0, "al": 0})
			h.addMS(m, false)
			g := len(h.MS) - 1
			end["g"] = g + 1
			n := h.r.Intn(5)
			if h.r.Intn(3) == 0 && h.sMove(g) {
				n = h.r.Intn(2)
			}
			for ; n > 0; n-- {
				if h.r.Intn(4) > 0 {
					h.sModOn(g)
				} else {
					h.step()
				}
			}
			h.tick()
			return commit
		})
		end["out"], _ = h.listOf(res, 0)
		h.addS(res)
	})
	h.depth--
	h.emit(end)
	return end["pan"] == 0
}

// ---- stateless facts

func (h *H) rFrom() bool {
	x, y := h.point(), h.point()
	if h.r.Intn(6) == 0 {
		y = x
	}
	e := M{"op": "r.from", "x": h.limbs(x), "y": h.limbs(y)}
	h.call(e, func() {
		r, empty := h.f.RangeFrom(x, y)
		e["empty"], e["lo"], e["hi"] = empty, h.limbs(r.X), h.limbs(r.Y)
	})
	h.emit(e)
	return true
}
func (h *H) rOp(op string) bool {
	x, y := h.rng(), h.rng()
	switch h.r.Intn(6) {
	case 0: // make y start right after x, or end right before it
		y = api.Rng{X: succ(h.w, x.Y), Y: succ(h.w, x.Y)}
	case 1:
		y = api.Rng{X: A{}, Y: pred(h.w, x.X)}
	case 2:
		y = x
		if h.r.Intn(2) == 0 {
			y.Y = full(h.w)
		}
	}
	if lt(y.Y, y.X) {
		y = x
	}
	if h.r.Intn(2) == 0 {
		x, y = y, x
	}
	e := M{"op": op, "x": h.jsarg(api.SArg{Kind: "r", R: x}, 0), "y": h.jsarg(api.SArg{Kind: "r", R: y}, 0)}
	h.call(e, func() {
		var rs []api.Rng
		if op == "r.plus" {
			rs = h.f.Plus(x, y)
		} else {
			rs = h.f.Minus(x, y)
		}
		out := []interface{}{}
		for _, r := range rs {
			out = append(out, h.jr(r))
		}
		e["out"] = out
	})
	h.emit(e)
	return true
}
func (h *H) rPlus() bool  { return h.rOp("r.plus") }
func (h *H) rMinus() bool { return h.rOp("r.minus") }

func (h *H) pFacts() bool {
	p := h.noisy(h.pick())
	if h.r.Intn(2) == 0 {
		p = P{rndAddr(h.r, h.w), rndLen(h.r, h.w)}
	}
	h.factsOn(p)
	return true
}
func (h *H) factsOn(p P) {
	e := M{"op": "p.facts", "p": h.jp(p)}
	h.call(e, func() {
		f := h.f.PrefixFacts(p)
		e["addr"], e["len"] = h.limbs(f.Addr), f.Len
		e["self"] = h.jp(f.Self)
		e["net"], e["host"] = h.jp(f.Net), h.jp(f.Host)
		e["bcast"] = []int{}
		if f.HasBcast {
			e["bcast"] = h.jp(f.Bcast)
		}
		e["mask"], e["mlen"] = h.limbs(f.Mask), f.MaskLen
		e["words"] = []interface{}{h.limbs(f.WAddr), h.limbs(f.WMask)}
		e["lo"], e["hi"] = h.limbs(f.Lo), h.limbs(f.Hi)
		e["halves"] = []interface{}{h.jp(f.H1), h.jp(f.H2)}
	})
	h.emit(e)
}
func (h *H) aFacts() bool {
	a := rndAddr(h.r, h.w)
	e := M{"op": "a.facts", "a": h.limbs(a)}
	h.call(e, func() {
		e["pfx"], e["bits"], e["back"] = h.jp(h.f.AddrPrefix(a)), h.f.AddrBits(a), h.limbs(h.f.AddrBack(a))
	})
	h.emit(e)
	return true
}
