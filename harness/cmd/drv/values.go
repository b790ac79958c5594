package main

import "addrsverif/api"

// vEq makes two values in different ways and compares them with == and as
// keys of a map.
func (h *H) vEq() bool {
	kind := []string{"a", "m", "p", "p", "r"}[h.r.Intn(5)]
	p, r := h.noisy(h.pick()), h.rng()
	if kind == "a" {
		p = P{A: h.point(), L: h.w}
	}
	if h.r.Intn(5) == 0 {
		p = P{rndAddr(h.r, h.w), rndLen(h.r, h.w)}
	}
	if h.r.Intn(12) == 0 {
		p, r = P{L: p.L}, api.Rng{}
	}
	q, s := p, r
	switch h.r.Intn(6) { // mostly the same thing, else one that differs a little
	case 0:
		q.A = setBit(h.w, p.A, h.r.Intn(h.w), h.r.Intn(2))
		s.Y = full(h.w)
	case 1:
		q.L = min(h.w, p.L+1)
		s.X = s.Y
	case 2:
		q = h.noisy(P{net(h.w, p), p.L})
		s = h.rng()
	}
	x, y := h.r.Intn(8), h.r.Intn(8)
	e := M{"op": "v.eq", "k": kind}
	switch kind {
	case "a":
		e["x"], e["y"] = h.limbs(p.A), h.limbs(q.A)
	case "m":
		e["x"], e["y"] = p.L, q.L
	case "p":
		e["x"], e["y"] = h.jp(p), h.jp(q)
	case "r":
		e["x"], e["y"] = h.jr(r), h.jr(s)
	}
	e["by"] = []int{x, y}
	h.call(e, func() {
		a, b := h.f.Value(kind, x, p, r), h.f.Value(kind, y, q, s)
		e["r"] = a == b
		e["key"] = map[interface{}]bool{a: true}[b]
	})
	h.emit(e)
	return true
}
func init() {
	profiles["value"] = &profile{npool: 8, spread: 12, ops: []op{{1, (*H).vEq}}}
}
