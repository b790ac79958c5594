package main

import (
	"fmt"

	"addrsverif/api"
)

// A stretched place for the model's sets: each of the model's addresses
// stands for a segment of real addresses, and the segments lie side by side.
// Unions, differences, containment and maximal ranges are the model's,
// whatever the ends of the segments are.
type stretch []api.Rng

func (x *rep) placeStretch(n int) stretch {
	r, w := x.r, x.w
	top := full(w)
	near := func() A { // an end that is likely to matter
		switch r.Intn(5) {
		case 0:
			return A{}
		case 1:
			return top
		case 2: // about a power of two
			a := setBit(w, A{}, r.Intn(w), 1)
			for i := r.Intn(7) - 3; i != 0; {
				if i > 0 {
					a, i = succ(w, a), i-1
				} else {
					a, i = pred(w, a), i+1
				}
			}
			return a
		case 3:
			p := P{rndAddr(r, w), r.Intn(w + 1)}
			return last(w, p)
		}
		return rndAddr(r, w)
	}
	// the first addresses of the segments, and of what follows them
	for {
		m := map[A]bool{}
		at := near()
		one := r.Intn(3) > 0 // steps of one address are frequent
		for len(m) < n+1 {
			m[at] = true
			switch {
			case one && r.Intn(2) == 0 && at != top:
				at = succ(w, at)
			case r.Intn(2) == 0:
				at = last(w, P{at, r.Intn(w + 1)})
			default:
				at = near()
			}
			if m[at] {
				at = rndAddr(r, w)
			}
		}
		var as []A
		for a := range m {
			i := 0
			for i < len(as) && lt(as[i], a) {
				i++
			}
			as = append(as[:i], append([]A{a}, as[i:]...)...)
		}
		s := make(stretch, n)
		for i := range s {
			s[i] = api.Rng{X: as[i], Y: pred(w, as[i+1])}
		}
		if as[n] == top { // up to the very end
			s[n-1].Y = top
		}
		x.at = M{"family": x.f.Name(), "segments": fmt.Sprint(s)}
		return s
	}
}
func (s stretch) ranges(g *genSets, c int) (rs []api.Rng) {
	for _, r := range g.States[c].Rng {
		rs = append(rs, api.Rng{X: s[r[0]].X, Y: s[r[1]].Y})
	}
	return
}
func sameRs(a, b []api.Rng) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
func (x *rep) setIs(g *genSets, t stretch, s api.Set, c int, what string) {
	var got []api.Rng
	s.WalkR(func(r api.Rng) bool { got = append(got, r); return true })
	if want := t.ranges(g, c); !sameRs(got, want) {
		x.bad("%s: the set is %v, specified is %v", what, got, want)
	}
	x.ok()
}

// build makes set c from its ranges, or its segments.
func (x *rep) build(g *genSets, t stretch, c int) api.Set {
	parts := t.ranges(g, c)
	if x.r.Intn(3) == 0 {
		parts = nil
		for i := range t {
			if c>>i&1 == 1 {
				parts = append(parts, t[i])
			}
		}
	}
	m := x.f.NewSet()
	for _, i := range x.r.Perm(len(parts)) {
		m.Insert(x.rangeArg(parts[i]))
	}
	if x.r.Intn(4) == 0 { // or by removing the rest
		m = x.f.NewSet()
		all := len(g.States) - 1
		for _, r := range t.ranges(g, all) {
			m.Insert(x.rangeArg(r))
		}
		for _, r := range t.ranges(g, all&^c) {
			m.Remove(x.rangeArg(r))
		}
	}
	s := m.Snap()
	x.setIs(g, t, s, c, "built")
	return s
}

// stretched replays the model's operations at a stretched place.
func (x *rep) stretched(g *genSets) {
	n := len(g.States)
	t := x.placeStretch(1 << g.B)
	if x.prop == "C19" {
		for a := range g.States {
			for b := range g.States {
				if len(g.States[a].Rng) != 1 || len(g.States[b].Rng) != 1 {
					continue
				}
				y, z := t.ranges(g, a)[0], t.ranges(g, b)[0]
				if got, want := x.f.Plus(y, z), t.ranges(g, g.Union[a][b]); !sameRs(got, want) {
					x.bad("%v plus %v is %v, specified is %v", y, z, got, want)
				}
				x.ok()
				if got, want := x.f.Minus(y, z), t.ranges(g, g.Minus[a][b]); !sameRs(got, want) {
					x.bad("%v minus %v is %v, specified is %v", y, z, got, want)
				}
				x.ok()
			}
		}
		return
	}
	A := make([]api.Set, n)
	for _, c := range x.r.Perm(n) {
		A[c] = x.build(g, t, c)
	}
	operand := func(c int) api.SArg {
		rs := t.ranges(g, c)
		switch {
		case len(rs) == 1 && x.r.Intn(2) == 0:
			return x.rangeArg(rs[0])
		case len(rs) == 0 && x.r.Intn(2) == 0:
			return api.SArg{Kind: "nil"}
		case x.r.Intn(3) == 0:
			return api.SArg{Kind: "m", M: A[c].Mut()}
		}
		return api.SArg{Kind: "s", S: A[c]}
	}
	pairs := 3000
	if x.full {
		pairs = 20000
	}
	tab := map[string][][]int{"u": g.Union, "i": g.Inter, "d": g.Minus}
	switch x.prop {
	case "C13", "C14":
		for i := 0; i < pairs; i++ {
			a, b := x.r.Intn(n), x.r.Intn(n)
			y := operand(b)
			for _, o := range []string{"u", "i", "d"} {
				c := tab[o][a][b]
				s := A[a].Alg(o, y)
				x.setIs(g, t, s, c, fmt.Sprintf("%s of %v and %v as %s", o, t.ranges(g, a), t.ranges(g, b), y.Kind))
				if x.prop == "C14" {
					z := x.r.Intn(n)
					if s.Equal(A[z]) != (z == c) || !s.Equal(A[c]) || !A[c].Equal(s) {
						x.bad("%v compares wrongly with %v or itself", t.ranges(g, c), t.ranges(g, z))
					}
					var p, q []P
					s.WalkP(func(y P) bool { p = append(p, y); return true })
					A[c].WalkP(func(y P) bool { q = append(q, y); return true })
					if !samePs(p, q) || s.String() != A[c].String() {
						x.bad("two sets of %v list %v (%s) and %v (%s)", t.ranges(g, c), x.pstrs(p), s.String(), x.pstrs(q), A[c].String())
					}
					x.ok()
				}
			}
			if x.prop == "C13" {
				if want := g.Subset[a][b] == 1; A[a].Contains(y) != want {
					x.bad("%v contains %v as %s: %v", t.ranges(g, a), t.ranges(g, b), y.Kind, !want)
				}
				if A[a].Equal(A[b]) != (a == b) || A[a].IsEmpty() != (a == 0) {
					x.bad("%v equals %v, or is empty, wrongly", t.ranges(g, a), t.ranges(g, b))
				}
				x.ok()
			}
		}
	case "C16":
		for c := range A {
			want := t.ranges(g, c)
			for stop := 0; stop <= len(want); stop++ {
				var got []api.Rng
				r := A[c].WalkR(func(p api.Rng) bool { got = append(got, p); return len(got) <= stop })
				if r != (stop == len(want)) || !sameRs(got, want[:min(stop+1, len(want))]) {
					x.bad("ranges of %v, stopped at %d: %v, %v", want, stop+1, got, r)
				}
				x.ok()
			}
		}
	case "C18":
		for a := range A {
			if len(g.States[a].Rng) != 1 {
				continue
			}
			r := t.ranges(g, a)[0]
			o := api.SArg{Kind: "r", R: r}
			x.setIs(g, t, x.f.ToSet(o), a, "the set of a range")
			y, empty := x.f.RangeFrom(r.X, r.Y)
			if empty || y != r {
				x.bad("the range from %v to %v is %v, %v", r.X, r.Y, y, empty)
			}
			if r.X != r.Y {
				if _, empty := x.f.RangeFrom(r.Y, r.X); !empty {
					x.bad("a range from %v to %v", r.Y, r.X)
				}
			}
			for b := range A {
				y := operand(b)
				if want := g.Subset[a][b] == 1; x.f.Contains(o, y) != want {
					x.bad("%v contains %v as %s: %v", r, t.ranges(g, b), y.Kind, !want)
				}
				x.ok()
			}
		}
	}
}
