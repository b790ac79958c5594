package main

import (
	"fmt"
	"math/bits"

	"addrsverif/api"
)

// spos is a place for the model's sets: its addresses are the blocks of
// length k+B under base; other is a block far from them, or none.
type spos struct {
	k     int
	base  P
	other *P
}

type sset struct {
	c  int // code
	o  bool
	s  api.Set
	at string
}

func (x *rep) placeSets(g *genSets) *spos {
	r, w := x.r, x.w
	k := r.Intn(w - g.B + 1)
	switch r.Intn(6) {
	case 0:
		k = 0
	case 1:
		k = w - g.B
	case 2:
		k = w/2 - 3 + r.Intn(5)
	}
	t := &spos{k: k, base: P{net(w, P{rndAddr(r, w), k}), k}}
	if k > 1 && r.Intn(2) == 0 {
		b := r.Intn(k - 1)
		q := P{setBit(w, t.base.A, b, 1-getBit(w, t.base.A, b)), b + 1}
		q.A = net(w, q)
		for e := r.Intn(4) * r.Intn(6); e > 0 && q.L < w; e-- {
			q.A = setBit(w, q.A, q.L, r.Intn(2))
			q.L++
		}
		if succ(w, last(w, q)) != t.base.A && succ(w, last(w, t.base)) != q.A {
			t.other = &q
		}
	}
	o := "none"
	if t.other != nil {
		o = x.pstr(*t.other)
	}
	x.at = M{"family": x.f.Name(), "base": x.pstr(t.base), "other": o}
	return t
}

// pfx is the model's prefix <<a, l>>.
func (x *rep) pfx(g *genSets, t *spos, p [2]int) P {
	a := t.base.A
	for i := 0; i < g.B; i++ {
		a = setBit(x.w, a, t.k+i, p[0]>>(g.B-1-i)&1)
	}
	return P{a, t.k + p[1]}
}
func (x *rep) srng(g *genSets, t *spos, r [2]int) api.Rng {
	return api.Rng{X: x.pfx(g, t, [2]int{r[0], g.B}).A, Y: last(x.w, x.pfx(g, t, [2]int{r[1], g.B}))}
}
func (x *rep) otherFirst(t *spos) bool { return lt(t.other.A, t.base.A) }
func (x *rep) wantP(g *genSets, t *spos, c int, o bool) (ps []P) {
	if o && x.otherFirst(t) {
		ps = append(ps, *t.other)
	}
	for _, p := range g.States[c].List {
		ps = append(ps, x.pfx(g, t, p))
	}
	if o && !x.otherFirst(t) {
		ps = append(ps, *t.other)
	}
	return
}
func (x *rep) wantR(g *genSets, t *spos, c int, o bool) (rs []api.Rng) {
	var q api.Rng
	if o {
		q = api.Rng{X: t.other.A, Y: last(x.w, *t.other)}
	}
	if o && x.otherFirst(t) {
		rs = append(rs, q)
	}
	for _, r := range g.States[c].Rng {
		rs = append(rs, x.srng(g, t, r))
	}
	if o && !x.otherFirst(t) {
		rs = append(rs, q)
	}
	return
}
func samePs(a, b []P) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
func (x *rep) setHolds(g *genSets, t *spos, s api.Set, c int, o bool, what string, a ...interface{}) {
	var got []P
	s.WalkP(func(p P) bool { got = append(got, p); return true })
	want := x.wantP(g, t, c, o)
	if !samePs(got, want) {
		x.bad("%s: the set is %v, specified is %v", fmt.Sprintf(what, a...), x.pstrs(got), x.pstrs(want))
	}
	x.ok()
}

// operand passes a part of the model in some way.
func (x *rep) rangeArg(r api.Rng) api.SArg {
	if r.X == r.Y && x.r.Intn(2) == 0 {
		return api.SArg{Kind: "a", P: P{r.X, x.w}}
	}
	return api.SArg{Kind: "r", R: r}
}
func (x *rep) pfxArg(p P) api.SArg {
	if p.L == x.w && x.r.Intn(2) == 0 {
		return api.SArg{Kind: "a", P: p}
	}
	if x.r.Intn(4) == 0 {
		return api.SArg{Kind: "r", R: api.Rng{X: net(x.w, p), Y: last(x.w, p)}}
	}
	if p.L < x.w && x.r.Intn(4) == 0 {
		p.A = or(net(x.w, p), and(A{x.r.Uint64(), x.r.Uint64()}, not(x.w, maskOf(x.w, p.L))))
	}
	return api.SArg{Kind: "p", P: p}
}

// makeSet builds set c in some way.
func (x *rep) makeSet(g *genSets, t *spos, c int, o bool) sset {
	all := len(g.States) - 1
	nA := 1 << g.B
	m := x.f.NewSet()
	way := x.r.Intn(6)
	var parts []api.SArg
	add := func(c int) []api.SArg {
		var ps []api.SArg
		switch x.r.Intn(3) {
		case 0:
			for _, p := range g.States[c].List {
				ps = append(ps, x.pfxArg(x.pfx(g, t, p)))
			}
		case 1:
			for _, r := range g.States[c].Rng {
				ps = append(ps, x.rangeArg(x.srng(g, t, r)))
			}
		default:
			for a := 0; a < nA; a++ {
				if c>>a&1 == 1 {
					ps = append(ps, x.pfxArg(x.pfx(g, t, [2]int{a, g.B})))
				}
			}
		}
		x.r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
		return ps
	}
	parts = add(c)
	if o {
		parts = append(parts, x.pfxArg(*t.other))
		x.r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	}
	var s api.Set
	switch way {
	case 0, 1: // insert the parts
		for _, p := range parts {
			m.Insert(p)
		}
		s = m.Snap()
	case 2: // from everything, remove the rest
		m.Insert(x.pfxArg(t.base))
		if o {
			m.Insert(x.pfxArg(*t.other))
		}
		for _, p := range add(all &^ c) {
			m.Remove(p)
		}
		s = m.Snap()
	case 3: // unions
		s = m.Snap()
		for _, p := range parts {
			s = s.Alg("u", p)
		}
	case 4: // build
		s = m.Snap().Build(func(b api.MSet) bool {
			for _, p := range parts {
				b.Insert(p)
			}
			return true
		})
	case 5: // the parts of two halves, then their union
		m2 := x.f.NewSet()
		for _, p := range parts {
			if x.r.Intn(2) == 0 {
				m.Insert(p)
			} else {
				m2.Insert(p)
			}
		}
		s = m.Snap().Alg("u", api.SArg{Kind: "s", S: m2.Snap()})
	}
	x.setHolds(g, t, s, c, o, "built in way %d", way)
	return sset{c: c, o: o, s: s}
}

// operandOf passes set y as an operand of some kind.
func (x *rep) operandOf(g *genSets, t *spos, y sset) api.SArg {
	if !y.o && x.r.Intn(2) == 0 {
		st := &g.States[y.c]
		switch {
		case len(st.List) == 0 && x.r.Intn(2) == 0:
			return api.SArg{Kind: "nil"}
		case len(st.List) == 1:
			return x.pfxArg(x.pfx(g, t, st.List[0]))
		case len(st.Rng) == 1:
			return x.rangeArg(x.srng(g, t, st.Rng[0]))
		}
	}
	if x.r.Intn(3) == 0 {
		return api.SArg{Kind: "m", M: y.s.Mut()}
	}
	return api.SArg{Kind: "s", S: y.s}
}

func (x *rep) sets(g *genSets) {
	t := x.placeSets(g)
	n := len(g.States)
	mk := func() []sset {
		ss := make([]sset, n)
		for _, c := range x.r.Perm(n) {
			ss[c] = x.makeSet(g, t, c, t.other != nil && x.r.Intn(2) == 0)
		}
		return ss
	}
	A, Bs := mk(), mk()
	pairs := 6000
	if x.full {
		pairs = n * n
	}
	pair := func(f func(a, b sset)) {
		for i := 0; i < pairs; i++ {
			a, b := i/n, i%n
			if !x.full {
				a, b = x.r.Intn(n), x.r.Intn(n)
			}
			f(A[a], Bs[b])
		}
	}
	tab := map[string][][]int{"u": g.Union, "i": g.Inter, "d": g.Minus}
	other := map[string]func(a, b bool) bool{
		"u": func(a, b bool) bool { return a || b },
		"i": func(a, b bool) bool { return a && b },
		"d": func(a, b bool) bool { return a && !b },
	}
	switch x.prop {
	case "C13", "C14":
		pair(func(a, b sset) {
			y := x.operandOf(g, t, b)
			for _, o := range []string{"u", "i", "d"} {
				s := a.s.Alg(o, y)
				c, oo := tab[o][a.c][b.c], other[o](a.o, b.o)
				x.setHolds(g, t, s, c, oo, "%s of %v and %v as %s", o, x.pstrs(x.wantP(g, t, a.c, a.o)), x.pstrs(x.wantP(g, t, b.c, b.o)), y.Kind)
				if x.prop == "C14" {
					z := A[c]
					if x.r.Intn(2) == 0 {
						z = Bs[c]
					}
					if s.Equal(z.s) != (z.o == oo) || z.s.Equal(s) != (z.o == oo) {
						x.bad("%v compares wrongly with %v", x.pstrs(x.wantP(g, t, c, oo)), x.pstrs(x.wantP(g, t, z.c, z.o)))
					}
					for k := 0; k < 8; k++ { // and other ones
						z := A[x.r.Intn(len(A))]
						if oo {
							z = Bs[x.r.Intn(len(Bs))]
						}
						if want := z.c == c && z.o == oo; s.Equal(z.s) != want || z.s.Equal(s) != want {
							x.bad("%v compares wrongly with %v", x.pstrs(x.wantP(g, t, c, oo)), x.pstrs(x.wantP(g, t, z.c, z.o)))
						}
					}
					continue
				}
				if s.IsEmpty() != (c == 0 && !oo) {
					x.bad("IsEmpty of %v", x.pstrs(x.wantP(g, t, c, oo)))
				}
				if o != "i" {
					m := a.s.Mut()
					if o == "u" {
						m.Insert(y)
					} else {
						m.Remove(y)
					}
					x.setHolds(g, t, m.Snap(), c, oo, "%s in place of %v and %v as %s", o, x.pstrs(x.wantP(g, t, a.c, a.o)), x.pstrs(x.wantP(g, t, b.c, b.o)), y.Kind)
				}
			}
			if x.prop == "C13" {
				want := g.Subset[a.c][b.c] == 1 && (a.o || !b.o)
				if a.s.Contains(y) != want {
					x.bad("%v contains %v as %s: %v", x.pstrs(x.wantP(g, t, a.c, a.o)), x.pstrs(x.wantP(g, t, b.c, b.o)), y.Kind, !want)
				}
				if want := a.c == b.c && a.o == b.o; a.s.Equal(b.s) != want {
					x.bad("%v equals %v: %v", x.pstrs(x.wantP(g, t, a.c, a.o)), x.pstrs(x.wantP(g, t, b.c, b.o)), !want)
				}
				x.setHolds(g, t, a.s, a.c, a.o, "the operand afterwards")
				x.setHolds(g, t, b.s, b.c, b.o, "the operand afterwards")
			}
		})
	case "C15":
		for _, a := range append(A, Bs...) {
			x.counts(g, t, a)
		}
	case "C16":
		for _, a := range append(A, Bs...) {
			x.walks(g, t, a)
		}
	case "C17":
		pair(func(a, b sset) { x.find(g, t, a, b) })
	case "C18":
		for a := 0; a < n; a++ {
			if len(g.States[a].Rng) != 1 {
				continue
			}
			r := x.srng(g, t, g.States[a].Rng[0])
			x.setHolds(g, t, x.f.ToSet(api.SArg{Kind: "r", R: r}), a, false, "the set of a range")
			ops := []api.SArg{{Kind: "r", R: r}}
			if len(g.States[a].List) == 1 {
				p := x.pfx(g, t, g.States[a].List[0])
				if y := x.f.PrefixRange(p); y != r {
					x.bad("the range of %s is %v", x.pstr(p), y)
				}
				q := x.pfxArg(p)
				x.setHolds(g, t, x.f.ToSet(q), a, false, "the set of a prefix")
				ops = append(ops, api.SArg{Kind: "p", P: p})
			}
			y, empty := x.f.RangeFrom(r.X, r.Y)
			if empty || y != r {
				x.bad("the range from %v to %v is %v, %v", r.X, r.Y, y, empty)
			}
			if r.X != r.Y {
				if _, empty := x.f.RangeFrom(r.Y, r.X); !empty {
					x.bad("a range from %v to %v", r.Y, r.X)
				}
			}
			for b := 0; b < n; b++ {
				for _, o := range ops {
					y := x.operandOf(g, t, Bs[b])
					want := g.Subset[a][b] == 1 && !Bs[b].o
					if x.f.Contains(o, y) != want {
						x.bad("%s %v contains %v as %s: %v", o.Kind, r, x.pstrs(x.wantP(g, t, b, Bs[b].o)), y.Kind, !want)
					}
					x.ok()
				}
			}
		}
	}
}

// pow is n * 2^e, if it fits in lim bits.
func pow(n uint64, e, lim int) (uint64, bool) {
	if n == 0 {
		return 0, true
	}
	if e < 0 {
		return 0, true
	}
	if bits.Len64(n)+e > lim {
		return 0, false
	}
	return n << e, true
}

func (x *rep) counts(g *genSets, t *spos, a sset) {
	if a.c == 0 && !a.o {
		return
	}
	num := g.States[a.c].Num
	for l := 0; l <= x.w; l++ {
		var n uint64
		fits := true
		switch {
		case l < t.k:
		case l <= t.k+g.B:
			n = num[l-t.k]
		default:
			n, fits = pow(num[g.B], l-t.k-g.B, 64)
		}
		if a.o {
			m := uint64(0)
			ok := true
			if l >= t.other.L {
				m, ok = pow(1, l-t.other.L, 64)
			}
			fits = fits && ok && n+m >= n
			n += m
		}
		got, err := x.f.NumPrefixes(api.SArg{Kind: "s", S: a.s}, uint32(l))
		if (err == nil) != fits || fits && got != n {
			x.bad("%v has %d prefixes of length %d (error %v); specified is %d, %v", x.pstrs(x.wantP(g, t, a.c, a.o)), got, l, err, n, fits)
		}
		x.ok()
	}
	for _, l := range []uint32{uint32(x.w) + 1, 200, 1 << 31, 1<<32 - 1} {
		if got, err := x.f.NumPrefixes(api.SArg{Kind: "s", S: a.s}, l); err == nil {
			x.bad("%v has %d prefixes of length %d and no error", x.pstrs(x.wantP(g, t, a.c, a.o)), got, l)
		}
	}
	if x.w == 32 {
		n, _ := pow(num[g.B], x.w-t.k-g.B, 62)
		if a.o {
			n += 1 << (x.w - t.other.L)
		}
		if got := a.s.NumAddresses(); got != int64(n) {
			x.bad("%v has %d addresses, specified is %d", x.pstrs(x.wantP(g, t, a.c, a.o)), got, n)
		}
		x.ok()
	}
}

func (x *rep) walks(g *genSets, t *spos, a sset) {
	wp, wr := x.wantP(g, t, a.c, a.o), x.wantR(g, t, a.c, a.o)
	for stop := 0; stop <= len(wp); stop++ {
		var got []P
		r := a.s.WalkP(func(p P) bool { got = append(got, p); return len(got) <= stop })
		want := wp
		if stop < len(wp) {
			want = wp[:stop+1]
		}
		if r != (stop == len(wp)) || !samePs(got, want) {
			x.bad("prefixes of %v, stopped at %d: %v, %v", x.pstrs(wp), stop+1, x.pstrs(got), r)
		}
		x.ok()
	}
	for stop := 0; stop <= len(wr); stop++ {
		var got []api.Rng
		r := a.s.WalkR(func(p api.Rng) bool { got = append(got, p); return len(got) <= stop })
		want := wr
		if stop < len(wr) {
			want = wr[:stop+1]
		}
		if r != (stop == len(wr)) || fmt.Sprint(got) != fmt.Sprint(want) {
			x.bad("ranges of %v, stopped at %d: %v, %v", x.pstrs(wp), stop+1, got, r)
		}
		x.ok()
	}
	if x.w == 32 && t.k+g.B >= x.w-3 && !a.o {
		var want []A
		for _, r := range wr {
			for y := r.X; ; y = succ(x.w, y) {
				want = append(want, y)
				if y == r.Y {
					break
				}
			}
		}
		for stop := 0; stop <= len(want); stop++ {
			var got []A
			r := a.s.WalkA(func(y A) bool { got = append(got, y); return len(got) <= stop && len(got) < 1000 })
			n := stop + 1
			if stop == len(want) {
				n = stop
			}
			if r != (stop == len(want)) || fmt.Sprint(got) != fmt.Sprint(want[:n]) {
				x.bad("addresses of %v, stopped at %d: %v, %v", x.pstrs(wp), stop+1, got, r)
			}
			x.ok()
		}
	}
}

func (x *rep) find(g *genSets, t *spos, a, b sset) {
	if a.o { // the free space is the model's only
		b.o = false
		a = x.makeSet(g, t, a.c, false)
	}
	y := x.operandOf(g, t, b)
	d := g.Minus[a.c][b.c]
	l := x.r.Intn(x.w + 1)
	if x.r.Intn(4) > 0 {
		l = t.k + x.r.Intn(min(g.B+3, x.w-t.k)+1)
	}
	check := func(d int) (P, bool) {
		p, err := a.s.Find(y, uint32(l))
		ok := false
		switch {
		case l < t.k:
		case l <= t.k+g.B:
			for _, q := range g.States[d].Fit[l-t.k] {
				ok = ok || x.pfx(g, t, q) == p
			}
			if len(g.States[d].Fit[l-t.k]) == 0 {
				ok = err != nil
			} else {
				ok = ok && err == nil
			}
		default: // in a smallest block that the model has
			if d == 0 {
				ok = err != nil
				break
			}
			small := 0
			for _, q := range g.States[d].List {
				small = max(small, q[1])
			}
			for _, q := range g.States[d].List {
				ok = ok || q[1] == small && covers(x.w, x.pfx(g, t, q), p) && p.L == l && net(x.w, p) == p.A
			}
			ok = ok && err == nil
		}
		if l < t.k {
			ok = err != nil
		}
		if !ok {
			x.bad("%v without %v: a prefix of length %d is %s, error %v", x.pstrs(x.wantP(g, t, a.c, false)), x.pstrs(x.wantP(g, t, b.c, b.o)),
				l, x.pstr(p), err)
		}
		x.ok()
		return p, err == nil
	}
	check(d)
	if l >= t.k && l <= t.k+g.B && x.r.Intn(4) == 0 { // allocate until failure
		m := b.s.Mut()
		y = api.SArg{Kind: "m", M: m}
		for n := g.States[d].Num[l-t.k]; ; n-- {
			p, ok := check(d)
			if ok != (n > 0) {
				x.bad("%d prefixes of length %d should be left: found %v", n, l, ok)
			}
			if !ok {
				break
			}
			for i := 0; i < 1<<g.B; i++ { // the model's addresses in p
				if q := x.pfx(g, t, [2]int{i, g.B}); covers(x.w, p, q) {
					d &^= 1 << i
				}
			}
			m.Insert(api.SArg{Kind: "p", P: p})
		}
	}
}
