package main

import (
	"math/bits"
	"math/rand"

	"addrsverif/api"
)

// ---- 128-bit helpers on neutral addresses (independent of the library)

type A = api.Addr
type P = api.Pfx

func maskOf(w, l int) A { // ones in the first l of w bits, right-aligned in 128
	if w == 32 {
		if l == 0 {
			return A{}
		}
		return A{Lo: uint64(uint32(0xffffffff) << (32 - l))}
	}
	switch {
	case l == 0:
		return A{}
	case l <= 64:
		return A{Hi: ^uint64(0) << (64 - l)}
	default:
		return A{Hi: ^uint64(0), Lo: ^uint64(0) << (128 - l)}
	}
}
func full(w int) A      { return maskOf(w, w) }
func and(a, b A) A      { return A{a.Hi & b.Hi, a.Lo & b.Lo} }
func or(a, b A) A       { return A{a.Hi | b.Hi, a.Lo | b.Lo} }
func not(w int, a A) A  { return A{^a.Hi & full(w).Hi, ^a.Lo & full(w).Lo} }
func net(w int, p P) A  { return and(p.A, maskOf(w, p.L)) }
func last(w int, p P) A { return or(p.A, not(w, maskOf(w, p.L))) }
func lt(a, b A) bool    { return a.Hi < b.Hi || a.Hi == b.Hi && a.Lo < b.Lo }
func succ(w int, a A) A {
	lo, c := bits.Add64(a.Lo, 1, 0)
	r := A{a.Hi + c, lo}
	return and(r, full(w))
}
func pred(w int, a A) A {
	lo, c := bits.Sub64(a.Lo, 1, 0)
	r := A{a.Hi - c, lo}
	return and(r, full(w))
}
func setBit(w int, a A, i int, v int) A { // i = 0 is the most significant bit
	pos := w - 1 - i
	var m A
	if pos >= 64 {
		m.Hi = 1 << (pos - 64)
	} else {
		m.Lo = 1 << pos
	}
	if v != 0 {
		return or(a, m)
	}
	return and(a, not(w, m))
}
func getBit(w int, a A, i int) int {
	pos := w - 1 - i
	if pos >= 64 {
		return int(a.Hi >> (pos - 64) & 1)
	}
	return int(a.Lo >> pos & 1)
}
func rndAddr(r *rand.Rand, w int) A {
	a := A{r.Uint64(), r.Uint64()}
	switch r.Intn(9) {
	case 0:
		a = A{}
	case 1:
		a = A{^uint64(0), ^uint64(0)}
	case 2:
		a = specials[w][r.Intn(len(specials[w]))]
	case 3: // both halves alike
		if a.Lo = a.Hi; w == 32 {
			a.Lo = a.Lo&0xffff | a.Lo&0xffff<<16
		}
	}
	return and(a, full(w))
}
func covers(w int, p, q P) bool { return p.L <= q.L && net(w, P{q.A, p.L}) == net(w, p) }

// interesting lengths
func rndLen(r *rand.Rand, w int) int {
	switch r.Intn(4) {
	case 0:
		c := []int{0, 1, 2, 7, 8, 9, 15, 16, 17, w/2 - 1, w / 2, w/2 + 1, w - 8, w - 2, w - 1, w}
		return c[r.Intn(len(c))]
	default:
		return r.Intn(w + 1)
	}
}
func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// genPool makes n related prefixes: nested, sibling and adjacent ones around
// an arena at a random place (or at either end) of the address space. spread
// bounds how much longer than the arena's shortest prefix most of them are.
func genPool(r *rand.Rand, w, n, spread int) []P {
	base := rndAddr(r, w)
	l0 := rndLen(r, w)
	if r.Intn(3) > 0 && l0 > w-3 {
		l0 = w - 3 - r.Intn(4)
	}
	root := P{net(w, P{base, l0}), l0}
	pool := []P{root}
	for tries := 0; len(pool) < n && tries < 50*n; tries++ {
		p := pool[r.Intn(len(pool))]
		var q P
		kind := r.Intn(14)
		switch kind {
		case 0, 1, 2, 3: // child
			k := 1 + r.Intn(3)
			if r.Intn(5) == 0 {
				k = 1 + r.Intn(max(1, spread))
			}
			q = P{p.A, min(w, p.L+k)}
			for i := p.L; i < q.L; i++ {
				q.A = setBit(w, q.A, i, r.Intn(2))
			}
		case 4, 5: // sibling
			if p.L == 0 {
				continue
			}
			q = P{setBit(w, p.A, p.L-1, 1-getBit(w, p.A, p.L-1)), p.L}
		case 6: // ancestor
			q = P{p.A, max(0, p.L-1-r.Intn(3))}
		case 7: // block before or after
			if r.Intn(2) == 0 {
				q = P{succ(w, last(w, p)), p.L}
			} else {
				q = P{pred(w, net(w, p)), p.L}
			}
		case 8: // a host at an edge
			a := net(w, p)
			if r.Intn(2) == 0 {
				a = last(w, p)
			}
			q = P{a, w}
			if r.Intn(3) == 0 {
				q.L = w - 1
			}
		case 9:
			if r.Intn(4) == 0 {
				q = P{rndAddr(r, w), rndLen(r, w)}
			} else if r.Intn(6) == 0 {
				q = P{A{}, 0}
			} else {
				continue
			}
		case 10, 11: // follows in the lower half of the address only
			a := last(w, p)
			k := w - 1
			if w == 32 {
				a.Lo = a.Lo&^0xffff | (a.Lo+1)&0xffff
			} else {
				a.Lo++
			}
			if i := w/2 - 1 - r.Intn(2)*r.Intn(4); r.Intn(4) > 0 {
				a = setBit(w, a, i, 1-getBit(w, a, i))
			}
			for k >= 0 && getBit(w, a, k) == 0 {
				k--
			}
			q = P{a, w}
			if r.Intn(3) > 0 {
				q.L = min(w, max(k+1, w/2))
			}
		case 13: // its image in another branch
			if p.L == 0 {
				continue
			}
			i := max(0, p.L-1-r.Intn(6))
			if r.Intn(3) == 0 {
				i = r.Intn(p.L)
			}
			q = P{setBit(w, p.A, i, 1-getBit(w, p.A, i)), p.L}
		case 12: // the halves exchanged, made equal, or changed in the same bit
			a := net(w, p)
			if w == 32 {
				a = A{a.Lo >> 16, a.Lo & 0xffff}
			}
			switch i := r.Intn(w / 2); r.Intn(3) {
			case 0:
				a = A{a.Lo, a.Hi}
			case 1:
				a.Lo = a.Hi
			case 2:
				a.Hi ^= 1 << i
				a.Lo ^= 1 << i
			}
			if w == 32 {
				a = A{Lo: a.Hi<<16 | a.Lo}
			}
			k := w
			for k > 0 && getBit(w, a, k-1) == 0 {
				k--
			}
			q = P{a, max(k, p.L)}
		}
		if q.L-l0 > spread && kind < 10 && r.Intn(4) > 0 {
			continue
		}
		q.A = net(w, q)
		dup := false
		for _, x := range pool {
			if x == q {
				dup = true
			}
		}
		if !dup {
			pool = append(pool, q)
		}
	}
	return pool
}
