package main

import (
	"fmt"
	"math"
	"math/rand"
	"strings"

	"addrsverif/api"
	"addrsverif/fam4"
	"addrsverif/fam6"
	"addrsverif/famip"
)

// Conversions: text, binary and the version-agnostic package. The library's
// own conversions are never used to make an input or to read a result.

// x is a history of conversions in one family (w is the width)
func limbsW(w int, a A) []int { return (&H{w: w}).limbs(a) }
func codes(s string) []int {
	r := make([]int, len(s))
	for i := 0; i < len(s); i++ {
		r[i] = int(s[i])
	}
	return r
}
func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}
func fromLimbs(u []int) (a A) {
	if len(u) == 2 {
		return A{Lo: uint64(u[0])<<16 | uint64(u[1])}
	}
	for i := 0; i < 4; i++ {
		a.Hi = a.Hi<<16 | uint64(u[i])
		a.Lo = a.Lo<<16 | uint64(u[4+i])
	}
	return
}

// rndGroup favours the values where spellings differ
func rndGroup(r *rand.Rand) int {
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return r.Intn(16)
	case 2:
		return r.Intn(256)
	case 3:
		return r.Intn(4096)
	case 4:
		return []int{1, 10, 0x10, 0x100, 0x1000, 0xff, 0xffff, 0xff00, 0x8000, 0x7fff, 0xabcd, 0xa0, 99, 100, 199, 255, 256}[r.Intn(17)]
	case 5:
		return 1 << r.Intn(16)
	}
	return r.Intn(65536)
}
func nonzero(r *rand.Rand) int {
	for {
		if g := rndGroup(r); g != 0 {
			return g
		}
	}
}

// special addresses: both ends, the limb boundaries, well-known blocks
var specials = map[int][]A{
	32: {{}, {Lo: 1}, {Lo: 2}, {Lo: 0xfffffffe}, {Lo: 0xffffffff}, {Lo: 0x7fffffff}, {Lo: 0x80000000}, {Lo: 0xffff}, {Lo: 0x10000},
		{Lo: 0x7f000001}, {Lo: 0x0a000000}, {Lo: 0xa9fe0001}, {Lo: 0xc0a80001}, {Lo: 0xe0000001}, {Lo: 0xf0000000}, {Lo: 0x00ffffff}, {Lo: 0x01000000}},
	128: {{}, {Lo: 1}, {Lo: 2}, {Hi: ^uint64(0), Lo: ^uint64(0)}, {Hi: ^uint64(0), Lo: ^uint64(0) - 1}, {Lo: ^uint64(0)}, {Lo: ^uint64(0) - 1}, {Hi: 1}, {Hi: 1, Lo: 1},
		{Hi: ^uint64(0)}, {Hi: 1 << 63}, {Lo: 1 << 63}, {Hi: 1<<63 - 1, Lo: ^uint64(0)}, {Hi: 0xfe80 << 48, Lo: 1}, {Hi: 0xff02 << 48, Lo: 1}, {Hi: 0x20010db8 << 32},
		{Hi: 0x0064ff9b << 32, Lo: 0x01020304}, {Hi: 0x2002 << 48}, {Lo: 0xffff << 32}, {Lo: 0xffff0a000001}, {Lo: 0xffffffffffff}, {Lo: 1 << 48}, {Lo: 0x01020304}, {Lo: 0xffffffff}},
}

// related is the other address of a pair
func related(r *rand.Rand, w int, x A) A {
	switch r.Intn(8) {
	case 0:
		return succ(w, x)
	case 1:
		return pred(w, x)
	case 2:
		return not(w, x)
	case 3:
		return setBit(w, x, r.Intn(w), r.Intn(2))
	case 4:
		return last(w, P{x, rndLen(r, w)})
	case 5:
		return specials[w][r.Intn(len(specials[w]))]
	}
	return x
}

// convAddr makes an address; for IPv6 k selects which groups are zero
func convAddr(r *rand.Rand, w, k int) A {
	if k == 512 {
		return specials[w][r.Intn(len(specials[w]))]
	}
	if w == 32 {
		return fromLimbs([]int{rndGroup(r), rndGroup(r)})
	}
	u := make([]int, 8)
	for i := range u {
		if k>>i&1 == 0 {
			u[i] = nonzero(r)
		}
	}
	if k > 255 { // IPv4-mapped, or nearly
		for i := 0; i < 5; i++ {
			u[i] = 0
		}
		u[5], u[6], u[7] = 0xffff, rndGroup(r), rndGroup(r)
		switch r.Intn(5) {
		case 0:
			u[5] = 0xfffe
		case 1:
			u[r.Intn(5)] = 1
		case 2:
			u[5] = 0
		}
	}
	return fromLimbs(u)
}

func anyPattern(r *rand.Rand) int {
	switch r.Intn(8) {
	case 0:
		return 256
	case 1:
		return 512
	}
	return r.Intn(256)
}

// ---- spellings

func dotted(r *rand.Rand, a, b int) string {
	return fmt.Sprintf("%d.%d.%d.%d", a>>8, a&255, b>>8, b&255)
}

// spell writes the address in a random standard spelling
func spell(r *rand.Rand, w int, a A) string {
	u := limbsW(w, a)
	if w == 32 {
		return dotted(r, u[0], u[1])
	}
	style := r.Intn(4)
	group := func(g int) string {
		s := fmt.Sprintf("%x", g)
		if style&1 == 1 {
			s = fmt.Sprintf("%X", g)
		}
		if r.Intn(4) == 0 {
			s = strings.Repeat("0", r.Intn(5-len(s))) + s
		}
		return s
	}
	var parts []string
	for _, g := range u {
		parts = append(parts, group(g))
	}
	end := 8
	if r.Intn(4) == 0 {
		parts = append(parts[:6], dotted(r, u[6], u[7]))
		end = 6
	}
	var runs [][2]int
	for i := 0; i < end; i++ {
		for j := i; j < end && u[j] == 0; j++ {
			runs = append(runs, [2]int{i, j})
		}
	}
	if len(runs) > 0 && r.Intn(4) > 0 {
		x := runs[r.Intn(len(runs))]
		return strings.Join(parts[:x[0]], ":") + "::" + strings.Join(parts[x[1]+1:], ":")
	}
	return strings.Join(parts, ":")
}

const alphabet = "0123456789abcdefABCDEFgGxX:./%+- \x00\xc3\xa9"

// mangle edits a text at a few places
func mangle(r *rand.Rand, s string) string {
	b := []byte(s)
	for n := 1 + r.Intn(2); n > 0; n-- {
		i := r.Intn(len(b) + 1)
		c := alphabet[r.Intn(len(alphabet))]
		if r.Intn(2) == 0 && len(b) > 0 {
			c = b[r.Intn(len(b))]
		}
		switch r.Intn(7) {
		case 0, 1:
			b = append(b[:i:i], append([]byte{c}, b[i:]...)...)
		case 2, 3:
			if i < len(b) {
				b = append(b[:i:i], b[i+1:]...)
			}
		case 4:
			if i < len(b) {
				b = append([]byte{}, b...)
				b[i] = c
			}
		case 5:
			if i+1 < len(b) {
				b = append([]byte{}, b...)
				b[i], b[i+1] = b[i+1], b[i]
			}
		case 6:
			if i < len(b) && r.Intn(2) == 0 {
				b = b[:i]
			} else if i < len(b) { // a field twice
				j := i
				for j < len(b) && b[j] != '.' && b[j] != ':' {
					j++
				}
				b = append(b[:j:j], b[i:]...)
			}
		}
	}
	return string(b)
}

var oddTexts = []string{"", " ", "bogus", ":", "::", ":::", "::::", "1", "1.2.3", "1.2.3.4.5", "1.2.3.256", "1.2.3.-4", "01.2.3.4", "1.2.3.04", "1.2.3.4 ", " 1.2.3.4",
	"0x1.2.3.4", "1..3.4", ".1.2.3.4", "1.2.3.4.", "1.2.3.1000", "256.1.1.1", "::1.2.3.4", "::ffff:1.2.3.4", "::1.2.3.4.5", "::1.2.3", "1.2.3.4::", "::1.2.3.4:5",
	"1:2:3:4:5:6:7", "1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7:8:9", "1:2:3:4:5:6:7::", "::2:3:4:5:6:7:8", "1::3:4:5:6:7:8", "1:2:3:4::5:6:7:8", "1:2:3:4:5:6:7:8::", "::1:2:3:4:5:6:7:8",
	"1::2::3", ":1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7:8:", "1:", ":1", "12345::", "::12345", "::g", "fe80::1%eth0", "fe80::1%", "::1%1", "[::1]", "::/0", "0.0.0.0/0", "/", "/8", "1.2.3.4/",
	"1.2.3.4/33", "1.2.3.4/32", "1.2.3.4/-1", "1.2.3.4/+8", "1.2.3.4/08", "1.2.3.4/008", "1.2.3.4/8/8", "1.2.3.4/8 ", "1.2.3.4/255.0.0.0", "::/128", "::/129", "::/-0", "::1/064", "1.2.3.4/128",
	"::ffff:1.2.3.4/96", "::ffff:1.2.3.4/24", "::ffff:1.2.3.4/128", "1.2.3.4/4294967304", "1.2.3.4/18446744073709551624", "::/4294967296", "1.2.3.4/a", "::1/8%eth0", "::1%eth0/64", "1:2:3:4:5:6:1.2.3.4",
	"1:2:3:4:5:6:7:1.2.3.4", "1:2:3:4:5::1.2.3.4", "1:2:3:4:5:6::1.2.3.4", "::01.2.3.4", "0:0:0:0:0:ffff:0102:0304", "0:0:0:0:0:FFFF:1.2.3.4", "::ffff:0:0", "::FFFF:255.255.255.255"}

// decorations are what a lenient parser might take off or read as something else
var decorations = []string{" ", "  ", "\t", "\n", "\r\n", "\v", "\f", "\x00", "\u00a0", "\u2003", "\ufeff", ",", ";", "\"", "'", "[", "]", "(", ")", "<", ">", "+", "-", "_", "#", "//", "/", ".", ":", "0x", "0X", "0b", "0o",
	"%", "%0", "%eth0", "%25", "e0", ".0", "u", "\uff11", "\u0661"}

// decorate puts something around the text or around one of its parts
func decorate(r *rand.Rand, s string) string {
	d := decorations[r.Intn(len(decorations))]
	cut := strings.IndexByte(s, '/')
	switch r.Intn(8) {
	case 0, 1:
		return s + d
	case 2, 3:
		return d + s
	case 4:
		if cut >= 0 {
			return s[:cut] + d + s[cut:]
		}
		return d + s + d
	case 5:
		if cut >= 0 {
			return s[:cut+1] + d + s[cut+1:]
		}
		return "[" + s + "]"
	case 6: // another separator
		if cut >= 0 {
			return s[:cut] + d + s[cut+1:]
		}
		return "\"" + s + "\""
	}
	i := strings.LastIndexAny(s, ".:/")
	return s[:i+1] + d + s[i+1:]
}

func (h *H) rndText(w int, prefix bool) string {
	r := h.r
	if r.Intn(5) == 0 {
		return oddTexts[r.Intn(len(oddTexts))]
	}
	ww := w
	if r.Intn(12) == 0 {
		ww = 160 - w
	}
	s := spell(r, ww, convAddr(r, ww, anyPattern(r)))
	if prefix != (r.Intn(12) == 0) {
		l := rndLen(r, ww)
		if r.Intn(10) == 0 {
			l = []int{-1, ww + 1, 33, 128, 129, 1 << 20, 100, 256 + r.Intn(32)}[r.Intn(8)]
		}
		s += fmt.Sprintf("/%d", l)
		if r.Intn(20) == 0 {
			s = strings.Replace(s, "/", "/0", 1)
		}
	}
	switch r.Intn(20) {
	case 0, 1, 2, 3, 4, 5, 6:
		s = mangle(r, s)
	case 7, 8:
		s = decorate(r, s)
	}
	return s
}

// ---- text events

func (h *H) ev1(op string, e M, f func()) bool {
	e["op"], e["f"] = op, h.w/16
	h.call(e, f)
	h.emit(e)
	return true
}
func (h *H) tA() A { return convAddr(h.r, h.w, anyPattern(h.r)) }
func (h *H) tP() P { return P{h.tA(), rndLen(h.r, h.w)} }
func (h *H) xAStr(a A) bool {
	e := M{"a": h.limbs(a)}
	return h.ev1("a.str", e, func() { e["out"] = codes(h.f.AddrString(a)) })
}
func (h *H) xPStr() bool {
	p := h.tP()
	e := M{"p": h.jp(p)}
	return h.ev1("p.str", e, func() { e["out"] = codes(h.f.PfxString(p)) })
}
func (h *H) xMStr() bool {
	l := h.r.Intn(h.w + 1)
	e := M{"len": l}
	return h.ev1("m.str", e, func() {
		s, err := h.f.MaskString(l)
		if err != nil {
			s = "error"
		}
		e["out"] = codes(s)
	})
}
func (h *H) tR() api.Rng {
	x, y := h.tA(), h.tA()
	if h.r.Intn(2) == 0 {
		y = related(h.r, h.w, x)
	}
	if lt(y, x) {
		x, y = y, x
	}
	return api.Rng{X: x, Y: y}
}
func (h *H) xRStr() bool {
	g := h.tR()
	e := M{"x": h.limbs(g.X), "y": h.limbs(g.Y)}
	return h.ev1("r.str", e, func() { e["out"] = codes(h.f.RangeString(g)) })
}
func (h *H) xSStr() bool {
	var rs []api.Rng
	js := []interface{}{}
	n := h.r.Intn(4)
	many := h.r.Intn(40) == 0
	if many {
		n = 20 + h.r.Intn(100)
	}
	for ; n > 0; n-- {
		a := h.tA()
		if h.r.Intn(2) == 0 {
			p := P{a, rndLen(h.r, h.w)}
			if many && p.L < h.w*3/4 {
				p.L = h.w - h.r.Intn(h.w/4)
			}
			rs = append(rs, api.Rng{X: net(h.w, p), Y: last(h.w, p)})
		} else {
			b := a
			for i := h.r.Intn(20); i > 0; i-- {
				b = succ(h.w, b)
			}
			if lt(b, a) {
				b = a
			}
			rs = append(rs, api.Rng{X: a, Y: b})
		}
	}
	for _, g := range rs {
		js = append(js, h.jr(g))
	}
	e := M{"rs": js}
	return h.ev1("s.str", e, func() {
		m := h.f.NewSet()
		for _, g := range rs {
			m.Insert(api.SArg{Kind: "r", R: g})
		}
		e["out"] = codes(m.Snap().String())
	})
}
func (h *H) xAParse(s string) bool {
	e := M{"s": codes(s), "text": fmt.Sprintf("%q", s)}
	return h.ev1("a.parse", e, func() {
		a, err := h.f.ParseAddr(s)
		e["err"], e["r"] = err != nil, h.limbs(a)
	})
}
func (h *H) xPParse(s string) bool {
	e := M{"s": codes(s), "text": fmt.Sprintf("%q", s)}
	return h.ev1("p.parse", e, func() {
		p, err := h.f.ParsePfx(s)
		e["err"], e["r"] = err != nil, h.jp(p)
	})
}

func textRun(h *H, n, i int) {
	if h.w == 128 { // every pattern of zero groups, over the histories
		for k := 0; k < 16; k++ {
			h.xAStr(convAddr(h.r, 128, (i/2*16+k)%256))
		}
	}
	for k := 0; k < 8; k++ {
		s := oddTexts[(i/2*8+k)%len(oddTexts)]
		h.xAParse(s)
		h.xPParse(s)
	}
	for len(h.ev) < n {
		switch h.r.Intn(16) {
		case 0, 1:
			h.xAStr(h.tA())
		case 2:
			h.xPStr()
		case 3:
			h.xMStr()
		case 4:
			h.xRStr()
		case 5:
			h.xSStr()
		case 6, 7, 8, 9, 10:
			h.xAParse(h.rndText(h.w, false))
		default:
			h.xPParse(h.rndText(h.w, true))
		}
	}
}

// ---- binary events

func bytesOf(w int, a A) []byte {
	var b []byte
	for _, u := range limbsW(w, a) {
		b = append(b, byte(u>>8), byte(u))
	}
	return b
}

// rndBytes makes an address in bytes, or not quite
func (h *H) rndBytes() []byte {
	r := h.r
	switch r.Intn(10) {
	case 0:
		return nil
	case 1:
		b := make([]byte, []int{0, 1, 3, 5, 8, 12, 15, 17, 20, 32}[r.Intn(10)])
		r.Read(b)
		return b
	case 2:
		return bytesOf(128, convAddr(r, 128, 256))
	case 3:
		return bytesOf(160-h.w, convAddr(r, 160-h.w, anyPattern(r)))
	}
	return bytesOf(h.w, h.tA())
}

// rndMaskAddr makes a mask, or something a bit or two away from one
func (h *H) rndMaskAddr(w int) A {
	r := h.r
	m := maskOf(w, rndLen(r, w))
	switch r.Intn(5) {
	case 0:
		i := r.Intn(w)
		m = setBit(w, m, i, 1-getBit(w, m, i))
	case 1:
		m = not(w, m)
	case 2:
		if r.Intn(3) == 0 {
			m = convAddr(r, w, anyPattern(r))
		}
	}
	return m
}
func (h *H) rndMaskBytes() []byte {
	r := h.r
	w := h.w
	if r.Intn(8) == 0 {
		w = 160 - w
	}
	b := bytesOf(w, h.rndMaskAddr(w))
	switch r.Intn(12) {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return b[:len(b)-1]
	case 3:
		return append(b, 0)
	}
	return b
}
func rndInt(r *rand.Rand, w int) int {
	if r.Intn(3) > 0 {
		return r.Intn(w + 1)
	}
	return []int{-1, w + 1, -w, 33, 64, 127, 128, 129, 255, 256, 256 + r.Intn(w), -256, 1 << 29, math.MinInt64, math.MaxInt64, 1<<32 + r.Intn(w), -1 << 32}[r.Intn(17)]
}

// clamp makes a length fit in a TLC integer (all such lengths are invalid)
func clamp(l int) int                    { return max(-1<<30, min(1<<30, l)) }
func (h *H) jm(a A, l int) []interface{} { return []interface{}{h.limbs(a), l} }

func binRun(h *H, n, i int) {
	r := h.r
	for k := 0; k <= h.w; k += 8 { // every length, over the histories
		l := k + (i/2)%8
		e := M{"len": l}
		h.ev1("m.len", e, func() { a, ml, err := h.f.MaskFromLength(l); e["err"], e["r"] = err != nil, h.jm(a, ml) })
	}
	for len(h.ev) < n {
		e := M{}
		switch r.Intn(16) {
		case 0, 1:
			b := h.rndBytes()
			e["nil"], e["b"] = b == nil, ints(b)
			h.ev1("a.slice", e, func() { a, err := h.f.AddrFromSlice(b); e["err"], e["r"] = err != nil, h.limbs(a) })
		case 2, 3:
			b := h.rndBytes()
			e["nil"], e["b"] = b == nil, ints(b)
			h.ev1("a.netip", e, func() { a, err := h.f.AddrFromNetIP(b); e["err"], e["r"] = err != nil, h.limbs(a) })
		case 4:
			a := h.tA()
			e["a"] = h.limbs(a)
			h.ev1("a.parts", e, func() { e["r"] = h.limbs(h.f.AddrFromParts(a)) })
		case 5:
			a := h.tA()
			e["a"] = h.limbs(a)
			h.ev1("a.words", e, func() { e["r"] = h.limbs(h.f.AddrBack(a)) })
		case 6:
			a := h.tA()
			e["a"] = h.limbs(a)
			h.ev1("a.tonet", e, func() { e["r"] = ints(h.f.AddrNetIP(a)) })
		case 7:
			l := rndInt(r, h.w)
			e["len"] = clamp(l)
			h.ev1("m.len", e, func() { a, ml, err := h.f.MaskFromLength(l); e["err"], e["r"] = err != nil, h.jm(a, ml) })
		case 8, 9:
			a := h.rndMaskAddr(h.w)
			e["a"] = h.limbs(a)
			h.ev1("m.words", e, func() { a, ml, err := h.f.MaskFromWords(a); e["err"], e["r"] = err != nil, h.jm(a, ml) })
		case 10:
			a := h.rndMaskAddr(h.w)
			e["a"] = h.limbs(a)
			h.ev1("m.parts", e, func() { a, ml, err := h.f.MaskFromParts(a); e["err"], e["r"] = err != nil, h.jm(a, ml) })
		case 11:
			b := h.rndMaskBytes()
			e["nil"], e["b"] = b == nil, ints(b)
			h.ev1("m.net", e, func() { a, ml, err := h.f.MaskFromNetIPMask(b); e["err"], e["r"] = err != nil, h.jm(a, ml) })
		case 12:
			l := r.Intn(h.w + 1)
			e["len"] = l
			h.ev1("m.tonet", e, func() { e["r"] = ints(h.f.MaskNetIP(l)) })
		case 13:
			isnil := r.Intn(10) == 0
			i, m := h.rndBytes(), h.rndMaskBytes()
			e["nil"], e["ip"], e["mask"] = isnil, ints(i), ints(m)
			h.ev1("p.net", e, func() { p, err := h.f.PfxFromNetIPNet(isnil, i, m); e["err"], e["r"] = err != nil, h.jp(p) })
		case 14:
			p := h.tP()
			e["p"] = h.jp(p)
			h.ev1("p.tonet", e, func() { i, m := h.f.PfxNetIPNet(p); e["r"] = []interface{}{ints(i), ints(m)} })
		case 15:
			p := h.tP()
			e["p"] = h.jp(p)
			h.ev1("p.mask", e, func() { e["r"] = h.jp(h.f.PfxFromAddrMask(p.A, p.L)) })
		}
	}
}

// ---- the version-agnostic package

func jv(v famip.V) M {
	w := 32
	if strings.HasSuffix(v.T, "8") {
		w = 128
	}
	m := M{"t": v.T, "v": []int{}}
	switch v.T[0] {
	case 'a':
		m["v"] = limbsW(w, v.A)
	case 'm':
		m["v"] = []int{v.L}
	case 'p':
		m["v"] = []interface{}{limbsW(w, v.A), v.L}
	case 'r':
		m["v"] = []interface{}{limbsW(w, v.A), limbsW(w, v.B)}
	}
	return m
}

func (h *H) ipVal(kind string) famip.V {
	r := h.r
	switch r.Intn(12) {
	case 0:
		return famip.V{T: "nil"}
	case 1:
		return famip.V{T: "?"}
	}
	w, s := 32, "2"
	if r.Intn(2) == 0 {
		w, s = 128, "8"
	}
	v := famip.V{T: kind + s}
	switch kind {
	case "a":
		v.A = convAddr(r, w, anyPattern(r))
	case "m":
		v.L = rndLen(r, w)
	case "p":
		v.A, v.L = convAddr(r, w, anyPattern(r)), rndLen(r, w)
	case "r":
		if r.Intn(8) == 0 {
			return h.ipVal("a") // an address also implements the Range interface
		}
		v.A, v.B = convAddr(r, w, anyPattern(r)), convAddr(r, w, anyPattern(r))
		if r.Intn(2) == 0 {
			v.B = related(r, w, v.A)
		}
		if lt(v.B, v.A) {
			v.A, v.B = v.B, v.A
		}
	}
	return v
}

func (h *H) widthOf(v famip.V) int {
	if strings.HasSuffix(v.T, "8") {
		return 128
	}
	return 32
}

func ipRun(h *H, n, i int) {
	r := h.r
	fin := func(e M, v famip.V, err error) { e["err"], e["r"] = err != nil, jv(v) }
	for k := 0; k < 6; k++ {
		s := oddTexts[(i*6+k)%len(oddTexts)]
		e := M{"s": codes(s), "text": fmt.Sprintf("%q", s)}
		h.ev1("i.astr", e, func() { v, err := famip.AddrFromString(s); fin(e, v, err) })
		e2 := M{"s": codes(s), "text": fmt.Sprintf("%q", s)}
		h.ev1("i.pstr", e2, func() { v, err := famip.PfxFromString(s); fin(e2, v, err) })
	}
	// every pair of special addresses, over the histories
	for k := 0; k < 8; k++ {
		w, t := 32, "a2"
		if k%2 == 1 {
			w, t = 128, "a8"
		}
		s := specials[w]
		j := i*4 + k/2
		x, y := famip.V{T: t, A: s[j/len(s)%len(s)]}, famip.V{T: t, A: s[j%len(s)]}
		e := M{"x": jv(x), "y": jv(y)}
		h.ev1("i.rfa", e, func() {
			v, empty, err := famip.RngFromAddrs(x, y)
			e["empty"] = empty
			fin(e, v, err)
		})
	}
	for len(h.ev) < n {
		h.w = []int{32, 128}[r.Intn(2)]
		h.f = api.Fam(fam4.F{})
		if h.w == 128 {
			h.f = fam6.F{}
		}
		e := M{}
		one := func(op, kind string, f func(famip.V) famip.V) {
			x := h.ipVal(kind)
			e["x"] = jv(x)
			h.ev1(op, e, func() { e["r"] = jv(f(x)) })
		}
		switch r.Intn(18) {
		case 0:
			s := h.rndText(h.w, false)
			e["s"], e["text"] = codes(s), fmt.Sprintf("%q", s)
			h.ev1("i.astr", e, func() { v, err := famip.AddrFromString(s); fin(e, v, err) })
		case 1:
			s := h.rndText(h.w, true)
			e["s"], e["text"] = codes(s), fmt.Sprintf("%q", s)
			h.ev1("i.pstr", e, func() { v, err := famip.PfxFromString(s); fin(e, v, err) })
		case 2:
			b := h.rndBytes()
			e["nil"], e["b"] = b == nil, ints(b)
			h.ev1("i.anet", e, func() { v, err := famip.AddrFromNetIP(b); fin(e, v, err) })
		case 3:
			b := h.rndMaskBytes()
			e["nil"], e["b"] = b == nil, ints(b)
			h.ev1("i.mnet", e, func() { v, err := famip.MaskFromNetIPMask(b); fin(e, v, err) })
		case 4:
			isnil := r.Intn(10) == 0
			i, m := h.rndBytes(), h.rndMaskBytes()
			e["nil"], e["ip"], e["mask"] = isnil, ints(i), ints(m)
			h.ev1("i.pnet", e, func() { v, err := famip.PfxFromNetIPNet(isnil, i, m); fin(e, v, err) })
		case 5:
			one("i.pfa", "a", famip.PfxFromAddr)
		case 6, 7:
			x, y := h.ipVal("a"), h.ipVal("m")
			e["x"], e["y"] = jv(x), jv(y)
			h.ev1("i.pfam", e, func() { v, err := famip.PfxFromAddrMask(x, y); fin(e, v, err) })
		case 8:
			one("i.afp", "p", famip.AddrFromPfx)
		case 9:
			one("i.mfp", "p", famip.MaskFromPfx)
		case 10:
			one("i.rfp", "p", famip.RngFromPfx)
		case 11, 12:
			x, y := h.ipVal("a"), h.ipVal("a")
			if r.Intn(3) == 0 && x.T[0] == 'a' {
				y = x
				y.A = related(r, h.widthOf(x), x.A)
			}
			e["x"], e["y"] = jv(x), jv(y)
			h.ev1("i.rfa", e, func() {
				v, empty, err := famip.RngFromAddrs(x, y)
				e["empty"] = empty
				fin(e, v, err)
			})
		case 13:
			one("i.first", "r", famip.First)
		case 14:
			one("i.last", "r", famip.Last)
		case 15:
			if x := h.ipVal("a"); x.T[0] == 'a' {
				e["x"] = jv(x)
				h.ev1("i.ifa", e, func() { s, b, n := famip.IfaceA(x); e["str"], e["net"], e["bits"] = codes(s), ints(b), n })
			}
		case 16:
			if x := h.ipVal("m"); x.T[0] == 'm' {
				e["x"] = jv(x)
				h.ev1("i.ifm", e, func() { s, b, n := famip.IfaceM(x); e["str"], e["net"], e["len"] = codes(s), ints(b), n })
			}
		case 17:
			if x := h.ipVal("p"); x.T[0] == 'p' {
				e["x"] = jv(x)
				h.ev1("i.ifp", e, func() {
					s, i, m, n := famip.IfaceP(x)
					e["str"], e["net"], e["len"] = codes(s), []interface{}{ints(i), ints(m)}, n
				})
			} else if x := h.ipVal("r"); x.T[0] == 'r' {
				e["x"] = jv(x)
				h.ev1("i.ifr", e, func() { e["str"] = codes(famip.IfaceR(x)) })
			}
		}
	}
}

func init() {
	profiles["text"] = &profile{runner: textRun}
	profiles["binary"] = &profile{runner: binRun}
	profiles["agnostic"] = &profile{runner: ipRun}
}
