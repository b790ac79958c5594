package fam6

import (
	"fmt"
	"math"
	"net"

	"addrsverif/api"

	ip "gopkg.in/addrs.v1/ipv6"
)

// Generated from fam4/common.go by gen6.sh: the same text with the
// family replaced (see ../gen6.sh). What differs is in conv.go.

type F struct{}

func (F) Name() string { return name }
func (F) Bits() int    { return bits }

// ---- prefixes and operands

func toPfx(p api.Pfx) ip.Prefix {
	m, err := ip.MaskFromLength(p.L)
	if err != nil {
		panic(err)
	}
	return ip.PrefixFromAddressMask(toAddr(p.A), m)
}
func fromPfx(p ip.Prefix) api.Pfx { return api.Pfx{A: fromAddr(p.Address()), L: p.Length()} }

type cbPrefix struct {
	p  ip.PrefixI
	cb func()
}

func (c cbPrefix) Prefix() ip.Prefix { c.cb(); return c.p.Prefix() }

func parg(a api.PArg) ip.PrefixI {
	var p ip.PrefixI
	switch a.Kind {
	case "n":
		if a.CB == nil {
			return nil
		}
		p = ip.Prefix{}
	case "a":
		p = toAddr(a.P.A)
	default:
		p = toPfx(a.P)
	}
	if a.CB != nil {
		return cbPrefix{p, a.CB}
	}
	return p
}

func toRng(r api.Rng) ip.Range {
	x, empty := ip.RangeFromAddresses(toAddr(r.X), toAddr(r.Y))
	if empty {
		panic("harness: empty range")
	}
	return x
}
func fromRng(r ip.Range) api.Rng { return api.Rng{X: fromAddr(r.First()), Y: fromAddr(r.Last())} }

type cbSet struct {
	s  ip.SetI
	cb func()
}

func (c cbSet) Set() ip.Set { c.cb(); return c.s.Set() }

func sarg(a api.SArg) ip.SetI {
	var s ip.SetI
	switch a.Kind {
	case "nil":
		if a.CB == nil {
			return nil
		}
		s = ip.Set{}
	case "a":
		s = toAddr(a.P.A)
	case "p":
		s = toPfx(a.P)
	case "r":
		s = toRng(a.R)
	case "s":
		s = a.S.(set).s
	case "m":
		s = a.M.(mset).s
	default:
		panic("harness: bad operand")
	}
	if a.CB != nil {
		return cbSet{s, a.CB}
	}
	return s
}

// ---- tables

type codec[T any] struct {
	enc func(int) T
	dec func(T) int
}

// coder is a codec and how a custom comparison compares.
type coder[T any] struct {
	codec[T]
	m int
}

type table[T any] struct {
	t ip.Table[T]
	c coder[T]
}

func (t table[T]) M() int { return t.c.m }
func (t table[T]) Get(p api.PArg) (int, bool) {
	v, ok := t.t.Get(parg(p))
	return t.c.dec(v), ok
}
func (t table[T]) LPM(p api.PArg) (int, bool, api.Pfx) {
	v, ok, q := t.t.LongestMatch(parg(p))
	return t.c.dec(v), ok, fromPfx(q)
}
func (t table[T]) Num() int64 { return t.t.NumEntries() }
func (t table[T]) Walk(cb func(api.Pfx, int) bool) bool {
	return t.t.Walk(func(p ip.Prefix, v T) bool { return cb(fromPfx(p), t.c.dec(v)) })
}
func (t table[T]) Diff(o api.Table, on [4]bool, cb func(api.DiffRep) bool) bool {
	var ch func(ip.Prefix, T, T) bool
	var l, r, s func(ip.Prefix, T) bool
	if on[0] {
		ch = func(p ip.Prefix, a, b T) bool {
			return cb(api.DiffRep{D: "C", P: fromPfx(p), V: t.c.dec(a), V2: t.c.dec(b)})
		}
	}
	if on[1] {
		l = func(p ip.Prefix, a T) bool {
			return cb(api.DiffRep{D: "L", P: fromPfx(p), V: t.c.dec(a)})
		}
	}
	if on[2] {
		r = func(p ip.Prefix, a T) bool {
			return cb(api.DiffRep{D: "R", P: fromPfx(p), V2: t.c.dec(a)})
		}
	}
	if on[3] {
		s = func(p ip.Prefix, a T) bool {
			return cb(api.DiffRep{D: "S", P: fromPfx(p), V: t.c.dec(a)})
		}
	}
	return t.t.Diff(o.(table[T]).t, ch, l, r, s)
}
func (t table[T]) Agg() api.Table { return table[T]{t.t.Aggregate(), t.c} }
func (t table[T]) Map(f func(api.Pfx, int) int) api.Table {
	if f == nil {
		return table[T]{t.t.Map(nil), t.c}
	}
	return table[T]{t.t.Map(func(p ip.Prefix, v T) T {
		return t.c.enc(f(fromPfx(p), t.c.dec(v)))
	}), t.c}
}
func (t table[T]) Mut() api.MTable { return mtable[T]{t.t.Table_(), t.c} }
func (t table[T]) Build(f func(api.MTable) bool) api.Table {
	return table[T]{t.t.Build(func(m ip.Table_[T]) bool { return f(mtable[T]{m, t.c}) }), t.c}
}

type mtable[T any] struct {
	t ip.Table_[T]
	c coder[T]
}

func (t mtable[T]) Insert(p api.PArg, v int) bool    { return t.t.Insert(parg(p), t.c.enc(v)) }
func (t mtable[T]) Update(p api.PArg, v int) bool    { return t.t.Update(parg(p), t.c.enc(v)) }
func (t mtable[T]) InsertOrUpdate(p api.PArg, v int) { t.t.InsertOrUpdate(parg(p), t.c.enc(v)) }
func (t mtable[T]) GetOrInsert(p api.PArg, v int) int {
	return t.c.dec(t.t.GetOrInsert(parg(p), t.c.enc(v)))
}
func (t mtable[T]) Remove(p api.PArg) bool     { return t.t.Remove(parg(p)) }
func (t mtable[T]) Get(p api.PArg) (int, bool) { v, ok := t.t.Get(parg(p)); return t.c.dec(v), ok }
func (t mtable[T]) LPM(p api.PArg) (int, bool, api.Pfx) {
	v, ok, q := t.t.LongestMatch(parg(p))
	return t.c.dec(v), ok, fromPfx(q)
}
func (t mtable[T]) Num() int64       { return t.t.NumEntries() }
func (t mtable[T]) Snap() api.Table  { return table[T]{t.t.Table(), t.c} }
func (t mtable[T]) Copy() api.MTable { u := t; return u }

type box struct{ v int }
type pair struct {
	a int
	b string
}
type myErr struct{ v int }

func (e myErr) Error() string { return fmt.Sprint(e.v) }

var interned = func() (r [1024]*int) {
	for i := range r {
		i := i
		r[i] = &i
	}
	return
}()

var (
	cInt    = codec[int]{func(v int) int { return v }, func(v int) int { return v }}
	cString = codec[string]{func(v int) string { return fmt.Sprint(v) }, func(s string) int {
		n := 0
		fmt.Sscan(s, &n)
		return n
	}}
	cAny = codec[interface{}]{func(v int) interface{} {
		switch {
		case v == 0:
			return nil
		case v%3 == 1:
			return []int{v} // not comparable
		case v%3 == 2:
			return map[string]int{"v": v}
		}
		return v
	}, decAny}
	cAnyCmp = codec[interface{}]{func(v int) interface{} {
		switch {
		case v == 0:
			return nil
		case v%3 == 1:
			return box{v}
		}
		return v
	}, decAny}
	cBytes = codec[[]byte]{func(v int) []byte {
		if v == 0 {
			return nil
		}
		return []byte{byte(v >> 8), byte(v)}
	}, func(b []byte) int {
		if len(b) < 2 {
			return 0
		}
		return int(b[0])<<8 | int(b[1])
	}}
	cPtr = codec[*int]{func(v int) *int {
		if v == 0 {
			return nil
		}
		return interned[v]
	}, func(p *int) int {
		if p == nil {
			return 0
		}
		return *p
	}}
	cPair = codec[pair]{func(v int) pair { return pair{v, "x"} }, func(p pair) int { return p.a }}
	cFunc = codec[func() int]{func(v int) func() int {
		if v == 0 {
			return nil
		}
		return func() int { return v }
	}, func(f func() int) int {
		if f == nil {
			return 0
		}
		return f()
	}}
	// not equal to itself
	cNaN = codec[float64]{func(v int) float64 { return math.Float64frombits(0x7ff8<<48 | uint64(v)) },
		func(f float64) int { return int(math.Float64bits(f) & 0xffffffff) }}
	cNone = codec[struct{}]{func(int) struct{} { return struct{}{} }, func(struct{}) int { return 0 }}
	cBig  = codec[*big]{func(v int) *big { return &big{v: v} }, func(b *big) int { return b.v }}
	cErr  = codec[error]{func(v int) error {
		if v == 0 {
			return nil
		}
		return myErr{v}
	}, func(e error) int {
		if e == nil {
			return 0
		}
		return e.(myErr).v
	}}
)

// twin is a value of which all are alike, but for where they are.
type twin struct{ _, _ int }

var twins [1024]twin

var twinNo = func() map[*twin]int {
	m := map[*twin]int{}
	for i := range twins {
		m[&twins[i]] = i
	}
	return m
}()

type myInt int64

var (
	cTwin = codec[*twin]{func(v int) *twin { return &twins[v] }, func(t *twin) int { return twinNo[t] }}
	// the same numbers in different types
	cMixed = codec[interface{}]{func(v int) interface{} {
		switch v % 3 {
		case 0:
			return v / 3
		case 1:
			return int64(v / 3)
		}
		return myInt(v / 3)
	}, func(x interface{}) int {
		switch x := x.(type) {
		case nil:
			return 0
		case int:
			return 3 * x
		case int64:
			return 3*int(x) + 1
		case myInt:
			return 3*int(x) + 2
		}
		return -1
	}}
	// zeroes, which are equal whatever their sign
	cZero = codec[float64]{func(v int) float64 { return math.Copysign(0, float64(1-2*(v%2))) }, func(f float64) int {
		if math.Signbit(f) {
			return 1
		}
		return 2
	}}
)

// big is a value whose memory is seen when it is kept.
type big struct {
	v int
	b [api.BigBytes - 8]byte
}

func decAny(x interface{}) int {
	switch x := x.(type) {
	case nil:
		return 0
	case []int:
		return x[0]
	case map[string]int:
		return x["v"]
	case box:
		return x.v
	case int:
		return x
	}
	return -1
}

func cmp[T any](c codec[T], m int, hook api.CmpHook) func(a, b T) bool {
	return func(a, b T) bool {
		x, y := c.dec(a), c.dec(b)
		if hook != nil {
			hook(x, y)
		}
		switch m {
		case -1: // nothing equals anything
			return false
		case 0:
			return x == y
		}
		return x%m == y%m
	}
}

func custom[T any](c codec[T], m int, hook api.CmpHook) api.MTable {
	return mtable[T]{ip.NewTableCustomCompare_[T](cmp(c, m, hook)), coder[T]{c, m}}
}

// NewTable makes a mutable table. Kinds 0..9 use == (by which nothing of kind 5 is equal, and all of kinds 6 and 9); kinds 10.. use a custom
// comparison: equality modulo m (or equality when m is 0).
func (F) NewTable(kind, m int, hook api.CmpHook) api.MTable {
	switch kind {
	case 0:
		return mtable[int]{ip.NewTable_[int](), coder[int]{cInt, 0}}
	case 1:
		return mtable[string]{ip.NewTable_[string](), coder[string]{cString, 0}}
	case 2:
		return mtable[*int]{ip.NewTable_[*int](), coder[*int]{cPtr, 0}}
	case 3:
		return mtable[pair]{ip.NewTable_[pair](), coder[pair]{cPair, 0}}
	case 4:
		return mtable[interface{}]{ip.NewTable_[interface{}](), coder[interface{}]{cAnyCmp, 0}}
	case 5:
		return mtable[float64]{ip.NewTable_[float64](), coder[float64]{cNaN, 0}}
	case 6:
		return mtable[struct{}]{ip.NewTable_[struct{}](), coder[struct{}]{cNone, 0}}
	case 7:
		return mtable[*twin]{ip.NewTable_[*twin](), coder[*twin]{cTwin, 0}}
	case 8:
		return mtable[interface{}]{ip.NewTable_[interface{}](), coder[interface{}]{cMixed, 0}}
	case 9:
		return mtable[float64]{ip.NewTable_[float64](), coder[float64]{cZero, 0}}
	case 10:
		return custom(cInt, m, hook)
	case 11:
		return custom(cAny, m, hook)
	case 12:
		return custom(cBytes, m, hook)
	case 13:
		return custom(cFunc, m, hook)
	case 14:
		return custom(cErr, m, hook)
	case 15:
		return custom(cPtr, m, hook)
	case 16:
		return custom(cBig, m, hook)
	}
	panic("harness: kind")
}

func (F) ZeroMTable(kind int) api.MTable {
	switch kind {
	case 0, 10:
		return mtable[int]{c: coder[int]{cInt, 0}}
	case 1:
		return mtable[string]{c: coder[string]{cString, 0}}
	case 2, 15:
		return mtable[*int]{c: coder[*int]{cPtr, 0}}
	case 3:
		return mtable[pair]{c: coder[pair]{cPair, 0}}
	case 4:
		return mtable[interface{}]{c: coder[interface{}]{cAnyCmp, 0}}
	case 11:
		return mtable[interface{}]{c: coder[interface{}]{cAny, 0}}
	case 12:
		return mtable[[]byte]{c: coder[[]byte]{cBytes, 0}}
	case 13:
		return mtable[func() int]{c: coder[func() int]{cFunc, 0}}
	case 14:
		return mtable[error]{c: coder[error]{cErr, 0}}
	}
	panic("harness: kind")
}

func (F) ZeroTable(kind int) api.Table {
	switch kind {
	case 0, 10:
		return table[int]{c: coder[int]{cInt, 0}}
	case 1:
		return table[string]{c: coder[string]{cString, 0}}
	case 2, 15:
		return table[*int]{c: coder[*int]{cPtr, 0}}
	case 3:
		return table[pair]{c: coder[pair]{cPair, 0}}
	case 4:
		return table[interface{}]{c: coder[interface{}]{cAnyCmp, 0}}
	case 11:
		return table[interface{}]{c: coder[interface{}]{cAny, 0}}
	case 12:
		return table[[]byte]{c: coder[[]byte]{cBytes, 0}}
	case 13:
		return table[func() int]{c: coder[func() int]{cFunc, 0}}
	case 14:
		return table[error]{c: coder[error]{cErr, 0}}
	}
	panic("harness: kind")
}

// ---- sets

type set struct{ s ip.Set }

func (s set) Alg(op string, o api.SArg) api.Set {
	switch op {
	case "u":
		return set{s.s.Union(sarg(o))}
	case "i":
		return set{s.s.Intersection(sarg(o))}
	}
	return set{s.s.Difference(sarg(o))}
}
func (s set) Contains(o api.SArg) bool             { return s.s.Contains(sarg(o)) }
func (s set) Equal(o api.Set) bool                 { return s.s.Equal(o.(set).s) }
func (s set) IsEmpty() bool                        { return s.s.IsEmpty() }
func (s set) NumPrefixes(l uint32) (uint64, error) { return s.s.NumPrefixes(l) }
func (s set) WalkP(cb func(api.Pfx) bool) bool {
	return s.s.WalkPrefixes(func(p ip.Prefix) bool { return cb(fromPfx(p)) })
}
func (s set) WalkR(cb func(api.Rng) bool) bool {
	return s.s.WalkRanges(func(r ip.Range) bool { return cb(fromRng(r)) })
}
func (s set) String() string { return s.s.String() }
func (s set) Find(reserved api.SArg, l uint32) (api.Pfx, error) {
	p, err := s.s.FindAvailablePrefix(sarg(reserved), l)
	if err != nil {
		return api.Pfx{}, err
	}
	return fromPfx(p), nil
}
func (s set) Mut() api.MSet { return mset{s.s.Set_()} }
func (s set) Build(f func(api.MSet) bool) api.Set {
	return set{s.s.Build(func(m ip.Set_) bool { return f(mset{m}) })}
}
func (s set) Self() api.Set { return set{s.s.Set()} }

type mset struct{ s ip.Set_ }

func (s mset) Insert(o api.SArg) { s.s.Insert(sarg(o)) }
func (s mset) Remove(o api.SArg) { s.s.Remove(sarg(o)) }
func (s mset) Alg(op string, o api.SArg) api.Set {
	switch op {
	case "u":
		return set{s.s.Union(sarg(o))}
	case "i":
		return set{s.s.Intersection(sarg(o))}
	}
	return set{s.s.Difference(sarg(o))}
}
func (s mset) Contains(o api.SArg) bool { return s.s.Contains(sarg(o)) }
func (s mset) Equal(o api.MSet) bool    { return s.s.Equal(o.(mset).s) }
func (s mset) IsEmpty() bool            { return s.s.IsEmpty() }
func (s mset) Snap() api.Set            { return set{s.s.Set()} }
func (s mset) Copy() api.MSet           { u := s; return u }

func (F) NewSet() api.MSet   { return mset{ip.NewSet_()} }
func (F) ZeroMSet() api.MSet { return mset{} }
func (F) ZeroSet() api.Set   { return set{} }

func (F) ToSet(a api.SArg) api.Set { return set{sarg(a).Set()} }
func (F) Contains(x, y api.SArg) bool {
	switch x.Kind {
	case "p":
		return toPfx(x.P).Contains(sarg(y))
	case "r":
		return toRng(x.R).Contains(sarg(y))
	case "s":
		return x.S.Contains(y)
	case "m":
		return x.M.Contains(y)
	}
	panic("harness: contains")
}
func (F) NumPrefixes(x api.SArg, l uint32) (uint64, error) {
	switch x.Kind {
	case "p":
		return toPfx(x.P).NumPrefixes(l)
	case "r":
		return toRng(x.R).NumPrefixes(l)
	case "s":
		return x.S.NumPrefixes(l)
	}
	panic("harness: numprefixes")
}
func (F) RangeFrom(x, y api.Addr) (api.Rng, bool) {
	r, empty := ip.RangeFromAddresses(toAddr(x), toAddr(y))
	return fromRng(r), empty
}
func (F) PrefixRange(p api.Pfx) api.Rng { return fromRng(toPfx(p).Range()) }
func rngs(rs []ip.Range) []api.Rng {
	out := []api.Rng{}
	for _, r := range rs {
		out = append(out, fromRng(r))
	}
	return out
}
func (F) Plus(x, y api.Rng) []api.Rng  { return rngs(toRng(x).Plus(toRng(y))) }
func (F) Minus(x, y api.Rng) []api.Rng { return rngs(toRng(x).Minus(toRng(y))) }

func (F) PrefixFacts(pp api.Pfx) (f api.PFacts) {
	p := toPfx(pp)
	f.Addr, f.Len = fromAddr(p.Address()), p.Length()
	f.Net, f.Host = fromPfx(p.Network()), fromPfx(p.Host())
	f.Mask, f.MaskLen = fromMask(p.Mask()), p.Mask().Length()
	r := p.Range()
	f.Lo, f.Hi = fromAddr(r.First()), fromAddr(r.Last())
	if pp.L < bits {
		a, b := p.Halves()
		f.H1, f.H2 = fromPfx(a), fromPfx(b)
	}
	f.Self = fromPfx(p.Prefix())
	f.String, f.MaskString = p.String(), p.Mask().String()
	n := p.ToNetIPNet()
	f.NetIP, f.NetIPM = own(n.IP), own(n.Mask)
	f.MaskNetIP = own(p.Mask().ToNetIPMask())
	special(p, &f)
	return
}
func (F) AddrPrefix(a api.Addr) api.Pfx { return fromPfx(toAddr(a).Prefix()) }
func (F) AddrBits(a api.Addr) int       { return toAddr(a).NumBits() }
func (F) AddrBack(a api.Addr) api.Addr  { return fromAddr(toAddr(a)) }

// own copies the bytes that the library returned, and overwrites them: they
// are the caller's.
func own(b []byte) []byte {
	if b == nil {
		return nil
	}
	c := append([]byte{}, b...)
	for i := range b {
		b[i] ^= 0x5a
	}
	return c
}

// lent is a copy of bytes to pass to the library, and how to overwrite it afterwards.
func lent(b []byte) ([]byte, func()) {
	if b == nil {
		return nil, func() {}
	}
	c := append([]byte{}, b...)
	return c, func() { own(c) }
}

func (F) AddrString(a api.Addr) string { return toAddr(a).String() }
func (F) PfxString(p api.Pfx) string   { return toPfx(p).String() }
func (F) MaskString(l int) (string, error) {
	m, err := ip.MaskFromLength(l)
	if err != nil {
		return "", err
	}
	return m.String(), nil
}
func (F) RangeString(r api.Rng) string { return toRng(r).String() }
func (F) ParseAddr(s string) (api.Addr, error) {
	a, err := ip.AddressFromString(s)
	return fromAddr(a), err
}
func (F) ParsePfx(s string) (api.Pfx, error) {
	p, err := ip.PrefixFromString(s)
	return fromPfx(p), err
}
func (F) AddrFromSlice(b []byte) (api.Addr, error) {
	b, done := lent(b)
	a, err := ip.AddressFromSlice(b)
	done()
	return fromAddr(a), err
}
func (F) AddrFromNetIP(b []byte) (api.Addr, error) {
	b, done := lent(b)
	a, err := ip.AddressFromNetIP(net.IP(b))
	done()
	return fromAddr(a), err
}
func mres(m ip.Mask, err error) (api.Addr, int, error) { return fromMask(m), m.Length(), err }
func (F) MaskFromLength(l int) (api.Addr, int, error)  { return mres(ip.MaskFromLength(l)) }
func (F) MaskFromNetIPMask(b []byte) (api.Addr, int, error) {
	b, done := lent(b)
	m, err := ip.MaskFromNetIPMask(net.IPMask(b))
	done()
	return mres(m, err)
}
func (F) AddrNetIP(a api.Addr) []byte { return own(toAddr(a).ToNetIP()) }
func (F) MaskNetIP(l int) []byte {
	m, err := ip.MaskFromLength(l)
	if err != nil {
		panic(err)
	}
	return own(m.ToNetIPMask())
}
func (F) PfxFromNetIPNet(nilNet bool, i, m []byte) (api.Pfx, error) {
	var n *net.IPNet
	if !nilNet {
		n = &net.IPNet{IP: i, Mask: m}
	}
	i, done := lent(i)
	m, done2 := lent(m)
	if n != nil {
		n.IP, n.Mask = i, m
	}
	p, err := ip.PrefixFromNetIPNet(n)
	done()
	done2()
	return fromPfx(p), err
}
func (F) PfxFromAddrMask(a api.Addr, l int) api.Pfx { return fromPfx(toPfx(api.Pfx{A: a, L: l})) }
func (F) PfxNetIPNet(p api.Pfx) ([]byte, []byte) {
	n := toPfx(p).ToNetIPNet()
	return own(n.IP), own(n.Mask)
}

// ---- values, made in different ways

// Value makes an address ("a"), mask ("m"), prefix ("p") or range ("r") in one
// of several ways and returns it as the library's own type.
func (F) Value(kind string, route int, p api.Pfx, r api.Rng) interface{} {
	switch kind {
	case "a":
		return addrBy(route, p.A)
	case "m":
		return maskBy(route, p.L)
	case "p":
		return pfxBy(route, p)
	}
	return rngBy(route, r)
}
func need[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}
func addrBy(route int, x api.Addr) ip.Address {
	a := toAddr(x)
	h := need(ip.MaskFromLength(bits))
	switch route {
	case 1:
		return need(ip.AddressFromString(a.String()))
	case 2:
		return need(ip.AddressFromNetIP(a.ToNetIP()))
	case 3:
		return need(ip.AddressFromNetIP(net.ParseIP(a.String())))
	case 4:
		return need(ip.AddressFromSlice([]byte(a.ToNetIP())))
	case 5:
		return toAddr(fromAddr(ip.PrefixFromAddressMask(a, h).Network().Address()))
	case 6:
		if x == (api.Addr{}) {
			return ip.Address{}
		}
		r, _ := ip.RangeFromAddresses(a, a)
		return r.First()
	case 7:
		var out ip.Address
		a.Set().WalkRanges(func(r ip.Range) bool { out = r.Last(); return true })
		return out
	}
	return a
}
func maskBy(route int, l int) ip.Mask {
	m := need(ip.MaskFromLength(l))
	switch route {
	case 1:
		return need(ip.MaskFromNetIPMask(net.CIDRMask(l, bits)))
	case 2:
		return need(ip.MaskFromNetIPMask(m.ToNetIPMask()))
	case 3:
		return ip.PrefixFromAddressMask(ip.Address{}, m).Mask()
	case 4:
		return need(ip.PrefixFromString(fmt.Sprintf("%s/%d", ip.Address{}, l))).Mask()
	case 5:
		return need(ip.MaskFromNetIPMask(net.IPMask(need(ip.AddressFromString(m.String())).ToNetIP())))
	case 6:
		return maskOfWords(m)
	case 7:
		if l == 0 {
			return ip.Mask{}
		}
		return ip.PrefixFromAddressMask(toAddr(api.Addr{Hi: 77, Lo: 99}), m).Host().Mask()
	}
	return m
}
func pfxBy(route int, x api.Pfx) ip.Prefix {
	p := toPfx(x)
	switch route {
	case 1:
		return need(ip.PrefixFromString(p.String()))
	case 2:
		return need(ip.PrefixFromNetIPNet(p.ToNetIPNet()))
	case 3:
		return ip.PrefixFromAddressMask(p.Address(), p.Mask())
	case 4:
		if x == (api.Pfx{}) {
			return ip.Prefix{}
		}
		return p.Prefix()
	case 5:
		if p.Network().Address() == p.Address() {
			return p.Network()
		}
	case 6: // the only prefix of its own set
		if p.Network().Address() == p.Address() {
			var out ip.Prefix
			p.Set().WalkPrefixes(func(q ip.Prefix) bool { out = q; return true })
			return out
		}
	case 7: // half of the parent
		if x.L > 0 && p.Network().Address() == p.Address() {
			a, b := toPfx(api.Pfx{A: x.A, L: x.L - 1}).Halves()
			if b.Address() == p.Address() {
				return b
			}
			return a
		}
	}
	return p
}
func rngBy(route int, x api.Rng) ip.Range {
	r := toRng(x)
	switch route {
	case 1:
		if x == (api.Rng{}) {
			return ip.Range{}
		}
		return r.Plus(r)[0]
	case 2, 3:
		var out ip.Range
		r.Set().WalkRanges(func(q ip.Range) bool { out = q; return true })
		return out
	case 4:
		m, _ := ip.RangeFromAddresses(r.Last(), r.Last())
		n, _ := ip.RangeFromAddresses(r.First(), r.First())
		if got := r.Plus(m); len(got) == 1 {
			return got[0].Plus(n)[0]
		}
	case 5, 6:
		var ps []ip.Prefix
		r.Set().WalkPrefixes(func(q ip.Prefix) bool { ps = append(ps, q); return true })
		if len(ps) == 1 {
			return ps[0].Range()
		}
	case 7:
		z, _ := ip.RangeFromAddresses(ip.Address{}, r.Last())
		if f := r.First(); f != (ip.Address{}) {
			before, _ := ip.RangeFromAddresses(ip.Address{}, ip.Address{})
			y, _ := ip.RangeFromAddresses(f, r.Last())
			if got := z.Minus(before); len(got) == 1 && got[0].First() == f {
				return got[0]
			}
			return y
		}
	}
	return r
}
