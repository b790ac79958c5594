// Package famip calls the version-agnostic package ip with family-neutral
// arguments and reports what it returned.
package famip

import (
	"net"

	"addrsverif/api"

	"gopkg.in/addrs.v1/ip"
	"gopkg.in/addrs.v1/ipv4"
	"gopkg.in/addrs.v1/ipv6"
)

// V is a value of the package: T is the type ("a2", "a8", "m2", "m8", "p2",
// "p8", "r2", "r8", "nil" or "?" for a foreign type).
type V struct {
	T string
	A api.Addr // address, or first of a range
	B api.Addr // last of a range
	L int      // length of a prefix or a mask
}

type alienA struct{}

func (alienA) String() string          { return "alien" }
func (alienA) ToNetIP() net.IP         { return nil }
func (alienA) NumBits() int            { return 32 }
func (alienA) Length() int             { return 8 }
func (alienA) ToNetIPMask() net.IPMask { return nil }
func (alienA) ToNetIPNet() *net.IPNet  { return nil }

func a4(a api.Addr) ipv4.Address { return ipv4.AddressFromUint32(uint32(a.Lo)) }
func a6(a api.Addr) ipv6.Address { return ipv6.AddressFromUint64(a.Hi, a.Lo) }
func m4(l int) ipv4.Mask {
	m, err := ipv4.MaskFromLength(l)
	if err != nil {
		panic(err)
	}
	return m
}
func m6(l int) ipv6.Mask {
	m, err := ipv6.MaskFromLength(l)
	if err != nil {
		panic(err)
	}
	return m
}
func n4(a ipv4.Address) api.Addr { return api.Addr{Lo: uint64(a.Uint32())} }
func n6(a ipv6.Address) api.Addr {
	h, l := a.Uint64()
	return api.Addr{Hi: h, Lo: l}
}

// the arguments

func (v V) addr() ip.Address {
	switch v.T {
	case "a2":
		return a4(v.A)
	case "a8":
		return a6(v.A)
	case "?":
		return alienA{}
	}
	return nil
}
func (v V) mask() ip.Mask {
	switch v.T {
	case "m2":
		return m4(v.L)
	case "m8":
		return m6(v.L)
	case "?":
		return alienA{}
	}
	return nil
}
func (v V) prefix() ip.Prefix {
	switch v.T {
	case "p2":
		return ipv4.PrefixFromAddressMask(a4(v.A), m4(v.L))
	case "p8":
		return ipv6.PrefixFromAddressMask(a6(v.A), m6(v.L))
	case "?":
		return alienA{}
	}
	return nil
}
func (v V) rng() ip.Range {
	switch v.T {
	case "r2":
		r, _ := ipv4.RangeFromAddresses(a4(v.A), a4(v.B))
		return r
	case "r8":
		r, _ := ipv6.RangeFromAddresses(a6(v.A), a6(v.B))
		return r
	case "a2", "a8": // what First/LastFromRange return also implements ip.Range
		return v.addr()
	case "?":
		return alienA{}
	}
	return nil
}

// the results

func val(x interface{}) V {
	switch x := x.(type) {
	case nil:
		return V{T: "nil"}
	case ipv4.Address:
		return V{T: "a2", A: n4(x)}
	case ipv6.Address:
		return V{T: "a8", A: n6(x)}
	case ipv4.Mask:
		return V{T: "m2", L: x.Length()}
	case ipv6.Mask:
		return V{T: "m8", L: x.Length()}
	case ipv4.Prefix:
		return V{T: "p2", A: n4(x.Address()), L: x.Length()}
	case ipv6.Prefix:
		return V{T: "p8", A: n6(x.Address()), L: x.Length()}
	case ipv4.Range:
		return V{T: "r2", A: n4(x.First()), B: n4(x.Last())}
	case ipv6.Range:
		return V{T: "r8", A: n6(x.First()), B: n6(x.Last())}
	}
	return V{T: "?"}
}

func AddrFromString(s string) (V, error) { r, err := ip.AddressFromString(s); return val(r), err }
func PfxFromString(s string) (V, error)  { r, err := ip.PrefixFromString(s); return val(r), err }
func AddrFromNetIP(b []byte) (V, error)  { r, err := ip.AddressFromNetIP(net.IP(b)); return val(r), err }
func MaskFromNetIPMask(b []byte) (V, error) {
	r, err := ip.MaskFromNetIPMask(net.IPMask(b))
	return val(r), err
}
func PfxFromNetIPNet(isnil bool, i, m []byte) (V, error) {
	var n *net.IPNet
	if !isnil {
		n = &net.IPNet{IP: i, Mask: m}
	}
	r, err := ip.PrefixFromNetIPNet(n)
	return val(r), err
}
func PfxFromAddr(x V) V { return val(ip.PrefixFromAddress(x.addr())) }
func PfxFromAddrMask(x, y V) (V, error) {
	r, err := ip.PrefixFromAddressMask(x.addr(), y.mask())
	return val(r), err
}
func AddrFromPfx(x V) V { return val(ip.AddressFromPrefix(x.prefix())) }
func MaskFromPfx(x V) V { return val(ip.MaskFromPrefix(x.prefix())) }
func RngFromPfx(x V) V  { return val(ip.RangeFromPrefix(x.prefix())) }
func RngFromAddrs(x, y V) (V, bool, error) {
	r, empty, err := ip.RangeFromAddresses(x.addr(), y.addr())
	return val(r), empty, err
}
func First(x V) V { return val(ip.FirstFromRange(x.rng())) }
func Last(x V) V  { return val(ip.LastFromRange(x.rng())) }

// own copies what the library returned, and overwrites it: it is the caller's.
func own(b []byte) []byte {
	if b == nil {
		return nil
	}
	c := append([]byte{}, b...)
	for i := range b {
		b[i] ^= 0x5a
	}
	return c
}

func IfaceA(x V) (string, []byte, int) {
	a := x.addr()
	return a.String(), own(a.ToNetIP()), a.NumBits()
}
func IfaceM(x V) (string, []byte, int) {
	m := x.mask()
	return m.String(), own(m.ToNetIPMask()), m.Length()
}
func IfaceP(x V) (string, []byte, []byte, int) {
	p := x.prefix()
	n := p.ToNetIPNet()
	return p.String(), own(n.IP), own(n.Mask), p.Length()
}
func IfaceR(x V) string { return x.rng().String() }
