package fam6

import (
	"addrsverif/api"

	ip "gopkg.in/addrs.v1/ipv6"
)

const (
	name = "6"
	bits = 128
)

func toAddr(a api.Addr) ip.Address { return ip.AddressFromUint64(a.Hi, a.Lo) }
func fromAddr(a ip.Address) api.Addr {
	h, l := a.Uint64()
	return api.Addr{Hi: h, Lo: l}
}
func fromMask(m ip.Mask) api.Addr {
	h, l := m.Uint64()
	return api.Addr{Hi: h, Lo: l}
}

func special(p ip.Prefix, f *api.PFacts) {
	a, b, c, d := p.Uint64()
	f.WAddr, f.WMask = api.Addr{Hi: a, Lo: b}, api.Addr{Hi: c, Lo: d}
	f.NumAddresses = -1
}

func (s set) NumAddresses() int64               { return -1 }
func (s set) WalkA(cb func(api.Addr) bool) bool { panic(api.NotOffered{}) }
func (s mset) NumAddresses() int64              { return -1 }
func (F) NumAddresses(x api.SArg) int64         { return -1 }

func u16(a api.Addr) (r [8]uint16) {
	for i := 0; i < 4; i++ {
		r[i] = uint16(a.Hi >> (48 - 16*i))
		r[4+i] = uint16(a.Lo >> (48 - 16*i))
	}
	return
}
func (F) AddrFromParts(a api.Addr) api.Addr {
	u := u16(a)
	return fromAddr(ip.AddressFromUint16(u[0], u[1], u[2], u[3], u[4], u[5], u[6], u[7]))
}
func (F) MaskFromWords(a api.Addr) (api.Addr, int, error) {
	return mres(ip.MaskFromUint64(a.Hi, a.Lo))
}
func (F) MaskFromParts(a api.Addr) (api.Addr, int, error) {
	u := u16(a)
	return mres(ip.MaskFromUint16(u[0], u[1], u[2], u[3], u[4], u[5], u[6], u[7]))
}

func maskOfWords(m ip.Mask) ip.Mask { return need(ip.MaskFromUint64(m.Uint64())) }
