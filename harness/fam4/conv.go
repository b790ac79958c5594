package fam4

import (
	"addrsverif/api"

	ip "gopkg.in/addrs.v1/ipv4"
)

const (
	name = "4"
	bits = 32
)

func toAddr(a api.Addr) ip.Address   { return ip.AddressFromUint32(uint32(a.Lo)) }
func fromAddr(a ip.Address) api.Addr { return api.Addr{Lo: uint64(a.Uint32())} }
func fromMask(m ip.Mask) api.Addr    { return api.Addr{Lo: uint64(m.Uint32())} }

func special(p ip.Prefix, f *api.PFacts) {
	f.HasBcast = true
	f.Bcast = fromPfx(p.Broadcast())
	a, m := p.Uint32()
	f.WAddr, f.WMask = api.Addr{Lo: uint64(a)}, api.Addr{Lo: uint64(m)}
	f.NumAddresses = p.NumAddresses()
}

func (s set) NumAddresses() int64 { return s.s.NumAddresses() }
func (s set) WalkA(cb func(api.Addr) bool) bool {
	return s.s.WalkAddresses(func(a ip.Address) bool { return cb(fromAddr(a)) })
}
func (s mset) NumAddresses() int64 { return s.s.NumAddresses() }
func (F) NumAddresses(x api.SArg) int64 {
	switch x.Kind {
	case "p":
		return toPfx(x.P).NumAddresses()
	case "r":
		return toRng(x.R).NumAddresses()
	case "s":
		return x.S.NumAddresses()
	case "m":
		return x.M.NumAddresses()
	}
	panic("harness: numaddresses")
}

func (F) AddrFromParts(a api.Addr) api.Addr {
	v := a.Lo
	return fromAddr(ip.AddressFromBytes(byte(v>>24), byte(v>>16), byte(v>>8), byte(v)))
}
func (F) MaskFromWords(a api.Addr) (api.Addr, int, error) {
	return mres(ip.MaskFromUint32(uint32(a.Lo)))
}
func (F) MaskFromParts(a api.Addr) (api.Addr, int, error) {
	v := a.Lo
	return mres(ip.MaskFromBytes(byte(v>>24), byte(v>>16), byte(v>>8), byte(v)))
}

func maskOfWords(m ip.Mask) ip.Mask { return need(ip.MaskFromUint32(m.Uint32())) }
