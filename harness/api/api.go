// Package api is the family-neutral view of the library that the drivers and
// replayers use. fam4 and fam6 implement it on the real code.
package api

// Addr is an address as two words; an IPv4 address is in the low 32 bits of Lo.
type Addr struct{ Hi, Lo uint64 }

// Pfx is an address and a length (the address may have host bits set).
type Pfx struct {
	A Addr
	L int
}

// Rng is an inclusive range.
type Rng struct{ X, Y Addr }

// Entry is one prefix/value pair.
type Entry struct {
	P Pfx
	V int
}

// DiffRep is one report of a table diff: D is one of "C", "L", "R", "S".
type DiffRep struct {
	D     string
	P     Pfx
	V, V2 int
}

// PArg is a prefix argument: kind "p" a prefix, "a" an address (a host
// prefix), "n" nil. CB, when set, runs whenever the library asks for the prefix.
type PArg struct {
	Kind string
	P    Pfx
	CB   func()
}

// SArg is a set argument.
type SArg struct {
	Kind string // "a" "p" "r" "s" "m" "nil"
	P    Pfx    // also the address for "a"
	R    Rng
	S    Set
	M    MSet
	RS   []Rng // what is in S or M, if that does not change
	CB   func()
}

// Table is an immutable table. Values are ints behind a codec.
type Table interface {
	Get(PArg) (int, bool)
	LPM(PArg) (int, bool, Pfx)
	Num() int64
	Walk(func(Pfx, int) bool) bool
	Diff(o Table, on [4]bool, cb func(DiffRep) bool) bool
	Agg() Table
	Map(f func(Pfx, int) int) Table
	Mut() MTable
	Build(func(MTable) bool) Table
	M() int // how its custom comparison compares (see NewTable)
}

// MTable is a handle of a mutable table.
type MTable interface {
	Insert(PArg, int) bool
	Update(PArg, int) bool
	InsertOrUpdate(PArg, int)
	GetOrInsert(PArg, int) int
	Remove(PArg) bool
	Get(PArg) (int, bool)
	LPM(PArg) (int, bool, Pfx)
	Num() int64
	Snap() Table
	Copy() MTable
}

// Set is an immutable set.
type Set interface {
	Alg(op string, o SArg) Set // "u" "i" "d"
	Contains(SArg) bool
	Equal(Set) bool
	IsEmpty() bool
	NumAddresses() int64 // -1 when the family does not offer it
	NumPrefixes(length uint32) (uint64, error)
	WalkP(func(Pfx) bool) bool
	WalkR(func(Rng) bool) bool
	WalkA(func(Addr) bool) bool // panics with NotOffered
	String() string
	Find(reserved SArg, length uint32) (Pfx, error)
	Mut() MSet
	Build(func(MSet) bool) Set
	Self() Set // its own .Set()
}

// MSet is a handle of a mutable set.
type MSet interface {
	Insert(SArg)
	Remove(SArg)
	Alg(op string, o SArg) Set
	Contains(SArg) bool
	Equal(MSet) bool
	IsEmpty() bool
	NumAddresses() int64
	Snap() Set
	Copy() MSet
}

// PFacts is everything a prefix says about itself.
type PFacts struct {
	Addr          Addr
	Len           int
	Net, Host     Pfx
	HasBcast      bool
	Bcast         Pfx
	Mask          Addr
	MaskLen       int
	WAddr, WMask  Addr // Uint32() / Uint64()
	Lo, Hi        Addr
	H1, H2        Pfx
	NumAddresses  int64
	Self          Pfx // .Prefix()
	String        string
	MaskString    string
	NetIP, NetIPM []byte // ToNetIPNet
	MaskNetIP     []byte // Mask().ToNetIPMask()
}

// CmpHook observes every call of a custom comparison.
type CmpHook func(a, b int)

// Fam is one address family of the library.
type Fam interface {
	Name() string
	Bits() int
	NewTable(kind, m int, hook CmpHook) MTable
	ZeroMTable(kind int) MTable
	ZeroTable(kind int) Table
	NewSet() MSet
	ZeroMSet() MSet
	ZeroSet() Set
	// operands
	ToSet(SArg) Set          // operand.Set()
	Contains(x, y SArg) bool // x.Contains(y) for "p", "r", "s", "m"
	NumPrefixes(x SArg, l uint32) (uint64, error)
	NumAddresses(x SArg) int64
	RangeFrom(x, y Addr) (r Rng, empty bool)
	PrefixRange(p Pfx) Rng
	Plus(x, y Rng) []Rng
	Minus(x, y Rng) []Rng
	PrefixFacts(p Pfx) PFacts
	AddrPrefix(a Addr) Pfx
	AddrBits(a Addr) int
	AddrBack(a Addr) Addr // Uint32()/Uint64()
	// text
	AddrString(a Addr) string
	PfxString(p Pfx) string
	MaskString(length int) (string, error)
	RangeString(r Rng) string
	ParseAddr(s string) (Addr, error)
	ParsePfx(s string) (Pfx, error)
	// binary
	AddrFromSlice(b []byte) (Addr, error)
	AddrFromNetIP(b []byte) (Addr, error)
	AddrFromParts(a Addr) Addr // AddressFromBytes / AddressFromUint16
	MaskFromLength(l int) (Addr, int, error)
	MaskFromWords(a Addr) (Addr, int, error) // MaskFromUint32 / MaskFromUint64
	MaskFromParts(a Addr) (Addr, int, error) // MaskFromBytes / MaskFromUint16
	MaskFromNetIPMask(b []byte) (Addr, int, error)
	AddrNetIP(a Addr) []byte
	MaskNetIP(length int) []byte
	PfxFromNetIPNet(nilNet bool, ip, mask []byte) (Pfx, error)
	PfxFromAddrMask(a Addr, length int) Pfx
	PfxNetIPNet(p Pfx) (ip, mask []byte)
	// values of the library's own types, made in different ways
	Value(kind string, route int, p Pfx, r Rng) interface{}
}

// NotOffered is the panic value for methods a family does not have.
type NotOffered struct{}

// BigBytes is the size of the values of kind 16.
const BigBytes = 4096
