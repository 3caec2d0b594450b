package user

import (
	"encoding/binary"

	"verif.sim/spec"
)

// FnRec has expressions that call a function of the record's own.
type FnRec struct {
	Fn func(uint8) uint8 `struct:"-"`
	A  uint8
	B  uint16 `struct-if:"Fn(A) > 2"`
	N  uint8
	L  []byte `struct-size:"Fn(N)"`
	K  uint8
	C  struct {
		X *uint8  `struct-case:"1"`
		Y *uint16 `struct-case:"Fn(2)"`
		Z *uint32 `struct:"default"`
	} `struct-switch:"Fn(K)"`
	D uint8 `struct-out:"Fn(D)" struct-in:"Fn(D)"`
	E uint8 `struct-bits:"Fn(8)"`
	F CStr
	G FnSub
	H []FnSub `struct-size:"Fn(N) - 1"`
}

// FnSub is part of FnRec.
type FnSub struct {
	Rec *FnRec `struct:"root"`
	V   uint8
	W   uint8 `struct-if:"Rec.Fn(V) != 0"`
}

func fnHook(x uint8) uint8 { hook("call", "Fn"); return x }

// NewFnRec makes one, and its encoding.
func NewFnRec(seed uint64, little bool) (*FnRec, []byte) {
	r := spec.NewRng(seed)
	f := &FnRec{Fn: fnHook, A: uint8(r.N(6)), N: uint8(1 + r.N(3)), K: uint8(1 + r.N(3)), D: uint8(r.U64()), E: uint8(r.U64()), F: CStr(r.Pick("", "s", "text"))}
	var o interface {
		binary.ByteOrder
		binary.AppendByteOrder
	} = binary.BigEndian
	if little {
		o = binary.LittleEndian
	}
	b := []byte{f.A}
	if f.A > 2 {
		f.B = uint16(r.U64())
		b = o.AppendUint16(b, f.B)
	}
	b = append(b, f.N)
	f.L = make([]byte, f.N)
	for i := range f.L {
		f.L[i] = byte(r.U64())
	}
	b = append(b, f.L...)
	b = append(b, f.K)
	switch f.K {
	case 1:
		x := uint8(r.U64())
		f.C.X = &x
		b = append(b, x)
	case 2:
		x := uint16(r.U64())
		f.C.Y = &x
		b = o.AppendUint16(b, x)
	default:
		x := uint32(r.U64())
		f.C.Z = &x
		b = o.AppendUint32(b, x)
	}
	b = append(b, f.D, f.E)
	b = append(append(b, f.F...), 0)
	sub := func(s *FnSub) {
		s.V = uint8(r.N(2))
		b = append(b, s.V)
		if s.V != 0 {
			s.W = uint8(r.U64())
			b = append(b, s.W)
		}
	}
	sub(&f.G)
	f.H = make([]FnSub, f.N-1)
	for i := range f.H {
		sub(&f.H[i])
	}
	return f, b
}

// Text renders it, without what the library fills in.
func (f *FnRec) Text() string {
	c := *f
	c.G.Rec = nil
	c.H = append([]FnSub{}, f.H...)
	for i := range c.H {
		c.H[i].Rec = nil
	}
	return Show(c)
}
