package user

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"reflect"

	"github.com/go-restruct/restruct"
	"github.com/go-restruct/restruct/expr"
	"verif.sim/spec"
)

// ErrData is what the codecs report for bytes they cannot read.
var ErrData = errors.New("user codec: invalid data")

// CStr is a NUL terminated string.
type CStr string

// SizeOf implements restruct.Sizer.
func (c *CStr) SizeOf() int { return size("size", "CStr", len(*c)+1) }

// Pack implements restruct.Packer.
func (c *CStr) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	m := hook("pack", "CStr")
	n := len(*c)
	if m == "err" || m == "err-rest" {
		return wrong(m, buf, nil)
	}
	copy(buf[:n], *c)
	buf[n] = 0
	return wrong(m, buf, buf[n+1:])
}

// Unpack implements restruct.Unpacker.
func (c *CStr) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	m := hook("unpack", "CStr")
	if m == "err" || m == "err-rest" {
		return wrong(m, buf, nil)
	}
	for i, b := range buf {
		if b == 0 {
			*c = CStr(buf[:i])
			return wrong(m, buf, buf[i+1:])
		}
	}
	return raise(nil, io.ErrUnexpectedEOF)
}

// VarU is a number of seven bits per byte.
type VarU uint64

func (v VarU) len() int {
	n := 1
	for v >= 0x80 {
		v >>= 7
		n++
	}
	return n
}

// SizeOf implements restruct.Sizer.
func (v *VarU) SizeOf() int { return size("size", "VarU", v.len()) }

// Pack implements restruct.Packer.
func (v *VarU) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	m := hook("pack", "VarU")
	if m == "err" || m == "err-rest" {
		return wrong(m, buf, nil)
	}
	n := binary.PutUvarint(buf[:v.len()], uint64(*v))
	return wrong(m, buf, buf[n:])
}

// Unpack implements restruct.Unpacker.
func (v *VarU) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	m := hook("unpack", "VarU")
	if m == "err" || m == "err-rest" {
		return wrong(m, buf, nil)
	}
	x, n := binary.Uvarint(buf)
	if n <= 0 {
		return raise(nil, ErrData)
	}
	*v = VarU(x)
	return wrong(m, buf, buf[n:])
}

// Fix3 depends on the byte order.
type Fix3 struct {
	A uint8
	B uint16
}

// SizeOf implements restruct.Sizer.
func (f *Fix3) SizeOf() int { return size("size", "Fix3", 3) }

// Pack implements restruct.Packer.
func (f *Fix3) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	m := hook("pack", "Fix3")
	if m == "err" || m == "err-rest" {
		return wrong(m, buf, nil)
	}
	buf[0] = f.A
	o.PutUint16(buf[1:3], f.B)
	return wrong(m, buf, buf[3:])
}

// Unpack implements restruct.Unpacker.
func (f *Fix3) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	m := hook("unpack", "Fix3")
	if m == "err" || m == "err-rest" {
		return wrong(m, buf, nil)
	}
	if len(buf) < 3 {
		return raise(nil, io.ErrUnexpectedEOF)
	}
	f.A = buf[0]
	f.B = o.Uint16(buf[1:3])
	return wrong(m, buf, buf[3:])
}

// VRec packs with methods on the value.
type VRec struct{ X uint16 }

// SizeOf implements restruct.Sizer.
func (f VRec) SizeOf() int { return size("size", "VRec", 4) }

// Pack implements restruct.Packer.
func (f VRec) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	m := hook("pack", "VRec")
	if m == "err" || m == "err-rest" {
		return wrong(m, buf, nil)
	}
	o.PutUint32(buf, uint32(f.X)<<8|0x7e)
	return wrong(m, buf, buf[4:])
}

// Unpack implements restruct.Unpacker.
func (f *VRec) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	m := hook("unpack", "VRec")
	if m == "err" || m == "err-rest" {
		return wrong(m, buf, nil)
	}
	if len(buf) < 4 {
		return raise(nil, io.ErrUnexpectedEOF)
	}
	x := o.Uint32(buf)
	if x&0xff != 0x7e || x>>24 != 0 {
		return raise(nil, ErrData)
	}
	f.X = uint16(x >> 8)
	return wrong(m, buf, buf[4:])
}

// Inner1 and Inner2 are packed by Nest.
type Inner1 struct {
	N uint8 `struct:"sizeof=S"`
	S []uint16
	T uint32
}

// Inner2 is the other one.
type Inner2 struct {
	A int32
	B [2]uint8
	C bool `struct:"variantbool"`
	D *Inner1
}

// Inner3 has parts that are codecs again.
type Inner3 struct {
	V VarU
	N uint8 `struct:"sizeof=L"`
	L []CStr
	F Fix3
}

// Nest calls back into the library.
type Nest struct {
	Which uint8
	I1    Inner1
	I2    Inner2
	I3    Inner3
}

func (n *Nest) inner() interface{} {
	switch n.Which {
	case 0:
		return &n.I1
	case 1:
		return &n.I2
	default:
		return &n.I3
	}
}

// SizeOf implements restruct.Sizer.
func (n *Nest) SizeOf() int {
	s, err := restruct.SizeOf(n.inner())
	if err != nil {
		panic(err)
	}
	return size("size", "Nest", s+2)
}

// Pack implements restruct.Packer.
func (n *Nest) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	m := hook("pack", "Nest")
	if m == "err" || m == "err-rest" {
		return wrong(m, buf, nil)
	}
	b, err := restruct.Pack(o, n.inner())
	if err != nil {
		return raise(nil, err)
	}
	hook("reenter", "Nest")
	buf[0] = n.Which
	buf[1] = byte(len(b))
	copy(buf[2:2+len(b)], b)
	return wrong(m, buf, buf[2+len(b):])
}

// Unpack implements restruct.Unpacker.
func (n *Nest) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	m := hook("unpack", "Nest")
	if m == "err" || m == "err-rest" {
		return wrong(m, buf, nil)
	}
	if len(buf) < 2 || buf[0] > 2 || len(buf) < 2+int(buf[1]) {
		return raise(nil, ErrData)
	}
	n.Which = buf[0]
	n.I1, n.I2, n.I3 = Inner1{}, Inner2{}, Inner3{}
	if err := restruct.Unpack(buf[2:2+int(buf[1])], o, n.inner()); err != nil {
		return raise(nil, err)
	}
	hook("reenter", "Nest")
	return wrong(m, buf, buf[2+int(buf[1]):])
}

// NestX evaluates expressions.
type NestX struct{ X uint8 }

// SizeOf implements restruct.Sizer.
func (n *NestX) SizeOf() int { return size("size", "NestX", 1) }

// Pack implements restruct.Packer.
func (n *NestX) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	m := hook("pack", "NestX")
	if m == "err" || m == "err-rest" {
		return wrong(m, buf, nil)
	}
	v, err := expr.Eval(expr.NewStructResolver(reflect.ValueOf(*n)), "X + 1")
	if err != nil {
		return raise(nil, err)
	}
	buf[0] = v.(uint8)
	return wrong(m, buf, buf[1:])
}

type nestEnv struct{ B [1]byte }

// Unpack implements restruct.Unpacker.
func (n *NestX) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	m := hook("unpack", "NestX")
	if m == "err" || m == "err-rest" {
		return wrong(m, buf, nil)
	}
	if len(buf) < 1 {
		return raise(nil, io.ErrUnexpectedEOF)
	}
	v, err := expr.Eval(expr.NewStructResolver(reflect.ValueOf(nestEnv{[1]byte{buf[0]}})), "B[0] - 1")
	if err != nil {
		return raise(nil, err)
	}
	n.X = v.(uint8)
	return wrong(m, buf, buf[1:])
}

// Probe does whatever the harness asks for in the middle of an operation.
type Probe struct{ B uint8 }

func probe(kind string) {
	if c := ctl(); c != nil && c.OnCall != nil {
		c.OnCall(kind)
	}
}

// SizeOf implements restruct.Sizer.
func (p *Probe) SizeOf() int { probe("size"); return size("size", "Probe", 1) }

// Pack implements restruct.Packer.
func (p *Probe) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	m := hook("pack", "Probe")
	if m == "err" || m == "err-rest" {
		return wrong(m, buf, nil)
	}
	probe("pack")
	buf[0] = p.B
	return wrong(m, buf, buf[1:])
}

// Unpack implements restruct.Unpacker.
func (p *Probe) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	m := hook("unpack", "Probe")
	if m == "err" || m == "err-rest" {
		return wrong(m, buf, nil)
	}
	if len(buf) < 1 {
		return raise(nil, io.ErrUnexpectedEOF)
	}
	probe("unpack")
	p.B = buf[0]
	return wrong(m, buf, buf[1:])
}

// Sized has a size of its own, but no codec.
type Sized struct {
	A uint8 `struct:"uint8:4"`
	B uint8
	C uint8 `struct:"uint8:4"`
}

// BitSize implements restruct.BitSizer.
func (s *Sized) BitSize() int { return size("bitsize", "Sized", 16) }

func inner1Spec() *spec.T {
	return &spec.T{K: "struct", F: []*spec.F{
		{Name: "N", T: &spec.T{K: "uint8"}, SizeOf: "S"},
		{Name: "S", T: &spec.T{K: "slice", E: &spec.T{K: "uint16"}}},
		{Name: "T", T: &spec.T{K: "uint32"}},
	}}
}

func inner2Spec() *spec.T {
	return &spec.T{K: "struct", F: []*spec.F{
		{Name: "A", T: &spec.T{K: "int32"}},
		{Name: "B", T: &spec.T{K: "array", N: 2, E: &spec.T{K: "uint8"}}},
		{Name: "C", T: &spec.T{K: "bool"}, VBool: true},
		{Name: "D", T: &spec.T{K: "ptr", E: spec.Static("Inner1")}},
	}}
}

func inner3Spec() *spec.T {
	return &spec.T{K: "struct", F: []*spec.F{
		{Name: "V", T: &spec.T{K: "custom", S: "VarU"}},
		{Name: "N", T: &spec.T{K: "uint8"}, SizeOf: "L"},
		{Name: "L", T: &spec.T{K: "slice", E: &spec.T{K: "custom", S: "CStr"}}},
		{Name: "F", T: &spec.T{K: "custom", S: "Fix3"}},
	}}
}

var inners = []func() *spec.T{inner1Spec, inner2Spec, inner3Spec}

func order16(b []byte, little bool) uint16 {
	if little {
		return binary.LittleEndian.Uint16(b)
	}
	return binary.BigEndian.Uint16(b)
}

func nestInner(v reflect.Value) (*spec.T, reflect.Value) {
	w := int(v.Field(0).Uint())
	if w > 2 {
		w = 2
	}
	return spec.Static(fmt.Sprintf("Inner%d", w+1)), v.Field(1 + w)
}

func init() {
	spec.RegisterStatic("Inner1", reflect.TypeOf(Inner1{}), inner1Spec)
	spec.RegisterStatic("Inner2", reflect.TypeOf(Inner2{}), inner2Spec)
	spec.RegisterStatic("Inner3", reflect.TypeOf(Inner3{}), inner3Spec)
	spec.RegisterCustom(&spec.Custom{
		Name: "CStr", Type: reflect.TypeOf(CStr("")),
		Gen: func(r *spec.Rng, v reflect.Value) {
			b := make([]byte, r.N(6))
			for i := range b {
				b[i] = byte(1 + r.N(255))
			}
			v.SetString(string(b))
		},
		Encode: func(v reflect.Value, little bool) []byte { return append([]byte(v.String()), 0) },
		Decode: func(b []byte, little bool, v reflect.Value) (int, error) {
			for i, c := range b {
				if c == 0 {
					v.SetString(string(b[:i]))
					return i + 1, nil
				}
			}
			return 0, spec.ErrShort
		},
		Text: func(v reflect.Value) string { return fmt.Sprintf("%q", v.String()) },
	})
	spec.RegisterCustom(&spec.Custom{
		Name: "VarU", Type: reflect.TypeOf(VarU(0)),
		Gen: func(r *spec.Rng, v reflect.Value) { v.SetUint(r.U64() >> uint(r.N(64))) },
		Encode: func(v reflect.Value, little bool) []byte {
			var b []byte
			for u := v.Uint(); ; u >>= 7 {
				if u < 0x80 {
					return append(b, byte(u))
				}
				b = append(b, byte(u)|0x80)
			}
		},
		Decode: func(b []byte, little bool, v reflect.Value) (int, error) {
			x, n := binary.Uvarint(b)
			if n <= 0 {
				return 0, spec.ErrValue
			}
			v.SetUint(x)
			return n, nil
		},
		Text: func(v reflect.Value) string { return fmt.Sprint(v.Uint()) },
	})
	spec.RegisterCustom(&spec.Custom{
		Name: "Fix3", Type: reflect.TypeOf(Fix3{}),
		Gen: func(r *spec.Rng, v reflect.Value) {
			v.Set(reflect.ValueOf(Fix3{uint8(r.U64()), uint16(r.U64())}))
		},
		Encode: func(v reflect.Value, little bool) []byte {
			b := uint16(v.Field(1).Uint())
			out := []byte{byte(v.Field(0).Uint()), byte(b >> 8), byte(b)}
			if little {
				out[1], out[2] = out[2], out[1]
			}
			return out
		},
		Decode: func(b []byte, little bool, v reflect.Value) (int, error) {
			if len(b) < 3 {
				return 0, spec.ErrShort
			}
			v.Set(reflect.ValueOf(Fix3{b[0], order16(b[1:], little)}))
			return 3, nil
		},
		Text: func(v reflect.Value) string { return fmt.Sprint(v.Field(0).Uint(), "/", v.Field(1).Uint()) },
	})
	spec.RegisterCustom(&spec.Custom{
		Name: "VRec", Type: reflect.TypeOf(VRec{}),
		Gen: func(r *spec.Rng, v reflect.Value) { v.Field(0).SetUint(r.U64() & 0xffff) },
		Encode: func(v reflect.Value, little bool) []byte {
			x := v.Field(0).Uint()
			out := []byte{0, byte(x >> 8), byte(x), 0x7e}
			if little {
				out[0], out[1], out[2], out[3] = out[3], out[2], out[1], out[0]
			}
			return out
		},
		Decode: func(b []byte, little bool, v reflect.Value) (int, error) {
			if len(b) < 4 {
				return 0, spec.ErrShort
			}
			a := []byte{b[0], b[1], b[2], b[3]}
			if little {
				a[0], a[1], a[2], a[3] = a[3], a[2], a[1], a[0]
			}
			if a[0] != 0 || a[3] != 0x7e {
				return 0, spec.ErrValue
			}
			v.Field(0).SetUint(uint64(a[1])<<8 | uint64(a[2]))
			return 4, nil
		},
		Text: func(v reflect.Value) string { return fmt.Sprint(v.Field(0).Uint()) },
	})
	spec.RegisterCustom(&spec.Custom{
		Name: "NestX", Type: reflect.TypeOf(NestX{}),
		Gen: func(r *spec.Rng, v reflect.Value) { v.Field(0).SetUint(r.U64() & 0xff) },
		Encode: func(v reflect.Value, little bool) []byte {
			return []byte{byte(v.Field(0).Uint() + 1)}
		},
		Decode: func(b []byte, little bool, v reflect.Value) (int, error) {
			if len(b) < 1 {
				return 0, spec.ErrShort
			}
			v.Field(0).SetUint(uint64(b[0] - 1))
			return 1, nil
		},
		Text: func(v reflect.Value) string { return fmt.Sprint(v.Field(0).Uint()) },
	})
	spec.RegisterCustom(&spec.Custom{
		Name: "Probe", Type: reflect.TypeOf(Probe{}),
		Gen:    func(r *spec.Rng, v reflect.Value) { v.Field(0).SetUint(r.U64() & 0xff) },
		Encode: func(v reflect.Value, little bool) []byte { return []byte{byte(v.Field(0).Uint())} },
		Decode: func(b []byte, little bool, v reflect.Value) (int, error) {
			if len(b) < 1 {
				return 0, spec.ErrShort
			}
			v.Field(0).SetUint(uint64(b[0]))
			return 1, nil
		},
		Text: func(v reflect.Value) string { return fmt.Sprint(v.Field(0).Uint()) },
	})
	spec.RegisterCustom(&spec.Custom{
		Name: "Nest", Type: reflect.TypeOf(Nest{}),
		Gen: func(r *spec.Rng, v reflect.Value) {
			v.Field(0).SetUint(uint64(r.N(3)))
			t, iv := nestInner(v)
			iv.Set(spec.Value(t, r, 3))
		},
		Encode: func(v reflect.Value, little bool) []byte {
			t, iv := nestInner(v)
			b, _, err := spec.Encode(t, iv, little)
			if err != nil {
				panic(err)
			}
			return append([]byte{byte(v.Field(0).Uint()), byte(len(b))}, b...)
		},
		Decode: func(b []byte, little bool, v reflect.Value) (int, error) {
			if len(b) < 2 || b[0] > 2 || len(b) < 2+int(b[1]) {
				return 0, spec.ErrValue
			}
			v.Set(reflect.Zero(v.Type()))
			v.Field(0).SetUint(uint64(b[0]))
			t, iv := nestInner(v)
			if _, err := spec.Decode(t, b[2:2+int(b[1])], little, iv); err != nil {
				return 0, err
			}
			return 2 + int(b[1]), nil
		},
		Text: func(v reflect.Value) string {
			t, iv := nestInner(v)
			return fmt.Sprint(v.Field(0).Uint()) + "{" + spec.Dump(t, iv) + "}"
		},
	})
}

// Codecs lists the codecs by what they need.
var (
	Plain = []string{"CStr", "VarU", "Fix3", "VRec", "BitC", "ListC", "Emb", "NilC", "ByteC", "ByteC", "BoolC", "PairC", "BlobC", "MapC", "RealC"}
	All   = []string{"CStr", "VarU", "Fix3", "VRec", "BitC", "ListC", "Emb", "NilC", "Zero", "Nest", "Nest", "NestX", "NestX", "ByteC", "ByteC", "BoolC", "PairC", "BlobC", "MapC", "RealC"}
	Deep  = []string{"CStr", "Nest", "NestX", "Probe", "Probe", "Nest", "Tower", "ByteC"}
)

// Order is a byte order whose calls are callbacks.
type Order struct{ Big bool }

func (o Order) base() binary.ByteOrder {
	if o.Big {
		return binary.BigEndian
	}
	return binary.LittleEndian
}

// Uint16 implements binary.ByteOrder.
func (o Order) Uint16(b []byte) uint16 { hook("order", ""); return o.base().Uint16(b) }

// Uint32 implements binary.ByteOrder.
func (o Order) Uint32(b []byte) uint32 { hook("order", ""); return o.base().Uint32(b) }

// Uint64 implements binary.ByteOrder.
func (o Order) Uint64(b []byte) uint64 { hook("order", ""); return o.base().Uint64(b) }

// PutUint16 implements binary.ByteOrder.
func (o Order) PutUint16(b []byte, x uint16) { hook("order", ""); o.base().PutUint16(b, x) }

// PutUint32 implements binary.ByteOrder.
func (o Order) PutUint32(b []byte, x uint32) { hook("order", ""); o.base().PutUint32(b, x) }

// PutUint64 implements binary.ByteOrder.
func (o Order) PutUint64(b []byte, x uint64) { hook("order", ""); o.base().PutUint64(b, x) }

// String implements binary.ByteOrder.
func (o Order) String() string { return "sim" }
