package user

import (
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"reflect"

	"verif.sim/spec"
)

// Codecs of the basic kinds, which the library knows how to store itself.

// ByteC is a byte with a mark, or two bytes.
type ByteC uint8

func (b ByteC) bytes() []byte {
	if b < 0x80 {
		return []byte{byte(b)}
	}
	return []byte{0xc0 | byte(b>>6), byte(b) & 0x3f}
}

func byteC(b []byte) (v uint8, n int) {
	if len(b) > 0 && b[0] < 0x80 {
		return b[0], 1
	}
	if len(b) > 1 && b[0] == 0xc2 || len(b) > 1 && b[0] == 0xc3 {
		if b[1] < 0x40 {
			return b[0]<<6 | b[1], 2
		}
	}
	return 0, 0
}

// SizeOf implements restruct.Sizer.
func (b *ByteC) SizeOf() int { return size("size", "ByteC", len(b.bytes())) }

// Pack implements restruct.Packer.
func (b *ByteC) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	m := hook("pack", "ByteC")
	if m == "err" || m == "err-rest" {
		return wrong(m, buf, nil)
	}
	n := copy(buf[:len(b.bytes())], b.bytes())
	return wrong(m, buf, buf[n:])
}

// Unpack implements restruct.Unpacker.
func (b *ByteC) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	m := hook("unpack", "ByteC")
	if m == "err" || m == "err-rest" {
		return wrong(m, buf, nil)
	}
	v, n := byteC(buf)
	if n == 0 {
		return raise(nil, ErrData)
	}
	*b = ByteC(v)
	return wrong(m, buf, buf[n:])
}

// BoolC is a word.
type BoolC bool

// SizeOf implements restruct.Sizer.
func (b BoolC) SizeOf() int { return size("size", "BoolC", 2+2*b2i(bool(b))) }

// Pack implements restruct.Packer.
func (b BoolC) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	m := hook("pack", "BoolC")
	if m == "err" || m == "err-rest" {
		return wrong(m, buf, nil)
	}
	n := copy(buf[:2+2*b2i(bool(b))], map[bool]string{true: "true", false: "no"}[bool(b)])
	return wrong(m, buf, buf[n:])
}

// Unpack implements restruct.Unpacker.
func (b *BoolC) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	m := hook("unpack", "BoolC")
	if m == "err" || m == "err-rest" {
		return wrong(m, buf, nil)
	}
	v, n := boolC(buf)
	if n == 0 {
		return raise(nil, ErrData)
	}
	*b = BoolC(v)
	return wrong(m, buf, buf[n:])
}

func boolC(b []byte) (bool, int) {
	if len(b) >= 2 && string(b[:2]) == "no" {
		return false, 2
	}
	if len(b) >= 4 && string(b[:4]) == "true" {
		return true, 4
	}
	return false, 0
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// PairC is an array whose first byte comes last.
type PairC [2]uint8

// SizeOf implements restruct.Sizer.
func (p *PairC) SizeOf() int { return size("size", "PairC", 3) }

// Pack implements restruct.Packer.
func (p *PairC) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	m := hook("pack", "PairC")
	if m == "err" || m == "err-rest" {
		return wrong(m, buf, nil)
	}
	buf[0], buf[1], buf[2] = '<', p[1], p[0]
	return wrong(m, buf, buf[3:])
}

// Unpack implements restruct.Unpacker.
func (p *PairC) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	m := hook("unpack", "PairC")
	if m == "err" || m == "err-rest" {
		return wrong(m, buf, nil)
	}
	if len(buf) < 3 {
		return raise(nil, io.ErrUnexpectedEOF)
	}
	if buf[0] != '<' {
		return raise(nil, ErrData)
	}
	p[1], p[0] = buf[1], buf[2]
	return wrong(m, buf, buf[3:])
}

// BlobC is a slice of bytes of a kind that is otherwise copied as it is.
type BlobC []byte

// SizeOf implements restruct.Sizer.
func (b BlobC) SizeOf() int { return size("size", "BlobC", 1+len(b)) }

// Pack implements restruct.Packer.
func (b BlobC) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	m := hook("pack", "BlobC")
	if m == "err" || m == "err-rest" {
		return wrong(m, buf, nil)
	}
	buf = buf[:len(buf):len(buf)]
	rest := buf[1+len(b):]
	buf[0] = ^byte(len(b))
	for i, x := range b {
		buf[1+i] = ^x
	}
	return wrong(m, buf, rest)
}

// Unpack implements restruct.Unpacker.
func (b *BlobC) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	m := hook("unpack", "BlobC")
	if m == "err" || m == "err-rest" {
		return wrong(m, buf, nil)
	}
	if len(buf) < 1 || len(buf) < 1+int(^buf[0]) {
		return raise(nil, io.ErrUnexpectedEOF)
	}
	l := make(BlobC, ^buf[0])
	for i := range l {
		l[i] = ^buf[1+i]
	}
	*b = l
	return wrong(m, buf, buf[1+len(l):])
}

// MapC is a set of small numbers.
type MapC map[uint8]bool

func (c MapC) bits() (x uint16) {
	for k := 0; k < 16; k++ {
		if c[uint8(k)] {
			x |= 1 << uint(k)
		}
	}
	return x
}

func mapC(x uint16) MapC {
	c := MapC{}
	for k := 0; k < 16; k++ {
		if x>>uint(k)&1 != 0 {
			c[uint8(k)] = true
		}
	}
	return c
}

// SizeOf implements restruct.Sizer.
func (c MapC) SizeOf() int { return size("size", "MapC", 2) }

// Pack implements restruct.Packer.
func (c MapC) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	m := hook("pack", "MapC")
	if m == "err" || m == "err-rest" {
		return wrong(m, buf, nil)
	}
	o.PutUint16(buf, c.bits())
	return wrong(m, buf, buf[2:])
}

// Unpack implements restruct.Unpacker.
func (c *MapC) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	m := hook("unpack", "MapC")
	if m == "err" || m == "err-rest" {
		return wrong(m, buf, nil)
	}
	if len(buf) < 2 {
		return raise(nil, io.ErrUnexpectedEOF)
	}
	*c = mapC(o.Uint16(buf))
	return wrong(m, buf, buf[2:])
}

// RealC is a number with two digits behind the point.
type RealC float64

// SizeOf implements restruct.Sizer.
func (c *RealC) SizeOf() int { return size("size", "RealC", 4) }

// Pack implements restruct.Packer.
func (c *RealC) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	m := hook("pack", "RealC")
	if m == "err" || m == "err-rest" {
		return wrong(m, buf, nil)
	}
	o.PutUint32(buf, uint32(int32(math.Round(float64(*c)*100))))
	return wrong(m, buf, buf[4:])
}

// Unpack implements restruct.Unpacker.
func (c *RealC) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	m := hook("unpack", "RealC")
	if m == "err" || m == "err-rest" {
		return wrong(m, buf, nil)
	}
	if len(buf) < 4 {
		return raise(nil, io.ErrUnexpectedEOF)
	}
	*c = RealC(float64(int32(o.Uint32(buf))) / 100)
	return wrong(m, buf, buf[4:])
}

func order(little bool) binary.ByteOrder {
	if little {
		return binary.LittleEndian
	}
	return binary.BigEndian
}

func init() {
	spec.RegisterCustom(&spec.Custom{
		Name: "ByteC", Type: reflect.TypeOf(ByteC(0)),
		Gen:    func(r *spec.Rng, v reflect.Value) { v.SetUint(r.U64() & 0xff) },
		Encode: func(v reflect.Value, little bool) []byte { return ByteC(v.Uint()).bytes() },
		Decode: func(b []byte, little bool, v reflect.Value) (int, error) {
			x, n := byteC(b)
			if n == 0 {
				return 0, spec.ErrValue
			}
			v.SetUint(uint64(x))
			return n, nil
		},
		Text: func(v reflect.Value) string { return fmt.Sprint(v.Uint()) },
	})
	spec.RegisterCustom(&spec.Custom{
		Name: "BoolC", Type: reflect.TypeOf(BoolC(false)),
		Gen: func(r *spec.Rng, v reflect.Value) { v.SetBool(r.P(1, 2)) },
		Encode: func(v reflect.Value, little bool) []byte {
			if v.Bool() {
				return []byte("true")
			}
			return []byte("no")
		},
		Decode: func(b []byte, little bool, v reflect.Value) (int, error) {
			x, n := boolC(b)
			if n == 0 {
				return 0, spec.ErrValue
			}
			v.SetBool(x)
			return n, nil
		},
		Text: func(v reflect.Value) string { return fmt.Sprint(v.Bool()) },
	})
	spec.RegisterCustom(&spec.Custom{
		Name: "PairC", Type: reflect.TypeOf(PairC{}),
		Gen: func(r *spec.Rng, v reflect.Value) {
			v.Set(reflect.ValueOf(PairC{byte(r.U64()), byte(r.U64())}))
		},
		Encode: func(v reflect.Value, little bool) []byte {
			return []byte{'<', byte(v.Index(1).Uint()), byte(v.Index(0).Uint())}
		},
		Decode: func(b []byte, little bool, v reflect.Value) (int, error) {
			if len(b) < 3 {
				return 0, spec.ErrShort
			}
			if b[0] != '<' {
				return 0, spec.ErrValue
			}
			v.Set(reflect.ValueOf(PairC{b[2], b[1]}))
			return 3, nil
		},
		Text: func(v reflect.Value) string { return fmt.Sprint(v.Index(0).Uint(), "/", v.Index(1).Uint()) },
	})
	spec.RegisterCustom(&spec.Custom{
		Name: "BlobC", Type: reflect.TypeOf(BlobC{}),
		Gen: func(r *spec.Rng, v reflect.Value) {
			l := make(BlobC, r.N(5))
			for i := range l {
				l[i] = byte(r.U64())
			}
			v.Set(reflect.ValueOf(l))
		},
		Encode: func(v reflect.Value, little bool) []byte {
			b := []byte{^byte(v.Len())}
			for i := 0; i < v.Len(); i++ {
				b = append(b, ^byte(v.Index(i).Uint()))
			}
			return b
		},
		Decode: func(b []byte, little bool, v reflect.Value) (int, error) {
			if len(b) < 1 || len(b) < 1+int(^b[0]) {
				return 0, spec.ErrShort
			}
			l := make(BlobC, ^b[0])
			for i := range l {
				l[i] = ^b[1+i]
			}
			v.Set(reflect.ValueOf(l))
			return 1 + len(l), nil
		},
		Text: func(v reflect.Value) string { return fmt.Sprintf("#%d %x", v.Len(), v.Bytes()) },
	})
	spec.RegisterCustom(&spec.Custom{
		Name: "MapC", Type: reflect.TypeOf(MapC{}),
		Gen: func(r *spec.Rng, v reflect.Value) { v.Set(reflect.ValueOf(mapC(uint16(r.U64() & r.U64())))) },
		Encode: func(v reflect.Value, little bool) []byte {
			b := make([]byte, 2)
			order(little).PutUint16(b, v.Interface().(MapC).bits())
			return b
		},
		Decode: func(b []byte, little bool, v reflect.Value) (int, error) {
			if len(b) < 2 {
				return 0, spec.ErrShort
			}
			v.Set(reflect.ValueOf(mapC(order16(b, little))))
			return 2, nil
		},
		Text: func(v reflect.Value) string { return fmt.Sprintf("%04x", v.Interface().(MapC).bits()) },
	})
	spec.RegisterCustom(&spec.Custom{
		Name: "RealC", Type: reflect.TypeOf(RealC(0)),
		Gen: func(r *spec.Rng, v reflect.Value) { v.SetFloat(float64(int32(r.U64())) / 100) },
		Encode: func(v reflect.Value, little bool) []byte {
			b := make([]byte, 4)
			order(little).PutUint32(b, uint32(int32(math.Round(v.Float()*100))))
			return b
		},
		Decode: func(b []byte, little bool, v reflect.Value) (int, error) {
			if len(b) < 4 {
				return 0, spec.ErrShort
			}
			v.SetFloat(float64(int32(order(little).Uint32(b))) / 100)
			return 4, nil
		},
		Text: func(v reflect.Value) string { return fmt.Sprint(v.Float()) },
	})
}
