package user

import (
	"encoding/binary"
	"fmt"
	"io"
	"reflect"

	"github.com/go-restruct/restruct"
	"verif.sim/spec"
)

// Codecs of unusual shape.

// BitC tells its size in bits. It takes more room in memory.
type BitC struct {
	A    uint32 // no more than a byte
	B, C uint8
}

// BitSize implements restruct.BitSizer.
func (b *BitC) BitSize() int { return size("bitsize", "BitC", 24) / 8 * 8 }

// SizeOf implements restruct.Sizer.
func (b *BitC) SizeOf() int { return size("size", "BitC", 3) }

// Pack implements restruct.Packer.
func (b *BitC) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	m := hook("pack", "BitC")
	if m == "err" || m == "err-rest" {
		return wrong(m, buf, nil)
	}
	buf[0], buf[1], buf[2] = b.C, b.B, byte(b.A)
	return wrong(m, buf, buf[3:])
}

// Unpack implements restruct.Unpacker.
func (b *BitC) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	m := hook("unpack", "BitC")
	if m == "err" || m == "err-rest" {
		return wrong(m, buf, nil)
	}
	if len(buf) < 3 {
		return raise(nil, io.ErrUnexpectedEOF)
	}
	b.C, b.B, b.A = buf[0], buf[1], uint32(buf[2])
	return wrong(m, buf, buf[3:])
}

// ListC is a slice with a codec, which also works without anything in it.
type ListC []uint16

// SizeOf implements restruct.Sizer.
func (l ListC) SizeOf() int { return size("size", "ListC", 1+2*len(l)) }

// Pack implements restruct.Packer.
func (l ListC) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	m := hook("pack", "ListC")
	if m == "err" || m == "err-rest" {
		return wrong(m, buf, nil)
	}
	buf[0] = byte(len(l))
	buf = buf[1:]
	for _, x := range l {
		o.PutUint16(buf, x)
		buf = buf[2:]
	}
	return wrong(m, buf, buf)
}

// Unpack implements restruct.Unpacker.
func (l *ListC) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	m := hook("unpack", "ListC")
	if m == "err" || m == "err-rest" {
		return wrong(m, buf, nil)
	}
	if len(buf) < 1 || len(buf) < 1+2*int(buf[0]) {
		return raise(nil, io.ErrUnexpectedEOF)
	}
	n := int(buf[0])
	buf = buf[1:]
	*l = make(ListC, n)
	for i := range *l {
		(*l)[i] = o.Uint16(buf)
		buf = buf[2:]
	}
	return wrong(m, buf, buf)
}

// Emb has the codec of what it embeds.
type Emb struct {
	Fix3
	Extra uint8
}

// NilC works behind a nil pointer.
type NilC struct{ X uint16 }

// SizeOf implements restruct.Sizer.
func (n *NilC) SizeOf() int {
	if n == nil {
		return size("size", "NilC", 1)
	}
	return size("size", "NilC", 3)
}

// Pack implements restruct.Packer.
func (n *NilC) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	m := hook("pack", "NilC")
	if m == "err" || m == "err-rest" {
		return wrong(m, buf, nil)
	}
	if n == nil {
		buf[0] = 0
		return wrong(m, buf, buf[1:])
	}
	buf[0] = 1
	o.PutUint16(buf[1:], n.X)
	return wrong(m, buf, buf[3:])
}

// Unpack implements restruct.Unpacker.
func (n *NilC) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	m := hook("unpack", "NilC")
	if m == "err" || m == "err-rest" {
		return wrong(m, buf, nil)
	}
	switch {
	case len(buf) < 3:
		return raise(nil, io.ErrUnexpectedEOF)
	case buf[0] != 1:
		return raise(nil, ErrData)
	}
	n.X = o.Uint16(buf[1:])
	return wrong(m, buf, buf[3:])
}

// Zero takes no room.
type Zero struct{}

// SizeOf implements restruct.Sizer.
func (z *Zero) SizeOf() int { return size("size", "Zero", 0) }

// Pack implements restruct.Packer.
func (z *Zero) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	m := hook("pack", "Zero")
	return wrong(m, buf, buf)
}

// Unpack implements restruct.Unpacker.
func (z *Zero) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	m := hook("unpack", "Zero")
	return wrong(m, buf, buf)
}

func init() {
	spec.RegisterCustom(&spec.Custom{
		Name: "BitC", Type: reflect.TypeOf(BitC{}),
		Gen: func(r *spec.Rng, v reflect.Value) {
			v.Set(reflect.ValueOf(BitC{uint32(uint8(r.U64())), uint8(r.U64()), uint8(r.U64())}))
		},
		Encode: func(v reflect.Value, little bool) []byte {
			return []byte{byte(v.Field(2).Uint()), byte(v.Field(1).Uint()), byte(v.Field(0).Uint())}
		},
		Decode: func(b []byte, little bool, v reflect.Value) (int, error) {
			if len(b) < 3 {
				return 0, spec.ErrShort
			}
			v.Set(reflect.ValueOf(BitC{uint32(b[2]), b[1], b[0]}))
			return 3, nil
		},
		Text: func(v reflect.Value) string {
			return fmt.Sprint(v.Field(0).Uint(), "/", v.Field(1).Uint(), "/", v.Field(2).Uint())
		},
	})
	spec.RegisterCustom(&spec.Custom{
		Name: "ListC", Type: reflect.TypeOf(ListC{}),
		Gen: func(r *spec.Rng, v reflect.Value) {
			l := make(ListC, r.N(4))
			for i := range l {
				l[i] = uint16(r.U64())
			}
			v.Set(reflect.ValueOf(l))
		},
		Encode: func(v reflect.Value, little bool) []byte {
			b := []byte{byte(v.Len())}
			for i := 0; i < v.Len(); i++ {
				x := uint16(v.Index(i).Uint())
				if little {
					b = append(b, byte(x), byte(x>>8))
				} else {
					b = append(b, byte(x>>8), byte(x))
				}
			}
			return b
		},
		Decode: func(b []byte, little bool, v reflect.Value) (int, error) {
			if len(b) < 1 || len(b) < 1+2*int(b[0]) {
				return 0, spec.ErrShort
			}
			l := make(ListC, b[0])
			for i := range l {
				l[i] = order16(b[1+2*i:], little)
			}
			v.Set(reflect.ValueOf(l))
			return 1 + 2*len(l), nil
		},
		Text: func(v reflect.Value) string {
			s := fmt.Sprint("#", v.Len())
			for i := 0; i < v.Len(); i++ {
				s += fmt.Sprint(" ", v.Index(i).Uint())
			}
			return s
		},
	})
	fix := spec.CustomOf("Fix3")
	spec.RegisterCustom(&spec.Custom{
		Name: "Emb", Type: reflect.TypeOf(Emb{}),
		Gen:    func(r *spec.Rng, v reflect.Value) { fix.Gen(r, v.Field(0)) },
		Encode: func(v reflect.Value, little bool) []byte { return fix.Encode(v.Field(0), little) },
		Decode: func(b []byte, little bool, v reflect.Value) (int, error) {
			return fix.Decode(b, little, v.Field(0))
		},
		Text: func(v reflect.Value) string { return fix.Text(v.Field(0)) },
	})
	spec.RegisterCustom(&spec.Custom{
		Name: "NilC", Type: reflect.TypeOf(NilC{}),
		Gen: func(r *spec.Rng, v reflect.Value) { v.Field(0).SetUint(r.U64() & 0xffff) },
		Encode: func(v reflect.Value, little bool) []byte {
			x := v.Field(0).Uint()
			if little {
				return []byte{1, byte(x), byte(x >> 8)}
			}
			return []byte{1, byte(x >> 8), byte(x)}
		},
		Decode: func(b []byte, little bool, v reflect.Value) (int, error) {
			if len(b) < 3 {
				return 0, spec.ErrShort
			}
			if b[0] != 1 {
				return 0, spec.ErrValue
			}
			v.Field(0).SetUint(uint64(order16(b[1:], little)))
			return 3, nil
		},
		Text: func(v reflect.Value) string { return fmt.Sprint(v.Field(0).Uint()) },
	})
	spec.RegisterCustom(&spec.Custom{
		Name: "Zero", Type: reflect.TypeOf(Zero{}),
		Gen:    func(r *spec.Rng, v reflect.Value) {},
		Encode: func(v reflect.Value, little bool) []byte { return nil },
		Decode: func(b []byte, little bool, v reflect.Value) (int, error) { return 0, nil },
		Text:   func(v reflect.Value) string { return "zero" },
	})
}

// Tower calls back into the library once for every level it has. A level whose
// byte is odd makes do with nothing when what is above it fails.
type Tower struct {
	Levels []byte
	Broken bool
	Leaf   byte
}

type towerRec struct{ T Tower }

func (t *Tower) size() int {
	if t.Broken {
		return len(t.Levels)
	}
	return len(t.Levels) + 2
}

// SizeOf implements restruct.Sizer.
func (t *Tower) SizeOf() int { return size("size", "Tower", t.size()) }

// Pack implements restruct.Packer.
func (t *Tower) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	m := hook("pack", "Tower")
	if m == "err" || m == "err-rest" {
		return wrong(m, buf, nil)
	}
	if len(t.Levels) == 0 {
		if t.Broken {
			return wrong(m, buf, buf)
		}
		buf[0], buf[1] = 0, t.Leaf
		return wrong(m, buf, buf[2:])
	}
	b, err := restruct.Pack(o, &towerRec{Tower{t.Levels[1:], t.Broken, t.Leaf}})
	if err != nil {
		return raise(nil, err)
	}
	buf[0] = t.Levels[0]
	n := copy(buf[1:], b)
	return wrong(m, buf, buf[1+n:])
}

// Unpack implements restruct.Unpacker.
func (t *Tower) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	m := hook("unpack", "Tower")
	if m == "err" || m == "err-rest" {
		return wrong(m, buf, nil)
	}
	*t = Tower{}
	if len(buf) == 0 {
		return raise(nil, io.ErrUnexpectedEOF)
	}
	if buf[0] == 0 {
		if len(buf) < 2 || buf[1] == 0 {
			return raise(nil, ErrData)
		}
		t.Leaf = buf[1]
		return wrong(m, buf, buf[2:])
	}
	t.Levels = []byte{buf[0]}
	var in towerRec
	if err := restruct.Unpack(buf[1:], o, &in); err == nil {
		t.Levels = append(t.Levels, in.T.Levels...)
		t.Broken, t.Leaf = in.T.Broken, in.T.Leaf
	} else if buf[0]&1 == 0 {
		return raise(nil, err)
	} else {
		t.Broken = true
	}
	return wrong(m, buf, buf[t.size():])
}

func init() {
	spec.RegisterCustom(&spec.Custom{
		Name: "Tower", Type: reflect.TypeOf(Tower{}),
		Gen: func(r *spec.Rng, v reflect.Value) {
			n := r.N(5)
			if r.P(1, 4) {
				n = 60 + r.N(80)
			}
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(2 + 2*r.N(100))
				if r.P(1, 8) {
					b[i]++
				}
			}
			v.Set(reflect.ValueOf(Tower{b, false, byte(1 + r.N(255))}))
		},
		Encode: func(v reflect.Value, little bool) []byte {
			t := v.Interface().(Tower)
			b := append([]byte{}, t.Levels...)
			if !t.Broken {
				b = append(b, 0, t.Leaf)
			}
			return b
		},
		Decode: func(b []byte, little bool, v reflect.Value) (int, error) {
			trap := -1
			var t Tower
			for i := range b {
				if b[i] == 0 {
					if i+1 < len(b) && b[i+1] != 0 {
						t.Levels, t.Leaf = append([]byte{}, b[:i]...), b[i+1]
						v.Set(reflect.ValueOf(t))
						return i + 2, nil
					}
					break
				}
				if b[i]&1 == 1 {
					trap = i
				}
			}
			if trap < 0 {
				return 0, spec.ErrValue
			}
			t.Levels, t.Broken = append([]byte{}, b[:trap+1]...), true
			v.Set(reflect.ValueOf(t))
			return trap + 1, nil
		},
		Text: func(v reflect.Value) string { return fmt.Sprintf("%+v", v.Interface()) },
	})
}
