package user

import (
	"reflect"

	"github.com/go-restruct/restruct/formats/png"
	"verif.sim/spec"
)

// Pkt and its parts refer to each other.
type Pkt struct {
	Kind uint8
	N    uint8
	Body PktBody
	Opts []PktOpt `struct-size:"Kind"`
	Tail uint16
}

// PktBody is sized by its parent.
type PktBody struct {
	Parent *Pkt    `struct:"parent"`
	Root   *Pkt    `struct:"root"`
	Data   []byte  `struct-size:"Parent.N"`
	Opt    *PktOpt `struct-if:"Root.Kind == 1"`
}

// PktOpt is optional.
type PktOpt struct {
	V uint16 `struct:"uint16,big"`
	W int8
}

// Chain is a list whose elements say whether there is another one.
type Chain struct {
	V    uint8
	W    uint16 `struct-if:"V > 128"`
	Next *Chain `struct-if:"(V & 1) != 0"`
}

// Deep1 is the outermost of several nested types.
type Deep1 struct {
	A uint8
	B Deep2
	C [2]Deep3
}

// Deep2 is part of Deep1.
type Deep2 struct {
	N uint8 `struct:"sizeof=L"`
	X Deep3
	L []Deep4
}

// Deep3 is part of Deep1.
type Deep3 struct {
	P uint16 `struct:"uint16:12,big"`
	Q uint8  `struct:"uint8:4"`
	R Deep5
}

// Deep4 is part of Deep2.
type Deep4 struct {
	U Deep5
	V *Deep3
}

// Deep5 is the innermost.
type Deep5 struct {
	S string `struct:"[3]byte"`
	T bool   `struct:"invertedbool"`
}

// Up1 and its parts refer to each other over several levels.
type Up1 struct {
	V    uint8
	Mid  Up2
	Opt  *Up2 `struct-if:"V > 1"`
	Tail Up3
}

// Up2 is part of Up1.
type Up2 struct {
	W  uint8
	In Up3
	L  []Up3 `struct-size:"W"`
}

// Up3 is part of both.
type Up3 struct {
	Top *Up1   `struct:"parent"`
	Mid *Up2   `struct:"parent"`
	A   []byte `struct-size:"Top.V"`
	B   uint8
}

// Knit refers to one of its own kind.
type Knit struct {
	Up   *Knit `struct:"parent"`
	Top  *Knit `struct:"root"`
	V    uint8
	Kid  *Knit    `struct-if:"(V & 3) == 2"`
	Kids [2]*Knot `struct-if:"(V & 12) == 12"`
}

// Knot is part of Knit.
type Knot struct {
	Up  *Knit  `struct:"parent"`
	L   []byte `struct-size:"Up.V & 7"`
	Sub *Knit  `struct-if:"Up.V > 240"`
}

// AnonHdr and AnonExt are embedded in Anon, which uses what is in them.
type AnonHdr struct{ Ver, N, K uint8 }

// AnonExt is embedded as a pointer.
type AnonExt struct {
	Lim uint8
	Sub []uint16 `struct-size:"Lim"`
}

// Anon has a K of its own.
type Anon struct {
	AnonHdr
	K   uint16
	Ext uint16     `struct-if:"Ver > 3"`
	L   []AnonPart `struct-size:"N"`
	*AnonExt
	Z uint8 `struct-if:"Lim == 2 || K == 1"`
}

// AnonPart looks at what is embedded in its parent.
type AnonPart struct {
	Up *Anon `struct:"parent"`
	B  uint8 `struct-if:"Up.Ver == 2"`
	C  uint8
}

// Three types of one name.
func localA() interface{} {
	type message struct {
		Kind uint8
		N    uint8 `struct:"sizeof=Body"`
		Body []byte
	}
	return message{}
}

func localB() interface{} {
	type message struct {
		Kind uint16 `struct:"uint16,little"`
		Flag bool   `struct:"uint8:3,invertedbool"`
		Rest uint8  `struct:"uint8:5"`
	}
	return message{}
}

func localC() interface{} {
	type part struct {
		V uint16 `struct:"big"`
	}
	type message struct {
		Kind uint8
		N    int8 `struct:"sizeof=Body"`
		Body []part
		Tail [2]int32
	}
	return message{}
}

func u8() *spec.T  { return &spec.T{K: "uint8"} }
func u16() *spec.T { return &spec.T{K: "uint16"} }
func u32() *spec.T { return &spec.T{K: "uint32"} }
func id(n string) *spec.Ex {
	return &spec.Ex{Op: "id", Name: n}
}
func dot(a *spec.Ex, n string) *spec.Ex { return &spec.Ex{Op: "dot", A: a, Name: n} }
func lit(n int) *spec.Ex                { return &spec.Ex{Op: "int", I: int64(n)} }
func bin(op string, a, b *spec.Ex) *spec.Ex {
	return &spec.Ex{Op: op, A: a, B: b}
}
func static(n string) *spec.T        { return &spec.T{K: "struct", S: n} }
func list(e *spec.T) *spec.T         { return &spec.T{K: "slice", E: e} }
func ptr(e *spec.T) *spec.T          { return &spec.T{K: "ptr", E: e} }
func array(n int, e *spec.T) *spec.T { return &spec.T{K: "array", N: n, E: e} }

func reg(name string, v interface{}, f ...*spec.F) {
	spec.RegisterStatic(name, reflect.TypeOf(v), func() *spec.T { return &spec.T{K: "struct", F: f} })
}

func init() {
	reg("Pkt", Pkt{},
		&spec.F{Name: "Kind", T: u8(), Max: 3},
		&spec.F{Name: "N", T: u8(), Max: 5},
		&spec.F{Name: "Body", T: static("PktBody")},
		&spec.F{Name: "Opts", T: list(static("PktOpt")), Size: id("Kind")},
		&spec.F{Name: "Tail", T: u16()})
	reg("PktBody", PktBody{},
		&spec.F{Name: "Parent", T: ptr(static("Pkt")), Parent: true},
		&spec.F{Name: "Root", T: ptr(static("Pkt")), Root: true},
		&spec.F{Name: "Data", T: list(u8()), Size: dot(id("Parent"), "N")},
		&spec.F{Name: "Opt", T: ptr(static("PktOpt")), If: bin("==", dot(id("Root"), "Kind"), lit(1))})
	reg("PktOpt", PktOpt{},
		&spec.F{Name: "V", T: u16(), Order: "big"},
		&spec.F{Name: "W", T: &spec.T{K: "int8"}})
	reg("Chain", Chain{},
		&spec.F{Name: "V", T: u8()},
		&spec.F{Name: "W", T: u16(), If: bin(">", id("V"), lit(128))},
		&spec.F{Name: "Next", T: ptr(static("Chain")), If: bin("!=", bin("&", id("V"), lit(1)), lit(0))})
	reg("Up1", Up1{},
		&spec.F{Name: "V", T: u8(), Max: 3},
		&spec.F{Name: "Mid", T: static("Up2")},
		&spec.F{Name: "Opt", T: ptr(static("Up2")), If: bin(">", id("V"), lit(1))},
		&spec.F{Name: "Tail", T: static("Up3")})
	reg("Up2", Up2{},
		&spec.F{Name: "W", T: u8(), Max: 3},
		&spec.F{Name: "In", T: static("Up3")},
		&spec.F{Name: "L", T: list(static("Up3")), Size: id("W")})
	reg("Up3", Up3{},
		&spec.F{Name: "Top", T: ptr(static("Up1")), Parent: true},
		&spec.F{Name: "Mid", T: ptr(static("Up2")), Parent: true},
		&spec.F{Name: "A", T: list(u8()), Size: dot(id("Top"), "V")},
		&spec.F{Name: "B", T: u8()})
	reg("Knit", Knit{},
		&spec.F{Name: "Up", T: ptr(static("Knit")), Parent: true},
		&spec.F{Name: "Top", T: ptr(static("Knit")), Root: true},
		&spec.F{Name: "V", T: u8()},
		&spec.F{Name: "Kid", T: ptr(static("Knit")), If: bin("==", bin("&", id("V"), lit(3)), lit(2))},
		&spec.F{Name: "Kids", T: array(2, ptr(static("Knot"))), If: bin("==", bin("&", id("V"), lit(12)), lit(12))})
	reg("Knot", Knot{},
		&spec.F{Name: "Up", T: ptr(static("Knit")), Parent: true},
		&spec.F{Name: "L", T: list(u8()), Size: bin("&", dot(id("Up"), "V"), lit(7))},
		&spec.F{Name: "Sub", T: ptr(static("Knit")), If: bin(">", dot(id("Up"), "V"), lit(240))})
	reg("AnonHdr", AnonHdr{},
		&spec.F{Name: "Ver", T: u8(), Max: 5},
		&spec.F{Name: "N", T: u8(), Max: 4},
		&spec.F{Name: "K", T: u8(), Max: 1})
	reg("AnonExt", AnonExt{},
		&spec.F{Name: "Lim", T: u8(), Max: 3},
		&spec.F{Name: "Sub", T: list(u16()), Size: id("Lim")})
	reg("Anon", Anon{},
		&spec.F{Name: "AnonHdr", T: static("AnonHdr"), Note: "embedded"},
		&spec.F{Name: "K", T: u16(), Max: 2},
		&spec.F{Name: "Ext", T: u16(), If: bin(">", id("Ver"), lit(3))},
		&spec.F{Name: "L", T: list(static("AnonPart")), Size: id("N")},
		&spec.F{Name: "AnonExt", T: ptr(static("AnonExt")), Note: "embedded"},
		&spec.F{Name: "Z", T: u8(), If: bin("||", bin("==", id("Lim"), lit(2)), bin("==", id("K"), lit(1)))})
	reg("AnonPart", AnonPart{},
		&spec.F{Name: "Up", T: ptr(static("Anon")), Parent: true},
		&spec.F{Name: "B", T: u8(), If: bin("==", dot(id("Up"), "Ver"), lit(2))},
		&spec.F{Name: "C", T: u8()})
	reg("Deep1", Deep1{},
		&spec.F{Name: "A", T: u8()},
		&spec.F{Name: "B", T: static("Deep2")},
		&spec.F{Name: "C", T: array(2, static("Deep3"))})
	reg("Deep2", Deep2{},
		&spec.F{Name: "N", T: u8(), SizeOf: "L"},
		&spec.F{Name: "X", T: static("Deep3")},
		&spec.F{Name: "L", T: list(static("Deep4"))})
	reg("Deep3", Deep3{},
		&spec.F{Name: "P", T: u16(), Bits: 12, Order: "big"},
		&spec.F{Name: "Q", T: u8(), Bits: 4},
		&spec.F{Name: "R", T: static("Deep5")})
	reg("Deep4", Deep4{},
		&spec.F{Name: "U", T: static("Deep5")},
		&spec.F{Name: "V", T: ptr(static("Deep3"))})
	reg("Deep5", Deep5{},
		&spec.F{Name: "S", T: &spec.T{K: "string"}, EncLen: 3},
		&spec.F{Name: "T", T: &spec.T{K: "bool"}, IBool: true})
	reg("Sized", Sized{},
		&spec.F{Name: "A", T: u8(), Bits: 4},
		&spec.F{Name: "B", T: u8()},
		&spec.F{Name: "C", T: u8(), Bits: 4})

	reg("LocalA", localA(),
		&spec.F{Name: "Kind", T: u8()},
		&spec.F{Name: "N", T: u8(), SizeOf: "Body"},
		&spec.F{Name: "Body", T: list(u8())})
	reg("LocalB", localB(),
		&spec.F{Name: "Kind", T: u16(), Order: "little"},
		&spec.F{Name: "Flag", T: &spec.T{K: "bool"}, Enc: "uint8", Bits: 3, IBool: true},
		&spec.F{Name: "Rest", T: u8(), Bits: 5})
	lc := reflect.TypeOf(localC())
	bf, _ := lc.FieldByName("Body")
	spec.RegisterStatic("LocalCPart", bf.Type.Elem(), func() *spec.T {
		return &spec.T{K: "struct", F: []*spec.F{{Name: "V", T: u16(), Order: "big"}}}
	})
	reg("LocalC", localC(),
		&spec.F{Name: "Kind", T: u8()},
		&spec.F{Name: "N", T: &spec.T{K: "int8"}, SizeOf: "Body"},
		&spec.F{Name: "Body", T: list(static("LocalCPart"))},
		&spec.F{Name: "Tail", T: array(2, &spec.T{K: "int32"})})

	// The layout of PNG files as the format declares it.
	str := func(s string) *spec.Ex { return &spec.Ex{Op: "str", Name: s} }
	reg("png.File", png.File{},
		&spec.F{Name: "Magic", T: array(8, u8())},
		&spec.F{Name: "Header", T: static("png.Chunk")},
		&spec.F{Name: "Chunks", T: list(static("png.Chunk")), While: &spec.Ex{Op: "un", Name: "!", A: &spec.Ex{Op: "eof"}}})
	chunk := reflect.TypeOf(png.Chunk{})
	data, _ := chunk.FieldByName("Data")
	spec.RegisterStatic("png.Data", data.Type, func() *spec.T {
		return &spec.T{K: "struct", F: []*spec.F{
			{Name: "IHDR", T: ptr(static("png.IHDR")), Case: str("IHDR")},
			{Name: "IDAT", T: ptr(static("png.IDAT")), Case: str("IDAT")},
			{Name: "IEND", T: ptr(static("png.IEND")), Case: str("IEND")},
			{Name: "Raw", T: ptr(static("png.Raw")), Default: true},
		}}
	})
	reg("png.Chunk", png.Chunk{},
		&spec.F{Name: "Len", T: u32()},
		&spec.F{Name: "Type", T: &spec.T{K: "string"}, EncLen: 4},
		&spec.F{Name: "Data", T: static("png.Data"), Switch: id("Type")},
		&spec.F{Name: "CRC", T: u32()})
	reg("png.IHDR", png.ChunkIHDR{},
		&spec.F{Name: "Width", T: u32()},
		&spec.F{Name: "Height", T: u32()},
		&spec.F{Name: "BitDepth", T: u8()},
		&spec.F{Name: "ColorType", T: u8()},
		&spec.F{Name: "CompressionMethod", T: u8()},
		&spec.F{Name: "FilterMethod", T: u8()},
		&spec.F{Name: "InterlaceMethod", T: u8()})
	for name, v := range map[string]interface{}{"png.IDAT": png.ChunkIDAT{}, "png.Raw": png.ChunkRaw{}} {
		reg(name, v,
			&spec.F{Name: "Parent", T: ptr(static("png.Chunk")), Parent: true},
			&spec.F{Name: "Data", T: list(u8()), Size: dot(id("Parent"), "Len")})
	}
	reg("png.IEND", png.ChunkIEND{})
}
