package spec

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"sync"
)

// T is a type.
type T struct {
	K string `json:"k"`           // bool, ints, float32.., string, slice, array, ptr, struct, custom, any
	N int    `json:"n,omitempty"` // array: length
	E *T     `json:"e,omitempty"` // slice, array, ptr
	F []*F   `json:"f,omitempty"` // struct
	S string `json:"s,omitempty"` // registered Go type, for custom codecs and static structs

	Nm bool `json:"nm,omitempty"` // basic kind: a named type of that kind
}

// F is a field with its layout.
type F struct {
	Name string `json:"n"`
	T    *T     `json:"t"`

	Enc    string `json:"enc,omitempty"`  // encoded kind of an integer or of the elements of a list
	EncLen int    `json:"encn,omitempty"` // list or string stored in this fixed number of elements
	Bits   int    `json:"bits,omitempty"`
	Skip   int    `json:"skip,omitempty"`
	Order  string `json:"ord,omitempty"` // little, lsb, big, msb, network
	VBool  bool   `json:"vb,omitempty"`
	IBool  bool   `json:"ib,omitempty"`

	SizeOf   string `json:"sizeof,omitempty"`
	SizeFrom string `json:"sizefrom,omitempty"`
	If       *Ex    `json:"if,omitempty"`
	Size     *Ex    `json:"size,omitempty"`
	BitsX    *Ex    `json:"bitsx,omitempty"`
	In       *Ex    `json:"in,omitempty"`
	Out      *Ex    `json:"out,omitempty"`
	While    *Ex    `json:"while,omitempty"`
	Switch   *Ex    `json:"switch,omitempty"`
	Case     *Ex    `json:"case,omitempty"`
	Default  bool   `json:"def,omitempty"`
	Parent   bool   `json:"parent,omitempty"`
	Root     bool   `json:"root,omitempty"`
	Ignore   bool   `json:"ign,omitempty"`

	RawTag string `json:"raw,omitempty"` // use this tag as it is (for broken types)

	Max  int    `json:"max,omitempty"`  // generator: values are 0..Max (control fields)
	Note string `json:"note,omitempty"` // generator's own remark
}

// Custom describes a type with a codec of its own to the reference model.
type Custom struct {
	Name   string
	Type   reflect.Type
	Gen    func(r *Rng, v reflect.Value)
	Encode func(v reflect.Value, little bool) []byte
	// Decode returns how many bytes it takes.
	Decode func(b []byte, little bool, v reflect.Value) (int, error)
	Text   func(v reflect.Value) string
	Bits   func(v reflect.Value) (int, bool) // not encoded by itself; only sized
}

var (
	customs = map[string]*Custom{}
	statics = map[string]struct {
		t reflect.Type
		s func() *T
	}{}
)

// RegisterCustom makes a custom codec known.
func RegisterCustom(c *Custom) { customs[c.Name] = c }

// CustomOf returns what is known of a custom codec.
func CustomOf(name string) *Custom { return customs[name] }

// RegisterStatic makes a static struct type known.
func RegisterStatic(name string, t reflect.Type, s func() *T) {
	statics[name] = struct {
		t reflect.Type
		s func() *T
	}{t, s}
}

// Static returns the description of a static struct.
func Static(name string) *T {
	if _, ok := statics[name]; !ok {
		panic("unknown type " + name)
	}
	return &T{K: "struct", S: name}
}

// Flds returns the fields of a struct.
func (t *T) Flds() []*F {
	if t.S != "" && t.F == nil {
		if s, ok := statics[t.S]; ok {
			return s.s().F
		}
	}
	return t.F
}

var basic = map[string]reflect.Type{
	"bool": reflect.TypeOf(false), "string": reflect.TypeOf(""),
	"int": reflect.TypeOf(int(0)), "int8": reflect.TypeOf(int8(0)), "int16": reflect.TypeOf(int16(0)), "int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(int64(0)),
	"uint": reflect.TypeOf(uint(0)), "uint8": reflect.TypeOf(uint8(0)), "uint16": reflect.TypeOf(uint16(0)), "uint32": reflect.TypeOf(uint32(0)), "uint64": reflect.TypeOf(uint64(0)),
	"float32": reflect.TypeOf(float32(0)), "float64": reflect.TypeOf(float64(0)), "complex64": reflect.TypeOf(complex64(0)), "complex128": reflect.TypeOf(complex128(0)),
	"any": reflect.TypeOf((*interface{})(nil)).Elem(), "chan": reflect.TypeOf((chan int)(nil)), "uintptr": reflect.TypeOf(uintptr(0)),
}

// Named types of the basic kinds.
type (
	NBool    bool
	NString  string
	NInt     int
	NInt8    int8
	NInt16   int16
	NInt32   int32
	NInt64   int64
	NUint    uint
	NUint8   uint8
	NUint16  uint16
	NUint32  uint32
	NUint64  uint64
	NFloat32 float32
	NFloat64 float64
)

var named = map[string]reflect.Type{
	"bool": reflect.TypeOf(NBool(false)), "string": reflect.TypeOf(NString("")),
	"int": reflect.TypeOf(NInt(0)), "int8": reflect.TypeOf(NInt8(0)), "int16": reflect.TypeOf(NInt16(0)), "int32": reflect.TypeOf(NInt32(0)), "int64": reflect.TypeOf(NInt64(0)),
	"uint": reflect.TypeOf(NUint(0)), "uint8": reflect.TypeOf(NUint8(0)), "uint16": reflect.TypeOf(NUint16(0)), "uint32": reflect.TypeOf(NUint32(0)), "uint64": reflect.TypeOf(NUint64(0)),
	"float32": reflect.TypeOf(NFloat32(0)), "float64": reflect.TypeOf(NFloat64(0)),
}

// wire width of the basic kinds
var wire = map[string]int{
	"bool": 8, "int": 32, "int8": 8, "int16": 16, "int32": 32, "int64": 64,
	"uint": 32, "uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64,
	"float32": 32, "float64": 64, "complex64": 64, "complex128": 128,
}

func (f *F) seqKind() bool {
	return f.T.K == "slice" || f.T.K == "array" || f.T.K == "string"
}

// Tag renders the struct tag. Expressions go into the struct key or into a key
// of their own.
func (f *F) Tag() string {
	if f.RawTag != "" {
		return f.RawTag
	}
	var opt []string
	add := func(format string, a ...interface{}) { opt = append(opt, fmt.Sprintf(format, a...)) }
	if f.Ignore {
		return `struct:"-"`
	}
	if f.Parent {
		return `struct:"parent"`
	}
	if f.Root {
		return `struct:"root"`
	}
	switch {
	case f.seqKind() && f.EncLen > 0:
		e := f.Enc
		if e == "" {
			e = "byte"
			if f.T.E != nil {
				e = f.T.E.K
			}
		}
		add("[%d]%s", f.EncLen, e)
	case f.seqKind() && f.Enc != "":
		add("[]%s", f.Enc)
	case f.Bits > 0:
		k := f.Enc
		if k == "" {
			k = f.T.K
		}
		add("%s:%d", k, f.Bits)
	case f.Enc != "":
		add("%s", f.Enc)
	}
	if f.SizeOf != "" {
		add("sizeof=%s", f.SizeOf)
	}
	if f.SizeFrom != "" {
		add("sizefrom=%s", f.SizeFrom)
	}
	if f.Skip > 0 {
		add("skip=%d", f.Skip)
	}
	if f.Order != "" {
		add("%s", f.Order)
	}
	if f.VBool {
		add("variantbool")
	}
	if f.IBool {
		add("invertedbool")
	}
	if f.Default {
		add("default")
	}
	var keys []string
	for _, x := range []struct {
		k string
		e *Ex
	}{{"if", f.If}, {"size", f.Size}, {"bits", f.BitsX}, {"in", f.In}, {"out", f.Out}, {"while", f.While}, {"switch", f.Switch}, {"case", f.Case}} {
		if x.e == nil {
			continue
		}
		s := x.e.String()
		if len(f.Name)%2 == 0 && !strings.ContainsAny(s, "\"\\,") {
			add("%s=%s", x.k, s)
		} else {
			keys = append(keys, fmt.Sprintf("struct-%s:%s", x.k, strconv.Quote(s)))
		}
	}
	out := ""
	if len(opt) > 0 {
		out = "struct:" + strconv.Quote(strings.Join(opt, ","))
	}
	for _, k := range keys {
		if out != "" {
			out += " "
		}
		out += k
	}
	return out
}

var (
	goMu    sync.Mutex
	goTypes = map[*T]reflect.Type{}
)

// Go returns the Go type.
func (t *T) Go() reflect.Type {
	if t.S != "" {
		if c, ok := customs[t.S]; ok {
			return c.Type
		}
		if s, ok := statics[t.S]; ok {
			return s.t
		}
		panic("unknown type " + t.S)
	}
	if b, ok := named[t.K]; ok && t.Nm {
		return b
	}
	if b, ok := basic[t.K]; ok {
		return b
	}
	goMu.Lock()
	gt, ok := goTypes[t]
	goMu.Unlock()
	if ok {
		return gt
	}
	switch t.K {
	case "slice":
		gt = reflect.SliceOf(t.E.Go())
	case "array":
		gt = reflect.ArrayOf(t.N, t.E.Go())
	case "ptr":
		gt = reflect.PtrTo(t.E.Go())
	case "struct":
		var sf []reflect.StructField
		for _, f := range t.Flds() {
			s := reflect.StructField{Name: f.Name, Type: f.T.Go(), Tag: reflect.StructTag(f.Tag())}
			if f.Name[0] == '_' || f.Name[0] >= 'a' {
				s.PkgPath = "verif.sim/spec"
			}
			sf = append(sf, s)
		}
		gt = reflect.StructOf(sf)
	default:
		panic("unknown kind " + t.K)
	}
	goMu.Lock()
	goTypes[t] = gt
	goMu.Unlock()
	return gt
}

// Forget drops cached types of descriptions that are gone.
func Forget() {
	goMu.Lock()
	goTypes = map[*T]reflect.Type{}
	goMu.Unlock()
}

// Fields calls fn for the fields of the struct, of its parts too.
func (t *T) Fields(fn func(*F)) { t.fields(fn, map[string]bool{}) }

func (t *T) fields(fn func(*F), seen map[string]bool) {
	if t == nil || t.S != "" && seen[t.S] {
		return
	}
	if t.S != "" {
		seen[t.S] = true
	}
	t.E.fields(fn, seen)
	for _, f := range t.Flds() {
		fn(f)
		f.T.fields(fn, seen)
	}
}

// Custom reports whether a custom codec is part of the type.
func (t *T) Custom() bool {
	found := t.K == "custom"
	t.Fields(func(f *F) {
		for e := f.T; e != nil; e = e.E {
			if e.K == "custom" {
				found = true
			}
		}
	})
	return found
}

// UsesExpr reports whether an expression is part of the layout.
func (t *T) UsesExpr() bool {
	uses := false
	t.Fields(func(f *F) {
		if f.If != nil || f.Size != nil || f.BitsX != nil || f.In != nil || f.Out != nil || f.While != nil || f.Switch != nil {
			uses = true
		}
	})
	return uses
}

// Nodes is a measure of the fixed part of the layout: what one element of it
// costs at least, in fields.
func (t *T) Nodes() int {
	switch t.K {
	case "array":
		return 1 + t.N*t.E.Nodes()
	case "slice", "ptr":
		return 1 + t.E.Nodes()
	case "struct":
		if t.S != "" && t.F == nil {
			n := 1
			t.Fields(func(f *F) { n += 1 + f.EncLen + f.T.N })
			return n
		}
		n := 1
		for _, f := range t.Flds() {
			if f.EncLen > 0 {
				n += f.EncLen
			}
			n += f.T.Nodes()
		}
		return n
	}
	return 1
}

// promoted looks for a field of an embedded struct. It returns the embedded
// struct, and the field unless it is behind a nil pointer.
func (t *T) promoted(name string, v reflect.Value) (*F, reflect.Value) {
	for i, f := range t.Flds() {
		if f.Note != "embedded" {
			continue
		}
		ft := f.T
		var fv reflect.Value
		if v.IsValid() {
			fv = v.Field(i)
		}
		if ft.K == "ptr" {
			ft = ft.E
			if fv.IsValid() {
				fv = fv.Elem()
			}
		}
		for j, sf := range ft.Flds() {
			if sf.Name != name {
				continue
			}
			if !fv.IsValid() {
				return f, reflect.Value{}
			}
			return f, fv.Field(j)
		}
	}
	return nil, reflect.Value{}
}

// control returns the names of the fields that steer others.
func (t *T) control() map[string]bool {
	m := map[string]bool{}
	mark := func(e *Ex) {
		e.Idents(func(s string) {
			m[s] = true
			if f, _ := t.promoted(s, reflect.Value{}); f != nil {
				m[f.Name] = true
			}
		})
	}
	for _, f := range t.Flds() {
		mark(f.If)
		mark(f.Size)
		mark(f.BitsX)
		mark(f.In)
		mark(f.Out)
		mark(f.While)
		mark(f.Switch)
		if f.Switch != nil {
			for _, c := range f.T.Flds() {
				mark(c.Case)
				mark(c.If)
				mark(c.Size)
				mark(c.BitsX)
			}
		}
		if f.SizeOf != "" {
			m[f.Name] = true
		}
		if f.SizeFrom != "" {
			m[f.SizeFrom] = true
		}
	}
	return m
}

// counter returns the field that holds the count of f, and its index.
func (t *T) counter(f *F) (*F, int) {
	for i, c := range t.Flds() {
		if c.SizeOf != "" && c.SizeOf == f.Name || f.SizeFrom != "" && f.SizeFrom == c.Name {
			return c, i
		}
	}
	return nil, -1
}

// target returns the field whose elements f counts, and its index.
func (t *T) target(f *F) (*F, int) {
	for i, c := range t.Flds() {
		if f.SizeOf != "" && f.SizeOf == c.Name || c.SizeFrom != "" && c.SizeFrom == f.Name {
			return c, i
		}
	}
	return nil, -1
}

// IsCount tells whether the field holds the count of another one.
func (t *T) IsCount(f *F) bool { return t.target2(f) }

// Needed tells whether other fields depend on the field.
func (t *T) Needed(f *F) bool {
	if t.control()[f.Name] && f.SizeOf == "" {
		return true
	}
	if f.SizeOf != "" {
		for _, o := range t.Flds() {
			if o.Name == f.SizeOf {
				return true
			}
		}
	}
	for _, o := range t.Flds() {
		if o.SizeOf == f.Name {
			return true
		}
	}
	return false
}
