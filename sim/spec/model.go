package spec

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"
)

// Errors of the reference decoder.
var (
	ErrShort = errors.New("model: input ends early")
	ErrValue = errors.New("model: invalid input")
	// ErrUnaligned says that the model does not know.
	ErrUnaligned = errors.New("model: custom codec not byte aligned")
)

// Span is where a leaf of the value is stored, in bits.
type Span struct {
	Path    string
	From    int
	To      int
	Control bool // other fields depend on it
	Pad     bool
}

type frame struct {
	t *T
	v reflect.Value
}

// codec is the common part of the encoder and decoder.
type codec struct {
	little bool
	stack  []frame
	depth  int
	eof    bool
}

func (c *codec) env(name string) (reflect.Value, bool) {
	if len(c.stack) == 0 {
		return reflect.Value{}, false
	}
	top := c.stack[len(c.stack)-1]
	for i, f := range top.t.Flds() {
		if f.Name == name {
			return top.v.Field(i), true
		}
	}
	if f, v := top.t.promoted(name, top.v); f != nil && v.IsValid() {
		return v, true
	}
	return reflect.Value{}, false
}

// Evals counts the expressions that were evaluated.
var Evals int

// The tasks of a simulation share the count, but only one of them runs.
//
//go:norace
func countEval() { Evals++ }

func (c *codec) eval(e *Ex) (Val, error) {
	countEval()
	return e.Eval(c.env, c.eof)
}

func (c *codec) cond(e *Ex) (bool, error) {
	if e == nil {
		return true, nil
	}
	v, err := c.eval(e)
	if err != nil {
		return false, err
	}
	if v.K != "bool" {
		return false, errExpr
	}
	return v.U != 0, nil
}

// choose returns the case of a switch that applies, or -1.
func (c *codec) choose(f *F) (int, error) {
	on, err := c.eval(f.Switch)
	if err != nil {
		return -1, err
	}
	def := -1
	for i, cf := range f.T.Flds() {
		if cf.Default {
			def = i
			continue
		}
		v, err := c.eval(cf.Case)
		if err != nil {
			return -1, err
		}
		if v.K == "string" && on.K == "string" && v.S == on.S {
			return i, nil
		}
		if v.K == "bool" && on.K == "bool" && v.U == on.U {
			return i, nil
		}
		vi, oi := v.K == "untyped" || widths[v.K] != 0, on.K == "untyped" || widths[on.K] != 0
		if vi && oi {
			// By value: a literal is a number, not a number of a type.
			neg := func(x Val) bool {
				return int64(x.U) < 0 && (x.K == "untyped" || signedKind(x.K))
			}
			if v.U == on.U && neg(v) == neg(on) {
				return i, nil
			}
		}
	}
	return def, nil
}

// ancestor fills in a reference to the parent or root.
func (c *codec) ancestor(f *F, v reflect.Value) bool {
	if !f.Parent && !f.Root {
		return false
	}
	if !v.CanSet() {
		return true
	}
	for i := len(c.stack) - 2; i >= -1; i-- {
		j := i
		if f.Root {
			j = 0
		}
		if j < 0 {
			break
		}
		if p := c.stack[j].v.Addr(); p.Type().AssignableTo(v.Type()) {
			v.Set(p)
			break
		} else if f.Root {
			break
		}
	}
	return true
}

func (c *codec) order(f *F) func() {
	old := c.little
	if f.T.K == "ptr" && f.T.E.K == "custom" {
		return func() {} // a codec is told the order of the record
	}
	switch f.Order {
	case "little", "lsb":
		c.little = true
	case "big", "msb", "network":
		c.little = false
	}
	return func() { c.little = old }
}

func (f *F) encKind() string {
	if f.Enc != "" {
		return f.Enc
	}
	return f.T.K
}

// elem describes one element of a list as if it was a field.
func (f *F) elem() *F {
	e := &F{Name: "*", T: f.T.E, Order: f.Order}
	if f.Enc != "" {
		e.Enc = f.Enc
	}
	return e
}

// padBits returns the room a padding field takes.
func (f *F) padBits() int {
	n := f.Skip * 8
	switch {
	case f.Bits > 0:
		return n + f.Bits
	case f.T.K == "array":
		return n + f.T.N*(&F{T: f.T.E}).padBits()
	case f.T.K == "struct":
		for _, sf := range f.T.F {
			n += sf.padBits()
		}
		return n
	}
	return n + wire[f.encKind()]
}

// ---- encoder

type encoder struct {
	codec
	out   []byte
	n     int
	spans []Span
	path  []string
	size  bool // only what the size depends on
}

func (e *encoder) bit(b bool) {
	if e.n%8 == 0 {
		e.out = append(e.out, 0)
	}
	if b {
		e.out[e.n/8] |= 0x80 >> uint(e.n%8)
	}
	e.n++
}

func (e *encoder) zero(n int) {
	for i := 0; i < n; i++ {
		e.bit(false)
	}
}

func (e *encoder) bytes(b []byte) {
	for _, x := range b {
		for i := 7; i >= 0; i-- {
			e.bit(x>>uint(i)&1 != 0)
		}
	}
}

// number writes the low n bits of u. Little endian numbers go byte by byte
// from the lowest; the last byte may have fewer bits.
func (e *encoder) number(u uint64, n int) {
	if !e.little {
		for i := n - 1; i >= 0; i-- {
			e.bit(u>>uint(i)&1 != 0)
		}
		return
	}
	for n > 0 {
		w := n
		if w > 8 {
			w = 8
		}
		for i := w - 1; i >= 0; i-- {
			e.bit(u>>uint(i)&1 != 0)
		}
		u >>= 8
		n -= w
	}
}

// Encode returns the encoding of v and where its parts are. Counts are taken
// from the lists they count.
func Encode(t *T, v reflect.Value, little bool) ([]byte, []Span, error) {
	e := &encoder{codec: codec{little: little}}
	err := e.value(&F{Name: "", T: t}, v, false)
	return e.out, e.spans, err
}

// Sized returns the size of a value in bytes. It depends on the lengths,
// conditions, selectors and widths only.
func Sized(t *T, v reflect.Value) (int, error) {
	e := &encoder{size: true}
	err := e.value(&F{Name: "", T: t}, v, false)
	return len(e.out), err
}

func (e *encoder) mark(from int, control, pad bool) {
	if e.n > from {
		e.spans = append(e.spans, Span{strings.Join(e.path, ""), from, e.n, control, pad})
	}
}

func (e *encoder) field(f *F, v reflect.Value, i int, t *T, control bool) error {
	e.path = append(e.path, "."+f.Name)
	defer func() { e.path = e.path[:len(e.path)-1] }()
	if e.ancestor(f, v) || f.Ignore || f.Name[0] >= 'a' {
		return nil
	}
	from := e.n
	if f.Name == "_" {
		if ok, err := e.cond(f.If); err != nil || !ok {
			return err
		}
		e.zero(f.padBits())
		e.mark(from, false, true)
		return nil
	}
	if f.Switch != nil {
		n, err := e.choose(f)
		if err != nil || n < 0 {
			return err
		}
		return e.field(f.T.Flds()[n], v.Field(n), -1, nil, control)
	}
	if f.T.K != "custom" {
		ok, err := e.cond(f.If)
		if err != nil || !ok {
			return err
		}
		defer e.order(f)()
		e.zero(f.Skip * 8)
		e.mark(from, false, true)
	}
	if t != nil {
		if _, j := t.target(f); j >= 0 {
			c := e.stack[len(e.stack)-1].v.Field(j).Len()
			n := wire[f.encKind()]
			if f.Bits > 0 {
				n = f.Bits
			}
			max := uint(n)
			if signedKind(f.encKind()) {
				max--
			}
			if uint64(c)>>max != 0 && !e.size {
				return ErrValue
			}
			from = e.n
			e.number(uint64(c), n)
			e.mark(from, true, false)
			return nil
		}
	}
	return e.value(f, v, control)
}

func (e *encoder) value(f *F, v reflect.Value, control bool) error {
	from := e.n
	leaf := func() error { e.mark(from, control, false); return nil }
	if f.T.K == "custom" {
		c := customs[f.T.S]
		e.bytes(c.Encode(v, e.little))
		return leaf()
	}
	if f.Out != nil && !e.size {
		x, err := e.eval(f.Out)
		if err != nil {
			return err
		}
		nv := reflect.New(v.Type()).Elem()
		if err := x.set(nv); err != nil {
			return err
		}
		v = nv
	}
	n := wire[f.encKind()]
	if f.Bits > 0 {
		n = f.Bits
	}
	if f.BitsX != nil {
		x, err := e.eval(f.BitsX)
		if err != nil {
			return err
		}
		b, err := x.Int()
		max := wire[f.encKind()]
		if e.size && (f.encKind() == "int" || f.encKind() == "uint") {
			max = 64 // sized as wide as they are in memory, but never packed
		}
		if err != nil || b < 0 || b > max {
			return ErrValue
		}
		if b > 0 {
			n = b
		}
		if e.size {
			e.zero(n)
			return nil
		}
	}
	switch f.T.K {
	case "bool":
		b := v.Bool() != f.IBool
		u := uint64(0)
		if b {
			u = 1
			if f.VBool {
				u = ^uint64(0)
			}
		}
		e.number(u, n)
		return leaf()
	case "int", "int8", "int16", "int32", "int64":
		if i := v.Int(); f.encKind() == "int" && i != int64(int32(i)) && !e.size {
			return ErrValue
		}
		e.number(uint64(v.Int()), n)
		return leaf()
	case "uint", "uint8", "uint16", "uint32", "uint64":
		if u := v.Uint(); f.encKind() == "uint" && u != uint64(uint32(u)) && !e.size {
			return ErrValue
		}
		e.number(v.Uint(), n)
		return leaf()
	case "float32", "float64", "complex64", "complex128":
		var parts []float64
		if f.T.K[0] == 'f' {
			parts = []float64{v.Float()}
		} else {
			parts = []float64{real(v.Complex()), imag(v.Complex())}
		}
		n /= len(parts)
		for _, x := range parts {
			if n == 32 {
				e.number(uint64(math.Float32bits(float32(x))), 32)
			} else {
				e.number(math.Float64bits(x), 64)
			}
		}
		return leaf()
	case "string":
		s := []byte(v.String())
		if err := e.checkSize(f, len(s)); err != nil {
			return err
		}
		if f.EncLen > 0 {
			if len(s) > f.EncLen {
				if !e.size {
					return ErrValue
				}
				s = s[:f.EncLen]
			}
			s = append(s, make([]byte, f.EncLen-len(s))...)
		}
		e.bytes(s)
		return leaf()
	case "slice", "array":
		if err := e.checkSize(f, v.Len()); err != nil {
			return err
		}
		ef := f.elem()
		l := v.Len()
		if f.EncLen > 0 && l > f.EncLen {
			if !e.size {
				return ErrValue
			}
			l = f.EncLen
		}
		for i := 0; i < l; i++ {
			e.path = append(e.path, fmt.Sprintf("[%d]", i))
			err := e.value(ef, v.Index(i), control)
			e.path = e.path[:len(e.path)-1]
			if err != nil {
				return err
			}
		}
		for i := l; i < f.EncLen; i++ {
			from := e.n
			k := ef.Enc
			if k == "" {
				k = ef.T.K
			}
			e.zero(wire[k])
			e.mark(from, control, false)
		}
		return nil
	case "ptr":
		if v.IsNil() {
			return ErrValue
		}
		return e.value(&F{Name: "*", T: f.T.E, Enc: f.Enc}, v.Elem(), control)
	case "struct":
		e.stack = append(e.stack, frame{f.T, v})
		ctl := f.T.control()
		for i, sf := range f.T.Flds() {
			if err := e.field(sf, v.Field(i), i, f.T, control || ctl[sf.Name]); err != nil {
				return err
			}
		}
		e.stack = e.stack[:len(e.stack)-1]
		return nil
	}
	return ErrValue
}

func (e *encoder) checkSize(f *F, l int) error {
	if f.Size == nil || e.size {
		return nil
	}
	x, err := e.eval(f.Size)
	if err != nil {
		return err
	}
	if n, err := x.Int(); err != nil || n != l {
		return ErrValue
	}
	return nil
}

// set stores the value of an expression.
func (x Val) set(v reflect.Value) error {
	switch {
	case v.Kind().String() == x.K && widths[x.K] != 0:
		if signedKind(x.K) {
			v.SetInt(int64(x.U))
		} else {
			v.SetUint(x.U)
		}
		return nil
	case x.K == "bool" && v.Kind() == reflect.Bool:
		v.SetBool(x.U != 0)
		return nil
	case x.K == "string" && v.Kind() == reflect.String:
		v.SetString(x.S)
		return nil
	}
	return errExpr
}

// ---- decoder

// Decoder is the reference decoder.
type Decoder struct {
	codec
	in []byte
	n  int
	// BuggyExtend makes it extend signed bit fields by their lowest bit, which
	// is a known finding.
	BuggyExtend bool
	// Differs is set when that made a difference.
	Differs bool
	Ops     int
	// Late makes it notice only at the end of the input that a list is longer.
	Late bool
}

func (d *Decoder) bit() (bool, error) {
	if d.n >= 8*len(d.in) {
		return false, ErrShort
	}
	b := d.in[d.n/8]>>uint(7-d.n%8)&1 != 0
	d.n++
	return b, nil
}

func (d *Decoder) skip(n int) error {
	if n > 8*len(d.in)-d.n {
		return ErrShort
	}
	d.n += n
	return nil
}

func (d *Decoder) number(n int) (uint64, error) {
	if n > 8*len(d.in)-d.n {
		return 0, ErrShort
	}
	u := uint64(0)
	if !d.little {
		for i := 0; i < n; i++ {
			b, _ := d.bit()
			u <<= 1
			if b {
				u |= 1
			}
		}
		return u, nil
	}
	for at := 0; at < n; at += 8 {
		w := n - at
		if w > 8 {
			w = 8
		}
		x := uint64(0)
		for i := 0; i < w; i++ {
			b, _ := d.bit()
			x <<= 1
			if b {
				x |= 1
			}
		}
		u |= x << uint(at)
	}
	return u, nil
}

func (d *Decoder) bytes(n int) ([]byte, error) {
	if n < 0 {
		return nil, ErrValue
	}
	if n > (8*len(d.in)-d.n)/8 {
		return nil, ErrShort
	}
	out := make([]byte, n)
	for i := range out {
		for j := 0; j < 8; j++ {
			b, _ := d.bit()
			out[i] <<= 1
			if b {
				out[i] |= 1
			}
		}
	}
	return out, nil
}

// Decode reads a value and returns how many bits it takes.
func Decode(t *T, in []byte, little bool, v reflect.Value) (int, error) {
	d := &Decoder{in: in}
	return d.Run(t, in, little, v)
}

// Run decodes.
func (d *Decoder) Run(t *T, in []byte, little bool, v reflect.Value) (int, error) {
	d.in, d.little, d.n, d.stack = in, little, 0, nil
	err := d.value(&F{Name: "", T: t}, v, nil)
	return d.n, err
}

func (d *Decoder) field(f *F, v reflect.Value, t *T) error {
	if d.ancestor(f, v) || f.Ignore || f.Name[0] >= 'a' {
		return nil
	}
	d.eof = (d.n+7)/8 >= len(d.in) && d.n%8 == 0
	if f.Name == "_" {
		if ok, err := d.cond(f.If); err != nil || !ok {
			return err
		}
		return d.skip(f.padBits())
	}
	if f.Switch != nil {
		n, err := d.choose(f)
		if err != nil || n < 0 {
			return err
		}
		return d.field(f.T.Flds()[n], v.Field(n), nil)
	}
	if f.T.K != "custom" {
		ok, err := d.cond(f.If)
		if err != nil || !ok {
			return err
		}
		defer d.order(f)()
		if err := d.skip(f.Skip * 8); err != nil {
			return err
		}
	}
	if err := d.value(f, v, t); err != nil {
		return err
	}
	if f.In != nil {
		x, err := d.eval(f.In)
		if err != nil {
			return err
		}
		return x.set(v)
	}
	return nil
}

// length returns how many elements are stored.
func (d *Decoder) length(f *F, t *T) (int, error) {
	n := 0
	if f.Size != nil {
		x, err := d.eval(f.Size)
		if err != nil {
			return 0, err
		}
		if n, err = x.Int(); err != nil {
			return 0, err
		}
	}
	if t != nil && n == 0 {
		if c, i := t.counter(f); c != nil {
			cv := d.stack[len(d.stack)-1].v.Field(i)
			if cv.CanInt() {
				n = int(cv.Int())
			} else {
				n = int(cv.Uint())
			}
		}
	}
	return n, nil
}

func (d *Decoder) value(f *F, v reflect.Value, t *T) error {
	d.Ops++
	if f.T.K == "custom" {
		if d.n%8 != 0 {
			return ErrUnaligned
		}
		n, err := customs[f.T.S].Decode(d.in[d.n/8:], d.little, v)
		if err != nil {
			return err
		}
		d.n += 8 * n
		return nil
	}
	k := f.encKind()
	n, cut := wire[k], false
	if f.Bits > 0 {
		n, cut = f.Bits, true
	}
	if f.BitsX != nil {
		x, err := d.eval(f.BitsX)
		if err != nil {
			return err
		}
		b, err := x.Int()
		if err != nil || b < 0 || b > wire[k] {
			return ErrValue
		}
		if b > 0 {
			n, cut = b, true
		}
	}
	switch f.T.K {
	case "bool":
		u, err := d.number(n)
		if err != nil {
			return err
		}
		v.SetBool((u != 0) != f.IBool)
		return nil
	case "int", "int8", "int16", "int32", "int64":
		u, err := d.number(n)
		if err != nil {
			return err
		}
		if n < 64 {
			neg := u>>uint(n-1)&1 != 0
			if w := wire[k]; d.BuggyExtend && cut && w < 64 {
				neg2 := u&1 != 0 && uint64(1)<<uint(n-1)&(uint64(1)<<uint(w)-1) != 0
				if n == w {
					neg2 = neg
				}
				if neg2 != neg {
					d.Differs = true
				}
				if neg2 {
					u |= ^uint64(0) << uint(n)
				}
				// Cut to the width of the encoded kind, with its sign.
				u = norm(kindOf(w), u)
				neg = false
			}
			if neg {
				u |= ^uint64(0) << uint(n)
			}
		}
		v.SetInt(int64(u))
		return nil
	case "uint", "uint8", "uint16", "uint32", "uint64":
		u, err := d.number(n)
		if err != nil {
			return err
		}
		v.SetUint(u)
		return nil
	case "float32", "float64", "complex64", "complex128":
		var parts [2]float64
		m := 1
		if f.T.K[0] == 'c' {
			m, n = 2, n/2
		}
		for i := range parts[:m] {
			u, err := d.number(n)
			if err != nil {
				return err
			}
			if n == 32 {
				parts[i] = float64(math.Float32frombits(uint32(u)))
			} else {
				parts[i] = math.Float64frombits(u)
			}
		}
		if m == 1 {
			v.SetFloat(parts[0])
		} else {
			v.SetComplex(complex(parts[0], parts[1]))
		}
		return nil
	case "string":
		l := f.EncLen
		if l == 0 {
			var err error
			if l, err = d.length(f, t); err != nil {
				return err
			}
		}
		b, err := d.bytes(l)
		if err != nil {
			return err
		}
		s := string(b)
		if f.EncLen > 0 {
			if i := strings.IndexByte(s, 0); i >= 0 {
				s = s[:i]
			}
		}
		v.SetString(s)
		return nil
	case "array":
		ef := f.elem()
		if f.While != nil {
			v.Set(reflect.Zero(v.Type()))
		}
		for i := 0; f.While != nil || i < v.Len(); i++ {
			if f.While != nil {
				d.eof = d.n >= 8*len(d.in)
				if ok, err := d.cond(f.While); err != nil {
					return err
				} else if !ok {
					break
				} else if i == v.Len() {
					return ErrValue
				}
			}
			if err := d.value(ef, v.Index(i), nil); err != nil {
				return err
			}
		}
		for i := v.Len(); i < f.EncLen; i++ {
			if err := d.value(ef, reflect.New(v.Type().Elem()).Elem(), nil); err != nil {
				return err
			}
		}
		return nil
	case "slice":
		ef := f.elem()
		v.Set(reflect.MakeSlice(v.Type(), 0, 0))
		l := f.EncLen
		if f.While != nil {
			l = 1 << 30
		} else if l == 0 {
			var err error
			if l, err = d.length(f, t); err != nil {
				return err
			}
			if l < 0 {
				return ErrValue
			}
			if l > 8*len(d.in)-d.n && !d.Late && !f.T.E.void() {
				return ErrShort // every element takes a bit at least
			}
		}
		for i := 0; i < l; i++ {
			if f.While != nil {
				d.eof = d.n >= 8*len(d.in)
				ok, err := d.cond(f.While)
				if err != nil {
					return err
				}
				if !ok {
					break
				}
			}
			nv := reflect.New(v.Type().Elem()).Elem()
			if err := d.value(ef, nv, nil); err != nil {
				return err
			}
			v.Set(reflect.Append(v, nv))
		}
		return nil
	case "ptr":
		v.Set(reflect.New(v.Type().Elem()))
		return d.value(&F{Name: "*", T: f.T.E, Enc: f.Enc}, v.Elem(), nil)
	case "struct":
		d.stack = append(d.stack, frame{f.T, v})
		for i, sf := range f.T.Flds() {
			fv := v.Field(i)
			if sf.Switch != nil {
				fv.Set(reflect.Zero(fv.Type()))
			}
			if err := d.field(sf, fv, f.T); err != nil {
				return err
			}
		}
		d.stack = d.stack[:len(d.stack)-1]
		return nil
	}
	return ErrValue
}

// void tells whether the values of a type take no room at all.
func (t *T) void() bool {
	if t.K != "struct" {
		return false
	}
	for _, f := range t.Flds() {
		if !f.Parent && !f.Root && !f.Ignore && f.Name[0] < 'a' {
			return false
		}
	}
	return true
}

func kindOf(w int) string {
	switch w {
	case 8:
		return "int8"
	case 16:
		return "int16"
	case 32:
		return "int32"
	}
	return "int64"
}

// ---- values as text

// Leaf is one basic part of a value.
type Leaf struct {
	Path, Text string
}

// Odd checks what is not encoded of a value that was decoded into a fresh
// destination, or whose references were filled in: parts that are absent are
// zero, and references point to what they should. It returns what is wrong.
func Odd(t *T, v reflect.Value) string {
	d := &dumper{odd: true}
	d.value(&F{Name: "", T: t}, v)
	return d.wrong
}

// OddRefs is Odd without the parts that are absent.
func OddRefs(t *T, v reflect.Value) string {
	d := &dumper{odd: true, refs: true}
	d.value(&F{Name: "", T: t}, v)
	return d.wrong
}

func (d *dumper) check(f *F, v reflect.Value) {
	if !d.odd || d.wrong != "" {
		return
	}
	at := func() string { return strings.Join(d.path, "") + "." + f.Name }
	if !f.Parent && !f.Root {
		if !d.refs && !v.IsZero() {
			d.wrong = at() + " is absent but not zero"
		}
		return
	}
	if d.moved > 0 {
		return // the elements moved when the list grew
	}
	var want interface{}
	for i := len(d.stack) - 2; i >= -1; i-- {
		j := i
		if f.Root {
			j = 0
		}
		if j < 0 {
			break
		}
		if !d.stack[j].v.CanAddr() {
			return
		}
		if p := d.stack[j].v.Addr(); p.Type().AssignableTo(v.Type()) {
			want = p.Interface()
			break
		} else if f.Root {
			break
		}
	}
	if want == nil {
		if !v.IsNil() {
			d.wrong = at() + " refers to something"
		}
	} else if v.Interface() != want {
		d.wrong = at() + " does not refer to what it should"
	}
}

type dumper struct {
	codec
	odd    bool
	refs   bool
	wrong  string
	moved  int
	out    []Leaf
	path   []string
	counts bool // leave out the counts
}

// DumpCounts is Dump, with the counts of lists or without.
func DumpCounts(t *T, v reflect.Value, counts bool) string {
	d := &dumper{counts: !counts}
	d.value(&F{Name: "", T: t}, v)
	var b strings.Builder
	for _, l := range d.out {
		b.WriteString(l.Path + "=" + l.Text + ";")
	}
	return b.String()
}

// Leaves returns the parts of a value that are encoded, in order.
func Leaves(t *T, v reflect.Value) []Leaf {
	d := &dumper{}
	d.value(&F{Name: "", T: t}, v)
	return d.out
}

// Dump renders the encoded parts of a value.
func Dump(t *T, v reflect.Value) string {
	var b strings.Builder
	for _, l := range Leaves(t, v) {
		b.WriteString(l.Path)
		b.WriteByte('=')
		b.WriteString(l.Text)
		b.WriteByte(';')
	}
	return b.String()
}

func (d *dumper) add(s string) { d.out = append(d.out, Leaf{strings.Join(d.path, ""), s}) }

func (d *dumper) field(f *F, v reflect.Value) {
	if f.Ignore || f.Name == "_" || f.Name[0] >= 'a' {
		return
	}
	if f.Parent || f.Root {
		d.check(f, v)
		return
	}
	d.path = append(d.path, "."+f.Name)
	defer func() { d.path = d.path[:len(d.path)-1] }()
	if f.Switch != nil {
		n, err := d.choose(f)
		if err != nil {
			d.add("?")
			return
		}
		for i, c := range f.T.Flds() {
			if i == n {
				d.field(c, v.Field(i))
			} else if !v.Field(i).IsZero() {
				d.path = append(d.path, "."+c.Name)
				d.add("set")
				d.path = d.path[:len(d.path)-1]
			}
		}
		return
	}
	if f.T.K != "custom" {
		if ok, err := d.cond(f.If); err != nil {
			d.add("?")
			return
		} else if !ok {
			d.check(f, v)
			return
		}
	}
	d.value(f, v)
}

// F64 renders a float by its bits.
func f64(x float64) string {
	if x != x {
		return "NaN"
	}
	return fmt.Sprintf("f%x", math.Float64bits(x))
}

func (d *dumper) value(f *F, v reflect.Value) {
	d.depth++
	defer func() { d.depth-- }()
	switch f.T.K {
	case "custom":
		d.add(customs[f.T.S].Text(v))
	case "float32", "float64":
		d.add(f64(v.Float()))
	case "complex64", "complex128":
		d.add(f64(real(v.Complex())) + "," + f64(imag(v.Complex())))
	case "string":
		d.add(fmt.Sprintf("%q", v.String()))
	case "slice", "array":
		if f.T.K == "slice" {
			d.path = append(d.path, "#")
			d.add(fmt.Sprint(v.Len()))
			d.path = d.path[:len(d.path)-1]
		}
		ef := f.elem()
		if f.While != nil && f.T.K == "slice" {
			d.moved++
			defer func() { d.moved-- }()
		}
		for i := 0; i < v.Len(); i++ {
			d.path = append(d.path, fmt.Sprintf("[%d]", i))
			d.value(ef, v.Index(i))
			d.path = d.path[:len(d.path)-1]
		}
	case "ptr":
		if v.IsNil() {
			d.add("nil")
			return
		}
		d.value(&F{Name: "*", T: f.T.E}, v.Elem())
	case "struct":
		d.stack = append(d.stack, frame{f.T, v})
		for i, sf := range f.T.Flds() {
			if d.counts && f.T.target2(sf) {
				continue
			}
			d.field(sf, v.Field(i))
		}
		d.stack = d.stack[:len(d.stack)-1]
	case "any", "chan":
		d.add("-")
	default:
		if v.CanInt() {
			d.add(fmt.Sprint(v.Int()))
		} else if v.CanUint() {
			d.add(fmt.Sprint(v.Uint()))
		} else {
			d.add(fmt.Sprint(v.Bool()))
		}
	}
}
