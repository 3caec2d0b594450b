package spec

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
)

// Opt says what generated layouts may contain.
type Opt struct {
	Expr    bool // expressions
	Custom  []string
	While   bool // a list up to the end of the input, last in the record
	Bits    bool
	Signed  bool // signed bit fields narrower than their type and 64 bits
	Ptr     bool
	Parent  bool
	Static  []string
	Fields  int // at most, per struct
	Depth   int
	MaxLen  int
	NoPads  bool
	NoFloat bool
	NoCount bool // no count fields
	Short   bool // lists shorter than the room they are stored in
	Void    bool // lists of elements that take no room
}

type ctl struct {
	name string
	kind string
	max  int
	dot  string
}

type gen struct {
	r   *Rng
	o   Opt
	nfs int
	// Structs to use again: where they start and how far they move.
	old []oldStruct
}

type oldStruct struct {
	t       *T
	depth   int
	al, out int
	custom  bool
	bits    bool
}

var intKinds = []string{"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"}

// Gen generates a record layout.
func Gen(r *Rng, o Opt) *T {
	g := &gen{r: r, o: o}
	if g.o.Fields == 0 {
		g.o.Fields = 6
	}
	if len(o.Static) > 0 && r.P(1, 6) {
		return Static(o.Static[r.N(len(o.Static))])
	}
	t, _ := g.strct(g.o.Depth, 0, true)
	if r.P(1, 4) {
		nameTypes(r, t)
	}
	if r.P(1, 3) {
		t.Fields(func(f *F) {
			for _, e := range []*Ex{f.If, f.Size, f.BitsX, f.In, f.Out, f.While, f.Switch, f.Case} {
				e.respell(r)
			}
		})
	}
	return t
}

// nameTypes gives some of the fields types of their own.
func nameTypes(r *Rng, t *T) {
	basicOnly := map[string]bool{}
	on := map[string]bool{}
	var args func(e *Ex, in bool)
	args = func(e *Ex, in bool) {
		if e == nil {
			return
		}
		if in && e.Name != "" {
			basicOnly[e.Name] = true // functions take nothing else
		}
		in = in || e.Op == "call"
		args(e.A, in)
		args(e.B, in)
		args(e.C, in)
	}
	t.Fields(func(f *F) {
		for _, e := range []*Ex{f.If, f.Size, f.BitsX, f.In, f.Out, f.While, f.Switch, f.Case} {
			args(e, false)
		}
		f.Switch.Idents(func(n string) { on[n] = true })
		if f.In != nil || f.Out != nil {
			basicOnly[f.Name] = true
		}
	})
	t.Fields(func(f *F) {
		if f.Name == "_" || basicOnly[f.Name] || f.Ignore {
			return
		}
		e := f.T
		for e.E != nil {
			e = e.E
		}
		if named[e.K] != nil && (r.P(1, 3) || on[f.Name] && r.P(1, 2)) {
			e.Nm = true
		}
	})
}

func (g *gen) name() string {
	g.nfs++
	n := fmt.Sprintf("F%d", g.nfs)
	if g.r.P(1, 2) {
		n += "x"
	}
	if g.r.P(1, 8) {
		n = "X" + n
	}
	return n
}

// add moves the position, which is known modulo 8 or unknown (-1).
func add(al, bits int) int {
	if al < 0 || bits < 0 {
		return -1
	}
	return (al + bits) % 8
}

// vary is the position after something that may be there or not.
func vary(al, bits int) int {
	if bits%8 == 0 && bits >= 0 {
		return al
	}
	return -1
}

// strct generates a struct that starts at position al.
func (g *gen) strct(depth, al int, top bool) (*T, int) {
	r := g.r
	t := &T{K: "struct"}
	n := r.Range(1, g.o.Fields)
	if depth < g.o.Depth {
		n = r.Range(1, (g.o.Fields+1)/2+1)
	}
	var ctls []ctl
	push := func(f *F) *F { t.F = append(t.F, f); return f }

	// The first field is always there and takes room.
	first := &F{Name: g.name(), T: &T{K: intKinds[r.N(len(intKinds))]}}
	if g.o.Expr || r.P(1, 2) {
		first.T.K = r.Pick("uint8", "uint8", "uint16", "int16", "uint32", "uint8")
		first.Max = r.Pick3(3, 5, 9)
		ctls = append(ctls, ctl{first.Name, first.T.K, first.Max, ""})
	}
	g.order(first)
	al = add(al, wire[first.T.K])
	push(first)

	if top && r.P(1, 50) {
		// A wide record: more fields than a word has bits.
		for i := r.Range(60, 200); i > 0; i-- {
			f, a := g.scalar(al)
			al = a
			push(f)
		}
	}
	for i := 1; i < n; i++ {
		switch k := r.N(24); {
		case k == 0 && !g.o.NoPads: // padding
			f := &F{Name: "_"}
			switch r.N(5) {
			case 0:
				f.T = &T{K: "array", N: r.Range(1, 4), E: &T{K: r.Pick("uint8", "uint8", "uint16", "float32", "bool", "int64", "int", "complex64")}}
			case 1:
				f.T, f.Skip = &T{K: "struct"}, r.Range(1, 3)
			case 2:
				f.T = &T{K: r.Pick("uint8", "uint16", "uint32", "int8", "int16", "int32", "int64", "uint64", "int", "uint", "bool", "float32", "float64", "complex64", "complex128")}
				if r.P(1, 5) {
					f.Skip = r.Range(1, 2)
				}
			default:
				f.T = &T{K: "uint8"}
				if g.o.Bits {
					f.Bits = r.Range(1, 7)
				}
			}
			if n := f.padBits(); g.maybeIf(f, ctls, 1, 5) {
				al = vary(al, n)
				push(f)
				break
			}
			al = add(al, f.padBits())
			push(f)
		case k == 1: // not part of the layout
			f := &F{Name: g.name(), T: &T{K: r.Pick("string", "int", "chan")}, Ignore: true}
			if r.P(1, 3) {
				f.Name, f.Ignore = "u"+f.Name, false
				f.T.K = "int"
			}
			push(f)
		case k == 2 && g.o.Parent && depth < g.o.Depth:
			push(&F{Name: g.name(), T: &T{K: "any"}, Parent: true})
		case k == 3 && g.o.Parent:
			push(&F{Name: g.name(), T: &T{K: "any"}, Root: true})
		case k <= 6: // control field
			f := &F{Name: g.name(), T: &T{K: r.Pick("uint8", "uint16", "int8", "uint32", "bool", "int32", "string", "uint8", "uint16", "bool", "string", "uint64", "int64", "int", "uint", "int16")}}
			if !g.o.NoFloat && r.P(1, 12) {
				f.T.K = r.Pick("float32", "float64")
			}
			w := wire[f.T.K]
			switch f.T.K {
			case "float32", "float64":
				f.Max = r.Range(1, 3)
			case "bool":
				f.VBool, f.IBool = r.P(1, 3), r.P(1, 3)
			case "string":
				f.EncLen = r.Range(1, 2)
				f.Max = 2
				w = 8 * f.EncLen
			default:
				f.Max = r.Range(2, 6)
				if g.o.Bits && !signedKind(f.T.K) && r.P(1, 3) {
					f.Bits = r.Range(3, 7)
					w = f.Bits
				}
			}
			g.order(f)
			if g.o.Expr && f.Max > 0 && f.T.K != "string" && f.Bits == 0 && f.T.K[len(f.T.K)-1] != 't' && r.P(1, 5) {
				// Several of them.
				c := ctl{name: f.Name, kind: f.T.K, max: f.Max}
				f.T = &T{K: "array", N: r.Range(1, 3), E: f.T}
				al = add(al, w*f.T.N)
				push(f)
				for i := 0; i < f.T.N; i++ {
					c.dot = "[" + strconv.Itoa(i)
					ctls = append(ctls, c)
				}
				break
			}
			al = add(al, w)
			push(f)
			ctls = append(ctls, ctl{f.Name, f.T.K, f.Max, ""})
		case k > 6 && k <= 9 && !g.o.NoCount: // list or string with its count in a field
			cf, cw := g.count()
			lf := &F{Name: g.name()}
			if r.P(1, 3) {
				lf.SizeFrom = cf.Name
			} else {
				cf.SizeOf = lf.Name
			}
			al = add(al, cw)
			push(cf)
			if r.P(1, 3) {
				f, a := g.scalar(al)
				al = a
				push(f)
			}
			if r.P(1, 6) {
				lf.Skip = r.Range(1, 3)
			}
			var eb int
			if g.o.Void && wire[cf.encKind()] == 8 && r.P(1, 3) {
				lf.T = &T{K: "slice", E: &T{K: "struct"}}
			} else {
				lf.T, eb = g.list(depth, al)
			}
			g.castElems(lf, &eb)
			g.order(lf)
			g.maybeIf(lf, ctls, 1, 6)
			if eb%8 != 0 {
				al = -1
			}
			push(lf)
		case k > 9 && k <= 11 && g.o.Expr && len(ctls) > 0: // list sized by an expression
			lf := &F{Name: g.name()}
			if lf.Size = g.sizeEx(ctls); lf.Size == nil {
				continue
			}
			var eb int
			lf.T, eb = g.list(depth, al)
			g.order(lf)
			g.maybeIf(lf, ctls, 1, 4)
			if eb%8 != 0 {
				al = -1
			}
			push(lf)
		case k == 12 && g.o.Expr && len(ctls) > 0 && depth > 0: // switch
			f := g.swtch(ctls, depth, al)
			al = f.Max
			f.Max = 0
			push(f)
		case k == 13 && g.o.Expr && g.o.Bits && len(ctls) > 0: // dynamic width
			c := g.intCtl(ctls)
			if c == nil {
				continue
			}
			for i := range ctls {
				// The widest can say more than there is room for.
				if w := &ctls[i]; (w.kind == "uint64" || w.kind == "int64") && r.P(1, 2) {
					c = w
				}
			}
			f := &F{Name: g.name(), T: &T{K: r.Pick("uint8", "uint16", "uint32", "uint64")}}
			x := &Ex{Op: "+", A: &Ex{Op: "&", A: g.ref(c), B: &Ex{Op: "int", I: 3}}, B: &Ex{Op: "int", I: int64(r.Range(1, 5))}}
			if k := c.kind; r.P(1, 4) && c.max > 0 {
				// Fits for what it is made for, not for everything.
				f.T.K = r.Pick("uint16", "uint32", "uint64")
				switch r.N(3) {
				case 0:
					x = g.ref(c)
				case 1:
					x = &Ex{Op: "+", A: g.ref(c), B: &Ex{Op: "int", I: 1}}
				default:
					if c.max <= 7 && (k == "uint8" || k == "int32") {
						f.T.K = "uint64"
						x = &Ex{Op: "*", A: g.ref(c), B: &Ex{Op: "int", I: 9}}
					}
				}
			} else if r.P(1, 4) { // byte multiples
				x = &Ex{Op: "?:", A: &Ex{Op: ">", A: g.ref(c), B: &Ex{Op: "int", I: 2}}, B: &Ex{Op: "int", I: 8}, C: &Ex{Op: "int", I: 3}}
			}
			f.BitsX = x
			f.Max = 1
			al = -1
			push(f)
		case k == 14 && g.o.Expr: // converted on the way
			kind := r.Pick("uint8", "uint16", "int32", "uint64", "int16", "bool")
			f := &F{Name: g.name(), T: &T{K: kind}}
			if kind == "bool" {
				f.In = &Ex{Op: "un", Name: "!", A: &Ex{Op: "id", Name: f.Name}}
				f.Out = f.In
				f.VBool, f.IBool = r.P(1, 3), r.P(1, 3)
				al = add(al, 8)
				push(f)
				break
			}
			c := &Ex{Op: "int", I: int64(r.Range(1, 90))}
			id := &Ex{Op: "id", Name: f.Name}
			switch r.N(2) {
			case 0:
				f.In, f.Out = &Ex{Op: "^", A: id, B: c}, &Ex{Op: "^", A: id, B: c}
			default:
				f.In, f.Out = &Ex{Op: "+", A: id, B: c}, &Ex{Op: "-", A: id, B: c}
			}
			g.order(f)
			al = add(al, wire[kind])
			push(f)
		case k == 15 && g.o.Ptr:
			f := &F{Name: g.name()}
			before := al
			switch {
			case r.P(1, 6):
				f.T = &T{K: "ptr", E: &T{K: "array", N: r.Range(1, 3), E: &T{K: intKinds[r.N(len(intKinds))]}}}
				al = add(al, f.T.E.N*wire[f.T.E.E.K])
			case r.P(1, 2) || depth == 0:
				f.T = &T{K: "ptr", E: &T{K: intKinds[r.N(len(intKinds))]}}
				al = add(al, wire[f.T.E.K])
				if r.P(1, 6) {
					f.T = &T{K: "ptr", E: f.T}
				}
			default:
				st, a := g.nested(depth-1, al)
				f.T = &T{K: "ptr", E: st}
				al = a
			}
			g.order(f)
			if g.maybeIf(f, ctls, 1, 4) && al != before {
				al = -1
			}
			push(f)
			if e := f.T.E; r.P(1, 4) && (al == before || widths[e.K] != 0) {
				// Another one of its kind, maybe to the same thing.
				f := &F{Name: g.name(), T: f.T}
				if g.order(f); al != before {
					al = add(al, wire[e.K])
				}
				push(f)
			}
		case (k == 16 || k == 17) && depth > 0: // nested struct
			f := &F{Name: g.name()}
			if r.P(1, 6) { // several of them, or arrays of arrays
				if r.P(1, 3) {
					e := &T{K: "array", N: r.Range(1, 3), E: &T{K: intKinds[r.N(len(intKinds))]}}
					f.T = &T{K: "array", N: r.Range(1, 3), E: e}
					al = add(al, f.T.N*e.N*wire[e.E.K])
				} else {
					f.T = &T{K: "array", N: r.Range(1, 3)}
					var eb int
					if f.T.E, eb = g.elems(depth, al); eb%8 != 0 {
						al = -1
					}
				}
				g.order(f)
				if before := al; g.maybeIf(f, ctls, 1, 5) && f.T.E.K == "array" && before != 0 {
					al = -1
				}
				push(f)
				continue
			}
			if r.P(1, 6) {
				f.Skip = r.Range(1, 2)
			}
			g.order(f)
			before := al
			f.T, al = g.nested(depth-1, al)
			if g.maybeIf(f, ctls, 1, 4) && al != before {
				al = -1
			}
			if f.If == nil && simple(f.T) && g.o.Expr {
				for _, x := range f.T.Flds() {
					if x.Max > 0 && widths[x.T.K] != 0 && x.SizeOf == "" && x.BitsX == nil && x.If == nil && !f.T.target2(x) {
						ctls = append(ctls, ctl{f.Name, x.T.K, x.Max, x.Name})
					}
				}
			}
			push(f)
		case (k == 18 || k == 19) && len(g.o.Custom) > 0: // codec of its own
			name := g.o.Custom[r.N(len(g.o.Custom))]
			if al != 0 {
				if al < 0 {
					continue
				}
				push(&F{Name: "_", T: &T{K: "uint8"}, Bits: 8 - al})
				al = 0
			}
			f := &F{Name: g.name(), T: &T{K: "custom", S: name}}
			if r.P(1, 5) {
				f.T = &T{K: "ptr", E: f.T}
			} else if r.P(1, 4) {
				f.T = &T{K: "array", N: r.Range(1, 3), E: f.T}
			}
			g.order(f) // of no consequence
			push(f)
		default:
			f, a := g.scalar(al)
			if g.maybeIf(f, ctls, 1, 8) && a != al {
				a = -1
			}
			al = a
			push(f)
		}
	}
	if top && g.o.While && g.r.P(1, 2) && al == 0 {
		f := &F{Name: g.name(), While: &Ex{Op: "un", Name: "!", A: &Ex{Op: "eof"}}}
		f.T = &T{K: "slice", E: &T{K: r.Pick("uint8", "uint16", "int32")}}
		switch k := r.N(6); {
		case k == 0:
			// All of an array, or as much of it as there is.
			f.T.K, f.T.N, f.Enc = "array", r.Range(1, 4), f.T.E.K
		case k == 1 && len(ctls) > 0:
			f.While = &Ex{Op: "&&", A: f.While, B: g.condEx(ctls, 0)}
		}
		if f.T.K == "slice" && r.P(1, 2) {
			save := g.o
			g.o.Bits, g.o.Custom = false, nil
			f.T.E, _ = g.strct(0, 0, false)
			g.o = save
		}
		push(f)
	}
	return t, al
}

// nested generates a struct, or takes one that is there already.
func (g *gen) nested(depth, al int) (*T, int) {
	if g.r.P(1, 3) {
		for _, o := range g.old {
			if o.depth > depth || o.custom && g.o.Custom == nil || o.bits && !g.o.Bits {
				continue
			}
			if o.al == al {
				return o.t, o.out
			}
		}
	}
	t, out := g.strct(depth, al, false)
	o := oldStruct{t: t, depth: depth, al: al, out: out, custom: t.Custom()}
	t.Fields(func(f *F) {
		if f.Bits > 0 || f.BitsX != nil {
			o.bits = true
		}
	})
	g.old = append(g.old, o)
	return t, out
}

// target2 tells whether a field holds the count of another one.
func (t *T) target2(f *F) bool {
	_, i := t.target(f)
	return i >= 0
}

// simple tells whether the expression language can represent the type.
func simple(t *T) bool {
	switch t.K {
	case "any", "chan", "complex64", "complex128", "custom":
		return false
	}
	if t.S != "" {
		return false
	}
	if t.E != nil && !simple(t.E) {
		return false
	}
	for _, f := range t.Flds() {
		if !simple(f.T) {
			return false
		}
	}
	return true
}

// Pick3 returns one of three numbers.
func (r *Rng) Pick3(a, b, c int) int {
	switch r.N(3) {
	case 0:
		return a
	case 1:
		return b
	}
	return c
}

func (g *gen) order(f *F) {
	if g.r.P(1, 5) {
		f.Order = g.r.Pick("little", "big", "lsb", "msb", "network")
	}
}

func (g *gen) count() (*F, int) {
	r := g.r
	f := &F{Name: g.name()}
	switch r.N(5) {
	case 0:
		f.T = &T{K: "int"}
		f.Enc = r.Pick("int8", "int16", "int32", "int64")
	case 1:
		f.T = &T{K: "uint"}
		f.Enc = r.Pick("uint8", "uint16", "uint32")
	case 2:
		if g.o.Bits && r.P(1, 3) {
			f.T = &T{K: r.Pick("uint16", "uint32", "uint64")}
			f.Bits = r.Range(9, 15)
			g.order(f)
			return f, f.Bits
		}
		if g.o.Bits {
			f.T = &T{K: "uint16"}
			f.Enc, f.Bits = "uint8", r.Range(2, 7)
			g.order(f)
			return f, f.Bits
		}
		fallthrough
	default:
		f.T = &T{K: intKinds[r.N(len(intKinds))]}
	}
	g.order(f)
	return f, wire[f.encKind()]
}

// list generates the type of a list that may start at position al, and how
// many bits an element takes (-1 if they vary).
func (g *gen) list(depth, al int) (*T, int) {
	r := g.r
	switch k := r.N(10); {
	case k <= 1:
		return &T{K: "string"}, 8
	case k <= 3:
		return &T{K: "slice", E: &T{K: "uint8"}}, 8
	case k <= 6 || depth == 0:
		if len(g.o.Custom) > 0 && al == 0 && r.P(1, 4) {
			name := g.o.Custom[r.N(len(g.o.Custom))]
			if name == "Zero" {
				name = "CStr" // a count could be followed by any number of them
			}
			return &T{K: "slice", E: &T{K: "custom", S: name}}, 8
		}
		e := r.Pick("uint16", "int32", "uint64", "int8", "float32", "bool", "int16")
		if g.o.NoFloat && e == "float32" {
			e = "uint32"
		}
		return &T{K: "slice", E: &T{K: e}}, wire[e]
	default:
		t, eb := g.elems(depth, al)
		return &T{K: "slice", E: t}, eb
	}
}

// elems generates structs that follow each other.
func (g *gen) elems(depth, al int) (*T, int) {
	r := g.r
	// Elements may start anywhere if they take no whole bytes: find out by
	// generating, and only keep codecs out of it if so.
	save := g.o
	if r.P(2, 3) {
		g.o.Bits = false
	} else {
		g.o.Custom = nil
	}
	a0 := al
	if g.o.Custom == nil {
		a0 = -1
	}
	t, a := g.strct(depth-1, a0, false)
	if a != a0 && g.o.Custom != nil {
		// The next element starts elsewhere: no codecs then.
		g.o.Custom = nil
		t, a = g.strct(depth-1, -1, false)
		a = -1
	}
	g.o = save
	if a == a0 && a >= 0 {
		return t, 8
	}
	return t, -1
}

// castElems stores the elements as another type.
func (g *gen) castElems(f *F, eb *int) {
	if f.T.K != "slice" || !g.r.P(1, 5) {
		return
	}
	switch f.T.E.K {
	case "int32":
		f.T.E.K = "int"
		f.Enc = g.r.Pick("int16", "int32", "int8")
		*eb = wire[f.Enc]
	case "uint64":
		f.Enc = g.r.Pick("uint16", "uint32", "uint8")
		*eb = wire[f.Enc]
	case "bool":
		f.Enc = g.r.Pick("uint8", "int16")
		*eb = wire[f.Enc]
	case "uint8":
		f.Enc = g.r.Pick("uint16", "uint32", "uint64", "uint8")
		*eb = wire[f.Enc]
	case "int8", "int16":
		f.Enc = g.r.Pick("int32", "int64", "int16")
		*eb = wire[f.Enc]
	case "float32":
		f.Enc = "float64"
		*eb = wire[f.Enc]
	}
}

func (g *gen) scalar(al int) (*F, int) {
	r := g.r
	f := &F{Name: g.name()}
	w := 0
	if r.P(1, 8) {
		f.Skip = r.Range(1, 3)
	}
	switch k := r.N(16); {
	case k == 0 && !g.o.NoFloat:
		f.T = &T{K: r.Pick("float32", "float64", "complex64", "complex128")}
		if r.P(1, 2) && wire[f.T.K] < 128 {
			f.Enc = map[string]string{"float32": "float64", "float64": "float32", "complex64": "complex128"}[f.T.K]
		}
		w = wire[f.encKind()]
	case k == 1:
		f.T = &T{K: "string"}
		f.EncLen = r.Range(1, 6)
		if r.P(1, 10) {
			f.EncLen = 30 + r.N(50)
		}
		w = 8 * f.EncLen
	case k == 2:
		f.T = &T{K: "array", N: r.Range(1, 4), E: &T{K: intKinds[r.N(len(intKinds))]}}
		w = f.T.N * wire[f.T.E.K]
		if r.P(1, 4) {
			f.EncLen = f.T.N + r.N(3)
			w = f.EncLen * wire[f.T.E.K]
		}
		if k := f.T.E.K; (k == "int32" || k == "uint64") && r.P(1, 3) {
			// Stored as another type.
			f.Enc = r.Pick("int16", "int32", "int8")
			if k == "int32" {
				f.T.E.K = "int"
			} else {
				f.Enc = r.Pick("uint16", "uint32", "uint8")
			}
			if f.EncLen == 0 {
				f.EncLen = f.T.N // otherwise the length would be anybody's guess
			}
			w = f.EncLen * wire[f.Enc]
		}
	case k == 3:
		f.T = &T{K: "slice", E: &T{K: r.Pick("uint16", "int32", "uint32", "uint8", "uint8", "int8")}}
		f.EncLen = r.Range(1, 3)
		if g.o.Short && r.P(1, 2) {
			f.Note = "short"
		}
		w = f.EncLen * wire[f.T.E.K]
	case k <= 5:
		f.T = &T{K: "bool"}
		f.VBool, f.IBool = r.P(1, 2), r.P(1, 2)
		w = 8
		if r.P(1, 2) {
			f.Enc = r.Pick("uint8", "int16", "uint32", "int8")
			w = wire[f.Enc]
		}
		if g.o.Bits && r.P(1, 2) {
			f.Enc = r.Pick("uint8", "uint16")
			f.Bits = r.Range(1, 7)
			w = f.Bits
		}
	case k <= 7:
		f.T = &T{K: r.Pick("int", "uint")}
		w = 32
		if r.P(1, 2) {
			if f.T.K == "int" {
				f.Enc = r.Pick("int8", "int16", "int32", "int64")
			} else {
				f.Enc = r.Pick("uint8", "uint16", "uint32", "uint64")
			}
			w = wire[f.Enc]
		}
	case k <= 11 && g.o.Bits:
		f.T = &T{K: intKinds[4+r.N(4)]}
		if g.o.Signed && r.P(1, 3) {
			f.T = &T{K: intKinds[r.N(4)]}
		} else if r.P(1, 4) {
			f.T = &T{K: "int64"}
		}
		switch r.N(8) {
		case 0, 1, 2, 3:
			f.Bits = r.Range(1, 7)
		case 4:
			f.Bits = wire[f.T.K] - 1
		case 5:
			f.Bits = 1
		default:
			f.Bits = r.Range(1, wire[f.T.K]-1)
		}
		w = f.Bits
	default:
		f.T = &T{K: intKinds[r.N(len(intKinds))]}
		w = wire[f.T.K]
	}
	g.order(f)
	return f, add(al, w)
}

func (g *gen) ref(c *ctl) *Ex {
	id := &Ex{Op: "id", Name: c.name}
	if c.dot != "" && c.dot[0] == '[' {
		i, _ := strconv.Atoi(c.dot[1:])
		return &Ex{Op: "idx", A: id, B: &Ex{Op: "int", I: int64(i)}}
	}
	if c.dot != "" {
		return &Ex{Op: "dot", A: id, Name: c.dot}
	}
	return id
}

func (g *gen) intCtl(ctls []ctl) *ctl {
	for i := 0; i < 6; i++ {
		c := &ctls[g.r.N(len(ctls))]
		if widths[c.kind] != 0 {
			return c
		}
	}
	return nil
}

func (g *gen) maybeIf(f *F, ctls []ctl, num, den int) bool {
	if !g.o.Expr || len(ctls) == 0 || !g.r.P(num, den) {
		return false
	}
	f.If = g.condEx(ctls, 1)
	return true
}

func (g *gen) condEx(ctls []ctl, depth int) *Ex {
	r := g.r
	if depth > 0 && r.P(1, 4) {
		return &Ex{Op: r.Pick("&&", "||"), A: g.condEx(ctls, depth-1), B: g.condEx(ctls, depth-1)}
	}
	c := &ctls[r.N(len(ctls))]
	x := g.ref(c)
	lit := func(n int) *Ex { return &Ex{Op: "int", I: int64(n)} }
	switch c.kind {
	case "bool":
		switch r.N(3) {
		case 0:
			return &Ex{Op: "un", Name: "!", A: x}
		case 1:
			return &Ex{Op: "==", A: x, B: x}
		}
		return x
	case "string":
		switch r.N(6) {
		case 0:
			return &Ex{Op: r.Pick("==", "!="), A: &Ex{Op: "+", A: x, B: &Ex{Op: "str", Name: "b"}}, B: &Ex{Op: "str", Name: r.Pick("bb", "ab", "b")}}
		case 1:
			// Only looked at if it is there.
			first := &Ex{Op: r.Pick("==", ">", "<="), A: &Ex{Op: "idx", A: x, B: lit(0)}, B: lit(97)}
			return &Ex{Op: "?:", A: &Ex{Op: "==", A: x, B: &Ex{Op: "str"}}, B: &Ex{Op: "bool", I: int64(r.N(2))}, C: first}
		}
		return &Ex{Op: r.Pick("==", "!="), A: x, B: &Ex{Op: "str", Name: r.Pick("a", "b", "ab", "")}}
	case "float32", "float64":
		by := &Ex{Op: "flt", I: int64(r.N(4*c.max + 1))}
		if r.P(1, 3) {
			by = lit(r.N(c.max + 1))
		}
		if r.P(1, 5) {
			x, by = by, x
		}
		return &Ex{Op: r.Pick("==", "!=", "<", "<=", ">", ">="), A: x, B: by}
	}
	switch r.N(7) {
	case 0:
		return &Ex{Op: "!=", A: &Ex{Op: "&", A: x, B: lit(1 << uint(r.N(3)))}, B: lit(0)}
	case 1:
		return &Ex{Op: "?:", A: &Ex{Op: ">", A: x, B: lit(1)}, B: &Ex{Op: "<", A: x, B: lit(4)}, C: &Ex{Op: "==", A: x, B: lit(0)}}
	case 2:
		return &Ex{Op: "==", A: &Ex{Op: r.Pick("%", "/"), A: x, B: lit(r.Range(2, 3))}, B: lit(r.N(2))}
	case 3:
		if c.kind == "uint8" || c.kind == "uint16" {
			return &Ex{Op: ">", A: &Ex{Op: "call", Name: r.Pick("Len", "OnesCount") + c.kind[4:], A: x}, B: lit(1)}
		}
	}
	return &Ex{Op: r.Pick("==", "!=", "<", "<=", ">", ">="), A: x, B: lit(r.N(c.max + 1))}
}

func (g *gen) sizeEx(ctls []ctl) *Ex {
	r := g.r
	c := g.intCtl(ctls)
	if c == nil {
		return nil
	}
	x := g.ref(c)
	lit := func(n int) *Ex { return &Ex{Op: "int", I: int64(n)} }
	switch r.N(6) {
	case 0:
		return &Ex{Op: "+", A: x, B: lit(1)}
	case 1:
		return &Ex{Op: "*", A: x, B: lit(2)}
	case 2:
		return &Ex{Op: "&", A: x, B: lit(3)}
	case 3:
		return &Ex{Op: "?:", A: g.condEx(ctls, 0), B: lit(r.Range(1, 3)), C: lit(r.N(2) + 1)}
	case 4:
		if c.kind == "uint8" {
			return &Ex{Op: "call", Name: "Len8", A: x}
		}
	}
	return x
}

func (g *gen) swtch(ctls []ctl, depth, al int) *F {
	r := g.r
	f := &F{Name: g.name(), T: &T{K: "struct"}}
	c := &ctls[r.N(len(ctls))]
	for i := r.N(4); i < 4 && c.kind == "bool"; i++ {
		c = &ctls[r.N(len(ctls))]
	}
	if isFloat(c.kind) {
		c = &ctls[0]
	}
	if r.P(1, 4) {
		for i := range ctls {
			if w := &ctls[i]; w.kind == "uint64" || w.kind == "int64" {
				c = w
			}
		}
	}
	f.Switch = g.ref(c)
	n := r.Range(1, 3)
	def := -1
	if r.P(1, 2) {
		def = r.N(n)
	}
	out := al
	for i := 0; i < n; i++ {
		cf := &F{Name: g.name()}
		switch c.kind {
		case "string":
			cf.Case = &Ex{Op: "str", Name: []string{"a", "b", "ab"}[i%3]}
		case "bool":
			cf.Case = &Ex{Op: "==", A: &Ex{Op: "int", I: 1}, B: &Ex{Op: "int", I: int64(1 - i%2)}}
		default:
			cf.Case = &Ex{Op: "int", I: int64(i)}
			if c.dot == "" && r.P(1, 8) {
				cf.Case = &Ex{Op: "id", Name: c.name} // always matches
			}
		}
		if r.P(1, 8) {
			// Of another kind: never matches.
			switch r.N(3) {
			case 0:
				if c.kind != "string" {
					cf.Case = &Ex{Op: "str", Name: r.Pick("", "a", "0", "1")}
				}
			case 1:
				if c.kind != "bool" {
					cf.Case = &Ex{Op: "==", A: &Ex{Op: "int", I: 1}, B: &Ex{Op: "int", I: int64(r.N(2))}}
				}
			default:
				if c.kind == "bool" || c.kind == "string" {
					cf.Case = &Ex{Op: "int", I: int64(r.N(2))}
				}
			}
		}
		if i == def {
			cf.Case, cf.Default = nil, true
		}
		a := al
		switch k := r.N(4); {
		case k == 0:
			st, b := g.nested(depth-1, al)
			cf.T, a = st, b
		case k == 1 && g.o.Ptr:
			st, b := g.nested(depth-1, al)
			cf.T, a = &T{K: "ptr", E: st}, b
		case k == 2:
			if s := g.sizeEx(ctls); s != nil {
				cf.Size = s
				cf.T = &T{K: r.Pick("string", "slice")}
				if cf.T.K == "slice" {
					cf.T.E = &T{K: r.Pick("uint8", "uint16")}
				}
				break
			}
			fallthrough
		default:
			sf, b := g.scalar(al)
			sf.Name, sf.Case, sf.Default = cf.Name, cf.Case, cf.Default
			cf, a = sf, b
		}
		if a != al {
			out = -1
		}
		f.T.F = append(f.T.F, cf)
	}
	f.Max = out // handed to the caller
	return f
}

// ---- values

// Huge is the length that stands for one list of more elements than 16 bits can
// count, if there is one that can have as many.
const Huge = 1 << 12

// Value generates a value of the type.
func Value(t *T, r *Rng, maxLen int) reflect.Value {
	v := reflect.New(t.Go()).Elem()
	g := &valgen{r: r, maxLen: maxLen}
	g.value(&F{Name: "", T: t}, v, nil)
	return v
}

// ValueOver is Value, but a list may have more elements than its count can
// tell, or another number of them than it should.
func ValueOver(t *T, r *Rng, maxLen int) reflect.Value {
	v := reflect.New(t.Go()).Elem()
	g := &valgen{r: r, maxLen: maxLen, over: true}
	g.value(&F{Name: "", T: t}, v, nil)
	return v
}

type valgen struct {
	codec
	r      *Rng
	maxLen int
	over   bool
	big    int // lists of hundreds of elements so far
	huge   bool
}

func (g *valgen) bits(n int) uint64 {
	u := g.r.U64()
	switch g.r.N(6) {
	case 0:
		u = 0
	case 1:
		u = ^uint64(0)
	case 2:
		u = 1
	case 3:
		u = uint64(1) << uint(n-1)
	}
	if n < 64 {
		u &= 1<<uint(n) - 1
	}
	return u
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (g *valgen) length(f *F, t *T) int {
	l := g.r.N(g.maxLen%Huge + 1)
	if g.r.P(1, 3) {
		l = g.r.N(3)
	}
	if g.maxLen > 0 && (f.T.K == "string" || f.T.E != nil && wire[f.T.E.K] == 8) && g.r.P(1, 10) {
		l = 20 + g.r.N(100) // not a few bytes only
	}
	if f.EncLen > 0 {
		if g.over && g.r.P(1, 4) {
			return f.EncLen + 1 + g.r.N(3)
		}
		if f.T.K == "string" {
			return g.r.N(f.EncLen + 1)
		}
		if f.Note == "short" {
			return g.r.N(f.EncLen + 1)
		}
		return f.EncLen
	}
	if f.Size != nil {
		if x, err := g.eval(f.Size); err == nil {
			if n, err := x.Int(); err == nil && n >= 0 && n < 1<<12 {
				if g.over && g.r.P(1, 4) {
					return n + 1 - 2*g.r.N(2) + b2i(n == 0)
				}
				return n
			}
		}
		return 0
	}
	if t == nil {
		return 0
	}
	if c, _ := t.counter(f); c != nil {
		n := wire[c.encKind()]
		if c.Bits > 0 {
			n = c.Bits
		}
		if signedKind(c.encKind()) {
			n--
		}
		if n > 8 && g.maxLen > 0 && f.T.E != nil && wire[f.T.E.K] > 0 && g.r.P(1, 30) && g.big < 3 {
			l = 250 + g.r.N(20) // more than a byte can count
			g.big++
		}
		if g.maxLen >= Huge && n >= 16 && !g.huge && len(g.stack) < 3 && (f.T.K == "string" || f.T.E != nil && wire[f.T.E.K] > 0 && wire[f.T.E.K] <= 16) {
			g.huge = true
			switch l = 1<<16 - 2 + g.r.N(5); {
			case n == 16:
				l = 1<<16 - 1 - g.r.N(2)
			case g.r.P(1, 2):
				l = 1<<16 + g.r.N(1<<16)
			}
		}
		if n < 16 && l >= 1<<uint(n) {
			l = 1<<uint(n) - 1
		}
		if g.over && n < 10 && g.r.P(1, 2) && (n < 4 || g.big == 0) {
			l = 1<<uint(n) + g.r.N(3)
			if n >= 4 {
				g.big++
			}
		}
		return l
	}
	if f.While != nil {
		if ok, err := g.cond(f.While); err != nil || !ok {
			return 0
		}
		return l
	}
	return 0
}

func (g *valgen) field(f *F, v reflect.Value, t *T) {
	if g.ancestor(f, v) || f.Name == "_" || f.Ignore || f.Name[0] >= 'a' {
		return
	}
	if f.Switch != nil {
		n, err := g.choose(f)
		if err != nil || n < 0 {
			return
		}
		g.field(f.T.Flds()[n], v.Field(n), nil)
		return
	}
	if f.T.K != "custom" {
		if ok, err := g.cond(f.If); err != nil || !ok {
			return
		}
	}
	if t != nil && t.target2(f) {
		return // set once the list is known
	}
	g.value(f, v, t)
	if t != nil && (v.Kind() == reflect.Slice || v.Kind() == reflect.String) {
		if c, i := t.counter(f); c != nil {
			cv := g.stack[len(g.stack)-1].v.Field(i)
			if cv.CanInt() {
				cv.SetInt(int64(v.Len()))
			} else {
				cv.SetUint(uint64(v.Len()))
			}
		}
	}
}

func (g *valgen) value(f *F, v reflect.Value, t *T) {
	switch f.T.K {
	case "custom":
		customs[f.T.S].Gen(g.r, v)
		return
	case "bool":
		v.SetBool(g.r.P(1, 2))
		return
	case "string":
		if f.Max > 0 {
			s := g.r.Pick("a", "b", "ab", "")
			if len(s) > f.EncLen {
				s = s[:f.EncLen]
			}
			v.SetString(s)
			return
		}
		b := make([]byte, g.length(f, t))
		for i := range b {
			b[i] = byte(1 + g.r.N(255))
		}
		v.SetString(string(b))
		return
	case "slice":
		l := g.length(f, t)
		n := l
		switch {
		case l == 0 && g.r.P(1, 2):
			v.Set(reflect.Zero(v.Type()))
			return
		case l < 100 && g.r.P(1, 4):
			// A window of something longer.
			n += 1 + g.r.N(8)
		}
		s := reflect.MakeSlice(v.Type(), n, n)
		ef := f.elem()
		for i := 0; i < n; i++ {
			g.value(ef, s.Index(i), nil)
		}
		if l > 1 && f.T.E.K == "ptr" && g.r.P(1, 3) {
			// The same thing twice.
			s.Index(g.r.N(l)).Set(s.Index(g.r.N(l)))
		}
		v.Set(s.Slice(0, l))
		return
	case "array":
		ef := f.elem()
		ef.Max = f.Max
		for i := 0; i < v.Len(); i++ {
			g.value(ef, v.Index(i), nil)
		}
		return
	case "ptr":
		v.Set(reflect.New(v.Type().Elem()))
		g.value(&F{Name: "*", T: f.T.E}, v.Elem(), nil)
		return
	case "struct":
		g.stack = append(g.stack, frame{f.T, v})
		for i, sf := range f.T.Flds() {
			if fv := v.Field(i); fv.CanSet() {
				g.field(sf, fv, f.T)
			}
		}
		for i, sf := range f.T.Flds() {
			if i == 0 || sf.T.K != "ptr" || v.Field(i-1).Type() != v.Field(i).Type() || sf.T.E.Custom() {
				continue
			}
			if a, b := v.Field(i-1), v.Field(i); b.CanSet() && !a.IsNil() && !b.IsNil() && g.r.P(1, 2) {
				b.Set(a)
			}
		}
		g.stack = g.stack[:len(g.stack)-1]
		return
	case "float32", "float64":
		if f.Max > 0 && !g.r.P(1, 10) {
			v.SetFloat(float64(g.r.N(4*f.Max+1)) / 4)
			return
		}
		if g.r.P(1, 8) {
			v.SetFloat([]float64{0, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN(), math.SmallestNonzeroFloat32, math.MaxFloat32}[g.r.N(7)])
			return
		}
		if f.encKind() == "float32" || f.T.K == "float32" {
			v.SetFloat(float64(float32(int32(g.bits(32))) / 3))
			return
		}
		v.SetFloat(float64(int64(g.bits(64))) / 7)
		return
	case "complex64", "complex128":
		v.SetComplex(complex(float64(g.r.N(1000)), -float64(g.r.N(77))))
		if g.r.P(1, 8) {
			v.SetComplex(complex(math.Copysign(0, -1), math.Inf(1-2*g.r.N(2))))
		}
		return
	case "any", "chan":
		return
	}
	if f.BitsX != nil {
		// The width is known by now.
		n := 1
		if x, err := g.eval(f.BitsX); err == nil {
			if n, err = x.Int(); err != nil || n < 1 || n > wire[f.T.K] {
				n = 1
			}
		}
		v.SetUint(g.bits(n))
		return
	}
	if f.Max > 0 && g.over && g.r.P(1, 8) {
		// More than it is made for, or less.
		if n := int64(g.r.N(300)); v.CanInt() {
			v.SetInt(n * int64(1-2*g.r.N(2)))
		} else {
			v.SetUint(uint64(n))
		}
		return
	}
	if f.Max > 0 {
		if v.CanInt() {
			v.SetInt(int64(g.r.N(f.Max + 1)))
		} else {
			v.SetUint(uint64(g.r.N(f.Max + 1)))
		}
		return
	}
	n := wire[f.encKind()]
	if f.Bits > 0 {
		n = f.Bits
	}
	u := g.bits(n)
	if v.CanInt() {
		if n < 64 && u>>uint(n-1) != 0 {
			u |= ^uint64(0) << uint(n)
		}
		v.SetInt(int64(u))
	} else {
		v.SetUint(u)
	}
	if k := f.encKind(); g.over && (k == "int" || k == "uint") && g.r.P(1, 6) {
		// No more than 32 bits are stored.
		u = uint64(1) << uint(31+g.r.N(32))
		switch g.r.N(4) {
		case 0:
			u--
		case 1:
			u = -u
		case 2:
			u = g.r.U64()
		}
		if v.CanInt() {
			v.SetInt(int64(u))
		} else {
			v.SetUint(u)
		}
	}
}
