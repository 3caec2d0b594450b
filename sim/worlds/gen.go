package worlds

import (
	"encoding/json"

	"verif.sim/simrt"
	"verif.sim/spec"
	"verif.sim/user"
)

// options draws what the layouts of a run may contain.
func options(r *spec.Rng, expr bool, codecs []string) spec.Opt {
	o := spec.Opt{Expr: expr && r.P(2, 3), Bits: r.P(1, 2), Signed: r.P(1, 4), Ptr: r.P(2, 3), Parent: r.P(1, 4), Depth: r.N(3), Fields: 3 + r.N(5), MaxLen: 4}
	if r.P(2, 3) {
		for _, c := range codecs {
			if c != "NestX" || expr {
				o.Custom = append(o.Custom, c)
			}
		}
	}
	o.Static = []string{"Deep1", "Inner1", "Inner3"}
	if expr {
		o.Static = append(o.Static, "Pkt", "Chain", "Deep1", "Up1", "Knit", "Anon")
	}
	o.Short = r.P(1, 2)
	o.While = o.Expr && r.P(1, 4)
	return o
}

// cousins are types that have parts in common.
func cousins(r *spec.Rng, o spec.Opt, n int) []*spec.T {
	var out []*spec.T
	if len(o.Static) > 0 && r.P(1, 12) {
		// Types of the same name.
		for _, s := range []string{"LocalA", "LocalB", "LocalC"} {
			if r.P(4, 5) && !(o.NoCount && s != "LocalB") {
				out = append(out, spec.Static(s))
			}
		}
		n += len(out)
	}
	for len(out) < n {
		if len(out) == 0 || r.P(1, 3) {
			out = append(out, spec.Gen(r, o))
			continue
		}
		base := out[r.N(len(out))]
		switch r.N(6) {
		case 0: // around it
			out = append(out, &spec.T{K: "struct", F: []*spec.F{
				{Name: "Hd", T: &spec.T{K: "uint16"}},
				{Name: "Sub", T: base},
				{Name: "Tl", T: &spec.T{K: "uint8"}},
			}})
		case 1: // many of it
			if o.Custom != nil && o.Bits || o.NoCount {
				continue
			}
			out = append(out, &spec.T{K: "struct", F: []*spec.F{
				{Name: "Cn", T: &spec.T{K: "uint8"}, SizeOf: "Ls"},
				{Name: "Ls", T: &spec.T{K: "slice", E: base}},
			}})
		case 2: // a pointer to it
			out = append(out, &spec.T{K: "struct", F: []*spec.F{
				{Name: "Kd", T: &spec.T{K: "uint8"}},
				{Name: "Pt", T: &spec.T{K: "ptr", E: base}},
			}})
		case 3, 4: // the same with something else about a field
			if v := variant(r, base); v != nil {
				out = append(out, v)
			}
		default: // part of it
			var subs []*spec.T
			base.Fields(func(f *spec.F) {
				for t := f.T; t != nil; t = t.E {
					if t.K == "struct" && f.Switch == nil && !ancestors(t) {
						subs = append(subs, t)
					}
				}
			})
			if len(subs) > 0 {
				if t := subs[r.N(len(subs))]; len(t.Flds()) > 0 && !(t.Custom() && hasBits(t)) {
					out = append(out, t)
				}
			} else {
				out = append(out, spec.Gen(r, o))
			}
		}
	}
	return out
}

// variant is the type with another attribute of one field, which leaves the
// Go types as they are as far as possible.
func variant(r *spec.Rng, t *spec.T) *spec.T {
	if t.S != "" {
		return nil
	}
	n := cloneT(t)
	var fs []*spec.F
	var walk func(t *spec.T)
	walk = func(t *spec.T) {
		for ; t != nil; t = t.E {
			if t.S != "" {
				return
			}
			for _, f := range t.F {
				if f.Switch == nil && !f.Parent && !f.Root && !f.Ignore && f.RawTag == "" && !isCustom(f.T) {
					fs = append(fs, f)
				}
				walk(f.T)
			}
		}
	}
	walk(n)
	if len(fs) == 0 {
		return nil
	}
	f := fs[r.N(len(fs))]
	for i := 0; i < 8 && f.Bits > 0; i++ {
		f = fs[r.N(len(fs))]
	}
	e := f.T
	for e.E != nil {
		e = e.E
	}
	switch {
	case e.K == "bool" && r.P(1, 2):
		if f.VBool {
			f.VBool = false
		} else {
			f.IBool = !f.IBool
		}
	case f.If != nil && r.P(1, 4):
		f.If = &spec.Ex{Op: "un", Name: "!", A: f.If}
	case f.Skip > 0 && r.P(1, 3):
		f.Skip = 1 + r.N(4)
	default:
		f.Order = r.Pick("", "little", "lsb", "big", "msb", "network")
	}
	return n
}

// hasBits tells whether fields of the type may end within a byte: a codec in it
// starts on a byte in its place only.
func hasBits(t *spec.T) bool {
	found := false
	t.Fields(func(f *spec.F) {
		if f.Bits > 0 || f.BitsX != nil {
			found = true
		}
	})
	return found
}

func ancestors(t *spec.T) bool {
	found := false
	t.Fields(func(f *spec.F) {
		if f.Parent || f.Root {
			found = true
		}
	})
	return found
}

// inPlace tells whether a copy of a value may change when what it was copied
// from is decoded into again: parents refer to the original, and codecs behind
// a pointer decode into what it points to.
func inPlace(t *spec.T) bool {
	found := ancestors(t) || t.K == "ptr" && isCustom(t.E)
	t.Fields(func(f *spec.F) {
		for e := f.T; e != nil; e = e.E {
			if e.K == "ptr" && isCustom(e.E) {
				found = true
			}
		}
	})
	return found
}

func cloneT(t *spec.T) *spec.T {
	b, _ := json.Marshal(t)
	n := &spec.T{}
	json.Unmarshal(b, n)
	return n
}

var badTags = []string{
	`struct:"sizeof=Missing"`, `struct:"sizefrom=Missing"`, `struct:"uint8:65"`, `struct:"uint99"`, `struct:"[]"`, `struct:"skip=x"`,
	`struct:"default,,x"`, `struct-if:"("`, `struct-size:"1 +"`, `struct-bits:"\"abc"`, `struct-switch:"A ? "`, `struct:"parent"`, `struct:"[3"`,
	`struct:"sizeof=Missing" struct-if:"true"`, `struct-in:"]"`, `struct:"uint8:0x"`, `struct:"nonsense"`, `struct-while:"true"`, `struct:"float64:3"`,
	`struct-size:"3"`, `struct-size:"3"`, `struct-bits:"3"`, `struct-bits:"1 + 2"`, `struct:"size=2"`, `struct:"bits=4"`, `struct-size:"2" struct-if:"false"`,
	`struct-switch:"1"`, `struct-case:"1"`, `struct:"default"`, `struct-if:"1"`, `struct-bits:"\"x\""`, `struct-in:"\"x\""`, `struct-out:"true"`, `struct-size:"true"`,
}

// broken plants a field that cannot be used somewhere in the type. The other
// parts of it stay the same types as before.
func broken(r *spec.Rng, t *spec.T) *spec.T {
	n := &spec.T{K: "struct", F: append([]*spec.F{}, t.Flds()...)}
	at := r.N(len(n.F) + 1)
	// Sometimes deeper.
	for i, f := range n.F {
		if f.T.K == "struct" && f.T.S == "" && f.Switch == nil && f.Name != "_" && !f.Ignore && r.P(1, 2) {
			c := *f
			c.T = broken(r, f.T)
			n.F[i] = &c
			return n
		}
	}
	bad := &spec.F{Name: "Bad", RawTag: badTags[r.N(len(badTags))]}
	switch r.N(5) {
	case 0:
		bad.T = &spec.T{K: "struct", F: []*spec.F{{Name: "In", T: &spec.T{K: "uint8"}}, {Name: "Bd", T: &spec.T{K: "uint8"}, RawTag: bad.RawTag}}}
		bad.RawTag = ""
	case 1:
		bad.T = &spec.T{K: "slice", E: &spec.T{K: "uint8"}}
	case 2:
		bad.T = &spec.T{K: "chan"}
		if r.P(1, 2) {
			bad.RawTag = `struct:""`
		}
	default:
		bad.T = &spec.T{K: r.Pick("uint8", "uint8", "bool", "string", "float32", "int32")}
	}
	n.F = append(n.F[:at:at], append([]*spec.F{bad}, n.F[at:]...)...)
	return n
}

// poison makes some expression of the type fail, for some values at least.
// The other parts of it stay the same types.
func poison(r *spec.Rng, t *spec.T) *spec.T {
	n := &spec.T{K: "struct", F: append([]*spec.F{}, t.Flds()...)}
	var ctl *spec.F
	for i, f := range n.F {
		if f.Max > 0 && ctl == nil && f.T.K != "array" && f.T.K != "string" && f.T.K != "bool" && f.T.K[:2] != "fl" && f.BitsX == nil {
			ctl = f
		}
		if i == 0 || ctl == nil || f.Name == "_" || f.Ignore || f.Parent || f.Root || f.Name[0] >= 'a' || isCustom(f.T) || n.IsCount(f) || f.Max > 0 {
			continue
		}
		if !r.P(1, 2) && i < len(n.F)-1 {
			continue
		}
		c := *f
		bad := &spec.Ex{Op: "raw", Name: spec.RawFailing[r.N(len(spec.RawFailing))]}
		id := &spec.Ex{Op: "id", Name: ctl.Name}
		if r.P(1, 4) {
			// Nothing divided by what is no number is zero.
			zero := &spec.Ex{Op: r.Pick("-", "^"), A: id, B: id}
			by := []*spec.Ex{{Op: "int", I: 6}, id, {Op: "+", A: id, B: &spec.Ex{Op: "int", I: 1}}}[r.N(3)]
			bad = &spec.Ex{Op: r.Pick("/", "%"), A: by, B: zero}
		}
		if w := n.F[len(n.F)-1]; w.While != nil && w != f && r.P(1, 2) {
			i, f = len(n.F)-1, w
			c = *f
		}
		limit := &spec.Ex{Op: ">", A: id, B: &spec.Ex{Op: "int", I: int64(r.N(ctl.Max + 1))}}
		guard := func(ok *spec.Ex) *spec.Ex {
			if ok == nil || r.P(1, 4) {
				return bad
			}
			return &spec.Ex{Op: "?:", A: limit, B: bad, C: ok}
		}
		switch {
		case c.While != nil && r.P(3, 4):
			c.While = guard(c.While)
			if r.P(1, 2) {
				c.While = &spec.Ex{Op: "?:", A: &spec.Ex{Op: "eof"}, B: bad, C: &spec.Ex{Op: "bool", I: 1}}
			}
		case c.Switch != nil:
			if r.P(1, 2) {
				c.Switch = guard(c.Switch)
			} else {
				ct := *c.T
				ct.F = append([]*spec.F{}, ct.F...)
				k := r.N(len(ct.F))
				cf := *ct.F[k]
				if cf.Default {
					return nil
				}
				cf.Case = guard(cf.Case)
				ct.F[k] = &cf
				c.T = &ct
			}
		case c.Size != nil && r.P(1, 2):
			c.Size = guard(c.Size)
		case c.BitsX != nil:
			c.BitsX = guard(c.BitsX)
		case c.In != nil:
			if r.P(1, 2) {
				c.In = guard(c.In)
			} else {
				c.Out = guard(c.Out)
			}
		default:
			ok := c.If
			if ok == nil {
				ok = &spec.Ex{Op: "bool", I: 1}
			}
			c.If = guard(ok)
		}
		n.F[i] = &c
		return n
	}
	return nil
}

// policy draws how the tasks are interleaved.
func policy(r *spec.Rng, tasks int, length int64) simrt.Policy {
	p := simrt.Policy{Seed: r.U64()}
	switch k := r.N(8); {
	case tasks == 1:
		p.Kind = "seq"
	case k < 3:
		p.Kind = "rand"
		p.PHot = []int{2000, 8000, 20000, 40000}[r.N(4)]
		p.PCold = []int{20, 100, 600, 3000}[r.N(4)]
	case k < 6:
		p.Kind = "few"
		p.Depth = 1 + r.N(6)
		p.Length = length
	default:
		p.Kind = "pct"
		p.Depth = 1 + r.N(4)
		p.Length = length
	}
	return p
}

func faults(r *spec.Rng) []user.Fault {
	f := user.Fault{At: 1 + r.N(6)}
	switch r.N(8) {
	case 0, 1, 2:
		f.Mode = user.ErrModes[r.N(len(user.ErrModes))]
	case 3, 4:
		f.Mode = user.PanicModes[r.N(len(user.PanicModes))]
	case 5:
		f.Mode = user.RemModes[r.N(len(user.RemModes))]
	case 6:
		f.Mode = user.SizeModes[r.N(len(user.SizeModes))]
	default:
		f.Mode = "panic-err"
		f.Kind = r.Pick("pack", "unpack", "size", "order")
		f.At = 1 + r.N(3)
	}
	return []user.Fault{f}
}

// isCustom tells whether a field of the type is left to a user codec, which
// goes before everything that tags say.
func isCustom(t *spec.T) bool {
	for t.K == "ptr" {
		t = t.E
	}
	return t.K == "custom"
}
