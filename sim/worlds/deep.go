package worlds

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"runtime"

	"github.com/go-restruct/restruct"
	"github.com/go-restruct/restruct/expr"
	"verif.sim/simrt"
	"verif.sim/spec"
	"verif.sim/user"
)

// Records and expressions that nest deeply, as damaged or hostile input and
// values that contain themselves make them do.

const shallow = 2000

func genDeep(r *spec.Rng) *Plan {
	p := &Plan{World: "cb", MapSeed: r.U64(), Expr: true, Variant: "deep"}
	var ops []Op
	for i := 1 + r.N(3); i > 0; i-- {
		ops = append(ops, Op{K: r.Pick("unpack", "pack", "sizeof", "bitsize", "eval"), L: 1 + r.N(1+r.N(shallow)), Little: r.P(1, 2)})
	}
	if op := &ops[r.N(len(ops))]; r.P(1, 2) {
		op.L = -1 // contains itself
		if op.K == "unpack" || op.K == "eval" {
			op.L = 1 << 20
		}
	}
	if op := &ops[r.N(len(ops))]; r.P(1, 8) {
		op.L = 1<<20 + r.N(1<<18)
		if op.K == "eval" {
			op.L *= 4
		}
	}
	for i := range ops {
		op := &ops[i]
		if op.K != "eval" && r.P(1, 3) {
			op.Ex, op.V = "wide", r.U64()
			continue
		}
		if op.K == "eval" {
			op.Ex = user.DeepTexts[r.N(len(user.DeepTexts))]
			if op.L < 0 {
				op.L = 5
			}
		} else {
			op.Ex = user.DeepKinds[r.N(len(user.DeepKinds))]
		}
	}
	p.Tasks = [][]Op{ops}
	return p
}

// genRings is about values that contain themselves, and types that do, in
// expressions.
func genRings(r *spec.Rng) *Plan {
	p := &Plan{World: "cb", MapSeed: r.U64(), Expr: true, Variant: "deep"}
	var ops []Op
	for i := 5 + r.N(15); i > 0; i-- {
		ops = append(ops, Op{K: "eval", Ex: "ring", V: r.U64(), L: 1})
	}
	p.Tasks = [][]Op{ops}
	return p
}

func runDeep(p *Plan, rep *Report) {
	if len(p.Tasks) != 1 {
		skip()
	}
	fresh(p.Expr)
	for i := range p.Tasks[0] {
		op := &p.Tasks[0][i]
		what := fmt.Sprintf("operation %d: %s", i, show(op))
		var ord binary.ByteOrder = binary.BigEndian
		if op.Little {
			ord = binary.LittleEndian
		}
		if op.L < 0 {
			rep.fault("value that contains itself")
		}
		if op.L > shallow {
			rep.fault("deeply nested input")
		}
		if op.L < 0 || op.L > shallow {
			rep.Nontrivial = true
		}
		if op.Ex == "wide" {
			rep.fault("impossible widths")
			rep.Nontrivial = true
		}
		o := &Out{}
		var b []byte
		fits := true
		var v, dest interface{}
		var text string
		var want interface{}
		switch {
		case op.Ex == "wide":
			w := &user.Wide{}
			w.N, w.I = user.Widths(op.V)
			b = make([]byte, 64)
			ord.PutUint64(b, w.N)
			ord.PutUint64(b[8:], uint64(w.I))
			fits = w.N <= 32 && w.I >= 0 && w.I <= 64
			if fits {
				w.X = b[:w.N]
				o.Size = 128 + int(w.N) + int(w.I) + 8*int(w.N)
				if w.N == 0 {
					o.Size += 32 // no width is the usual width
				}
				if w.I == 0 {
					o.Size += 64
				}
			}
			v, dest = w, &user.Wide{}
		case op.Ex == "ring":
			text, v = user.RingText(op.V)
			what += " " + text
			rep.fault("type or value that contains itself")
			rep.Nontrivial = true
		case op.K == "eval":
			text, want = user.DeepText(op.Ex, op.L)
		case op.K == "unpack":
			b = user.DeepInput(op.Ex, op.L)
			dest = user.DeepDest(op.Ex)
		default:
			v = user.DeepValue(op.Ex, op.L)
			if op.L > 0 {
				b = user.DeepInput(op.Ex, op.L)
			}
		}
		size := o.Size
		s := singleIn(p.MapSeed, 20*budget, rep, func(t *simrt.Task, ctl *user.Ctl) {
			t.SetLimits(20*budget, 1<<40)
			o.Size = 0
			defer func() {
				if r := recover(); r != nil {
					o.Panic = panicText(r)
					o.Done = true
				}
			}()
			switch op.K {
			case "eval":
				m := map[string]expr.Value{}
				if v != nil {
					m["x"] = expr.ValueOf(v)
				}
				o.Result, o.Err = expr.Eval(expr.NewMapResolver(m), text)
				if o.Err != nil {
					o.Text = o.Err.Error() // which must end
				}
			case "unpack":
				o.Err = restruct.Unpack(b, ord, dest)
			case "pack":
				o.Data, o.Err = restruct.Pack(ord, v)
			case "bitsize":
				o.Size, o.Err = restruct.BitSize(v)
			default:
				o.Size, o.Err = restruct.SizeOf(v)
				o.Size *= 8
			}
			o.Done = true
		})
		rep.Ops++
		if op.Ex == "wide" && o.Done && o.Panic == "" {
			switch {
			case (o.Err == nil) != fits && (o.Err != nil || op.K == "pack" || op.K == "unpack"):
				rep.fail("width", "%s: widths that fit: %v, error: %v", what, fits, o.Err)
				return
			case o.Err != nil && (o.Data != nil || o.Size != 0):
				rep.fail("result", "%s: fails but gives a result", what)
				return
			case fits && op.K == "pack" && len(o.Data) != (size+7)/8, fits && op.K == "bitsize" && o.Size != size, fits && op.K == "sizeof" && o.Size != (size+7)/8*8:
				rep.fail("size", "%s: %d bytes, size %d bits, not %d bits", what, len(o.Data), o.Size, size)
				return
			}
			rep.mix(fmt.Sprint(o.Err != nil, o.Size, len(o.Data)))
			continue
		}
		if s.Overrun && op.K == "eval" && op.L > shallow {
			continue // it may take as long as the text is
		}
		endless := op.L < 0 || op.Ex == "none"
		switch {
		case o.Panic != "":
			rep.fail("escaped panic", "%s: a panic escaped: %s", what, o.Panic)
		case !o.Done:
			rep.fail("incomplete", "%s: did not return (deadlock %v, overrun %v)", what, s.Deadlock, s.Overrun)
		case o.Err == nil && endless:
			rep.fail("endless", "%s: what has no end is no error", what)
		case o.Err != nil && !endless && op.L <= shallow && (op.K != "eval" || want != nil):
			rep.fail("refused", "%s: is an error: %v", what, o.Err)
		case o.Err != nil:
			if o.Data != nil || o.Size != 0 || o.Result != nil {
				rep.fail("result", "%s: fails but gives a result", what)
			}
		case op.K == "pack" && !bytes.Equal(o.Data, b):
			rep.fail("bytes", "%s: %d bytes, not the %d wanted", what, len(o.Data), len(b))
		case (op.K == "sizeof" || op.K == "bitsize") && o.Size != 8*len(b):
			rep.fail("size", "%s: %d bits", what, o.Size)
		case op.K == "eval" && want != nil && fmt.Sprint(o.Result) != fmt.Sprint(want):
			rep.fail("value", "%s: yields %v", what, o.Result)
		case op.K == "unpack":
			if n := depthOf(dest); n != op.L {
				rep.fail("levels", "%s: has %d levels", what, n)
			}
		}
		rep.mix(fmt.Sprint(o.Done, o.Err != nil, o.Size, op.Ex))
		if rep.Violation != "" {
			return
		}
		if op.L > shallow {
			runtime.GC()
		}
	}
}

// depthOf is the number of levels of a record.
func depthOf(v interface{}) int {
	n := 0
	switch v := v.(type) {
	case *user.DeepPtr:
		for ; v != nil; v = v.Next {
			n++
		}
	case *user.DeepList:
		for n = 1; len(v.L) > 0; v = &v.L[0] {
			n++
		}
	case *user.DeepPtrs:
		for n = 1; len(v.L) > 0; v = v.L[0] {
			n++
		}
	case *user.DeepCase:
		for ; v != nil; v = v.S.A {
			n++
		}
	case *user.DeepTwo:
		for n = 1; v.Next != nil; v = &v.Next.A[0] {
			n++
		}
	case *user.DeepWhile:
		for n = 1; len(v.L) > 0; v = &v.L[0] {
			n++
		}
	}
	return n
}
