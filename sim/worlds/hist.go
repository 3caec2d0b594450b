package worlds

import (
	"reflect"

	"verif.sim/spec"
	"verif.sim/user"
)

// The hist world: a process makes many calls, some of which fail.

func init() {
	worldOf["C03"] = world{genHist, runHist}
	worldOf["C19"] = world{genHist, runHist}
}

func genHist(r *spec.Rng, prop string, thorough bool) *Plan {
	p := &Plan{World: "hist", MapSeed: r.U64(), Expr: prop == "C03" && r.P(3, 4)}
	o := options(r, p.Expr || prop == "C19", user.All)
	if prop == "C19" {
		o.Expr = r.P(7, 8)
	}
	p.Types = cousins(r, o, 1+r.N(4))
	whole := len(p.Types)
	for i := 0; i < 1+r.N(2); i++ {
		b := p.Types[r.N(whole)]
		if prop == "C03" || r.P(2, 3) {
			p.Types = append(p.Types, broken(r, b))
		}
		if (p.Expr || prop == "C19") && r.P(1, 2) {
			if t := poison(r, b); t != nil {
				p.Types = append(p.Types, t)
			}
		}
	}
	seeds := []uint64{r.U64(), r.U64(), r.U64()}
	envs := []uint64{r.U64() % 1000, r.U64() % 1000}
	n := 4 + r.N(10)
	if thorough {
		n += r.N(20)
	}
	var ops []Op
	for i := 0; i < n; i++ {
		if len(ops) > 0 && r.P(1, 5) {
			// The same again, perhaps without what went wrong.
			op := ops[r.N(len(ops))]
			if r.P(1, 2) {
				op.Faults, op.Cut, op.Edits = nil, 0, nil
			}
			ops = append(ops, op)
			continue
		}
		op := Op{T: r.N(len(p.Types)), V: seeds[r.N(3)], L: 1 + r.N(4), Little: r.P(1, 2)}
		op.K = r.Pick("pack", "pack", "unpack", "unpack", "unpack", "sizeof", "bitsize")
		if prop == "C03" && r.P(1, 4) {
			switch r.N(3) {
			case 0:
				op = Op{K: r.Pick("eval", "evalp", "typeof"), Ex: user.ExprText(r), Env: envs[r.N(2)], Res: r.N(2 * user.ResKinds)}
				if op.K == "typeof" {
					op.Ex = r.Pick("A", "G", "H", "M", "T", "F", "R", "pkg", "Pkg", "Deep", "env", "Nope")
				}
			default:
				op = Op{K: "mixed", Ex: user.MixedTexts[r.N(len(user.MixedTexts))], Env: envs[r.N(2)]}
			}
			if r.P(1, 6) {
				op.Faults = faults(r)
			}
			ops = append(ops, op)
			continue
		}
		op.Hooked = r.P(1, 8)
		op.ByVal = op.K != "unpack" && r.P(1, 8)
		if op.K == "unpack" {
			if r.P(1, 4) {
				op.Cut = 1 + r.N(6)
			}
			if r.P(1, 4) {
				op.Edits = genEdits(r, 30, 2, true)
			}
			if r.P(1, 8) {
				op.Dest = r.Pick("value", "nilptr", "nil", "int", "slice", "iface", "func")
			}
		} else if r.P(1, 6) {
			op.Dirty = true
		}
		if r.P(1, 4) {
			op.Faults = faults(r)
		}
		if r.P(1, 150) {
			op.Rep = reps(r)
		}
		ops = append(ops, op)
		if r.P(1, 250) {
			ops = append(ops, crowdOp(r), op)
		}
		if r.P(1, 25) {
			ops = append(ops, Op{K: "restart"})
		}
		if prop == "C03" && r.P(1, 40) {
			ops = append(ops, Op{K: "enable"})
		}
	}
	if prop == "C19" {
		at := r.N(len(ops) + 1)
		before := append([]Op{}, ops[:at]...)
		after := append([]Op{}, ops[at:]...)
		// Some of what was done before is done again after.
		for i := range before {
			if r.P(1, 2) && before[i].K != "restart" {
				after = append(after, before[i])
			}
		}
		ops = append(append(before, Op{K: "enable"}), after...)
		if r.P(1, 6) {
			ops = append(ops, Op{K: "enable"})
		}
	}
	p.Tasks = [][]Op{ops}
	return p
}

func runHist(p *Plan, rep *Report) {
	if len(p.Tasks) == 0 {
		skip()
	}
	c := newCtx(p)
	// Alone first: restarts and the history do not mix.
	expr := p.Expr
	var want, other []*Out
	for i := range p.Tasks[0] {
		op := &p.Tasks[0][i]
		switch op.K {
		case "restart":
			expr = p.Expr
		case "enable":
			expr = true
		}
		if op.K == "restart" || op.K == "enable" {
			want, other = append(want, nil), append(other, nil)
			continue
		}
		o := c.solo(op, expr, rep)
		want = append(want, o)
		if crowdWrong(op, o, rep) {
			return
		}
		if p.Prop == "C19" {
			other = append(other, c.solo(op, true, rep))
		} else {
			other = append(other, nil)
		}
		if !o.Done {
			rep.fail("incomplete", "a call alone in a fresh process did not complete: %s\n%s", show(op), o.Text)
			return
		}
		rep.mix(o.Text)
	}
	fresh(p.Expr)
	expr = p.Expr
	rc := newCtx(p)
	failed := false
	needed := false
	for i := range p.Tasks[0] {
		op := &p.Tasks[0][i]
		switch op.K {
		case "restart":
			fresh(p.Expr)
			expr = p.Expr
			rep.fault("restart")
			continue
		case "enable":
			rc.one(op, rep)
			expr = true
			continue
		}
		rep.Ops++
		o, ctl := rc.one(op, rep)
		for n := 1; n < op.Rep && o.Done && o.Text == want[i].Text; n++ {
			o, ctl = rc.one(op, rep)
		}
		if crowdWrong(op, o, rep) {
			return
		}
		for range ctl.Fired {
			rep.fault("codec fault")
		}
		if op.Cut > 0 {
			rep.fault("input cut")
		}
		if op.Edits != nil {
			rep.fault("input damaged")
		}
		if !o.Done {
			rep.fail("incomplete", "call %d did not complete: %s\n%s", i, show(op), o.Text)
			return
		}
		if o.Text != want[i].Text {
			rep.fail("outcome", "call %d, after the history before it: %s\n got  %s\n want %s (alone in a fresh process)", i, show(op), o.Text, want[i].Text)
			return
		}
		if failed && o.Err == nil {
			rep.Nontrivial = true
		}
		if o.Err != nil {
			failed = true
			rep.fault("failed call")
		}
		if p.Prop == "C19" && !expr {
			if disabled(p, c, op, o, other[i], rep) {
				needed = true
			}
			if rep.Violation != "" {
				return
			}
		}
	}
	if p.Prop == "C19" {
		rep.Nontrivial = needed
	}
}

// disabled judges a call made while expressions were not enabled, and tells
// whether it needed one.
func disabled(p *Plan, c *ctx, op *Op, o, enabled *Out, rep *Report) bool {
	if o.Text == enabled.Text && o.Err != nil {
		return false // it fails either way
	}
	if o.Err == nil && o.Text != enabled.Text {
		rep.fail("disabled", "without expressions, this gives another result, not an error: %s\n got  %s\n with expressions %s", show(op), o.Text, enabled.Text)
		return false
	}
	if op.K != "pack" && op.K != "unpack" || op.Dest != "" || op.T >= len(p.Types) {
		return o.Err != nil
	}
	if len(op.Faults) > 0 || hasRaw(p.Types[op.T]) {
		return false
	}
	// How many expressions does it need?
	n := spec.Evals
	var err error
	t := p.Types[op.T]
	if op.K == "pack" {
		v := c.value(op)
		n = spec.Evals // nor does making the value
		_, _, err = spec.Encode(t, v.Elem(), op.Little)
	} else {
		in := c.input(op)
		n = spec.Evals // making the input does not count
		_, err = spec.Decode(t, in, op.Little, reflect.New(t.Go()).Elem())
	}
	n = spec.Evals - n
	switch {
	case err == spec.ErrUnaligned:
		return false
	case n > 0 && o.Err == nil:
		rep.fail("unneeded", "this needs %d expressions but succeeds without: %s\n got %s", n, show(op), o.Text)
	case n == 0 && err == nil && o.Text != enabled.Text:
		rep.fail("unaffected", "this needs no expression but differs without: %s\n got  %s\n with expressions %s", show(op), o.Text, enabled.Text)
	}
	return n > 0
}

// hasRaw tells whether the model does not know what the type means.
func hasRaw(t *spec.T) bool {
	found := false
	t.Fields(func(f *spec.F) {
		if f.RawTag != "" {
			found = true
		}
	})
	return found
}

// crowdOp is an operation on many types.
func crowdOp(r *spec.Rng) Op {
	op := Op{K: "crowd", V: r.U64(), L: []int{20, 40, 80, 160, 300, 600, 1100}[r.N(7)]}
	if r.P(1, 3) {
		op.Ex = "x"
	}
	return op
}

// crowdWrong tells whether an operation on many types went wrong.
func crowdWrong(op *Op, o *Out, rep *Report) bool {
	if op.K != "crowd" {
		return false
	}
	rep.fault("many types")
	if o.Done && o.Text != "crowd right" {
		rep.fail("crowd", "%s: %s", show(op), o.Text)
		return true
	}
	return false
}
