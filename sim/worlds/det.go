package worlds

import (
	"reflect"
	"runtime"

	"verif.sim/simrt"
	"verif.sim/spec"
	"verif.sim/user"
)

// The det world: the same calls under other circumstances.

func init() {
	worldOf["C13"] = world{genC13, runC13}
}

func genC13(r *spec.Rng, prop string, thorough bool) *Plan {
	p := &Plan{World: "det", MapSeed: r.U64(), Expr: r.P(3, 4)}
	o := options(r, p.Expr, user.All)
	p.Types = cousins(r, o, 1+r.N(3))
	whole := len(p.Types)
	for i := 0; i < 1+r.N(3); i++ {
		// More than one thing is wrong, often: which one is reported?
		b := p.Types[r.N(whole)]
		if p.Expr && r.P(1, 2) {
			if t := poison(r, b); t != nil {
				b = t
			}
		}
		for k := 0; k < r.N(4); k++ {
			b = broken(r, rename(b, k))
		}
		if r.P(1, 5) {
			// Several counts of lists that are not there.
			b = &spec.T{K: "struct", F: append([]*spec.F{}, b.Flds()...)}
			for k := 0; k < 2+r.N(3); k++ {
				f := &spec.F{Name: "Count" + string(rune('A'+k)), T: &spec.T{K: "uint8"}, RawTag: `struct:"sizeof=` + string(rune('Z'-r.N(4)-4*k)) + `"`}
				at := r.N(len(b.F) + 1)
				b.F = append(b.F[:at:at], append([]*spec.F{f}, b.F[at:]...)...)
			}
		}
		p.Types = append(p.Types, b)
	}
	envs := []uint64{r.U64() % 1000, r.U64() % 1000}
	n := 2 + r.N(6)
	if thorough {
		n += r.N(8)
	}
	var ops []Op
	for i := 0; i < n; i++ {
		op := Op{T: r.N(len(p.Types)), V: r.U64(), L: 1 + r.N(4), Little: r.P(1, 2)}
		switch k := r.N(12); {
		case k < 7:
			op.K = r.Pick("pack", "pack", "unpack", "unpack", "sizeof", "bitsize")
			op.Hooked = r.P(1, 8)
			op.ByVal = op.K != "unpack" && r.P(1, 8)
			op.Dirty = op.K != "unpack" && r.P(1, 6)
			op.Odd = op.K != "unpack" && r.P(1, 4)
			if op.K == "unpack" {
				if r.P(1, 4) {
					op.Cut = 1 + r.N(8)
				}
				if r.P(1, 3) {
					op.Edits = genEdits(r, 30, 3, true)
				}
				if r.P(1, 10) {
					op.Dest = r.Pick("value", "nilptr", "nil", "int", "slice", "iface", "func")
				}
			}
		case k < 10:
			op = Op{K: r.Pick("eval", "evalp", "eval", "typeof"), Ex: user.ExprText(r), Env: envs[r.N(2)], Res: r.N(2 * user.ResKinds)}
			if r.P(1, 3) {
				op.Ex = user.BadText(r, r.N(3))
			}
			if op.K == "typeof" {
				op.Ex = r.Pick("A", "G", "H", "M", "T", "F", "R", "pkg", "Pkg", "Deep", "env", "Nope")
			}
		case k < 11:
			op = Op{K: "mixed", Ex: user.MixedTexts[r.N(len(user.MixedTexts))], Env: envs[r.N(2)]}
		default:
			op = Op{K: r.Pick("fnpack", "fnunpack", "fnsize", "fnbitsize"), V: r.U64(), Little: r.P(1, 2), Cut: r.N(3)}
		}
		if r.P(1, 5) {
			op.Faults = faults(r)
		}
		ops = append(ops, op)
	}
	// Now and then the tasks are two, then three.
	p.Tasks = [][]Op{ops}
	p.Policy = policy(r, 2, 300+int64(r.N(5000)))
	return p
}

// rename gives the field that broken adds another name.
func rename(t *spec.T, k int) *spec.T {
	n := &spec.T{K: "struct", F: append([]*spec.F{}, t.Flds()...)}
	for i, f := range n.F {
		if f.Name == "Bad" {
			c := *f
			c.Name = "Bad" + string(rune('A'+k))
			n.F[i] = &c
		} else if f.T.K == "struct" && f.T.S == "" && f.Switch == nil {
			c := *f
			c.T = rename(f.T, k)
			n.F[i] = &c
		}
	}
	return n
}

var litter [][]byte

// churn moves what comes next to other places in memory.
func churn(r *spec.Rng) {
	litter = nil
	for i := 0; i < 50; i++ {
		litter = append(litter, make([]byte, 1+r.N(4000)))
	}
	for i := range litter {
		if r.P(1, 2) {
			litter[i] = nil
		}
	}
	if r.P(1, 4) {
		runtime.GC()
	}
}

func runC13(p *Plan, rep *Report) {
	var ops []Op
	for _, l := range p.Tasks {
		ops = append(ops, l...)
	}
	if len(ops) == 0 {
		skip()
	}
	r := spec.NewRng(p.Seed ^ 0xd13)
	c := newCtx(p)
	want := make([]string, len(ops))
	for i := range ops {
		fresh(p.Expr)
		want[i] = c.soloText(&ops[i], p.Expr, p.MapSeed, rep)
		rep.mix(want[i])
	}
	maps := int64(0)
	judge := func(i int, o *Out, how string) bool {
		rep.Ops++
		if o.Text == want[i] {
			return true
		}
		rep.fail("differs", "%s\n once      %s\n %-9s %s", show(&ops[i]), want[i], how, o.Text)
		return false
	}
	run := func(op *Op, cc *ctx, mapSeed uint64, again bool, i int, how string) bool {
		j := cc.prepare(op)
		if how == "elsewhere" && len(j.in) > 0 {
			// Bytes can begin anywhere.
			b := append(make([]byte, 1+r.N(16)), j.in...)
			at := len(b) - len(j.in)
			j.in = b[at:len(b):len(b)]
		}
		j.bind(p)
		bad := false
		s := single(mapSeed, rep, func(t *simrt.Task, k *user.Ctl) {
			o := j.do(k)
			bad = !judge(i, o, how)
			if again && !bad {
				// The same objects once more. Where a value goes in, it may
				// have been changed by the user's own codecs on the way, and a
				// failed call leaves a destination in any state.
				if op.K == "unpack" && j.destV.IsValid() {
					j.destV = reflect.New(j.destV.Type().Elem())
					j.dest = j.destV.Interface()
				}
				if op.K == "fnunpack" {
					return
				}
				bad = !judge(i, j.do(k), how+", again")
			}
		})
		maps += s.MapIters
		return !bad && rep.Violation == ""
	}
	// Other map orders and other places in memory, in fresh processes.
	for k := 0; k < 3; k++ {
		seed := r.U64()
		for i := range ops {
			fresh(p.Expr)
			churn(r)
			if !run(&ops[i], newCtx(p), seed+uint64(i), true, i, "elsewhere") {
				return
			}
		}
	}
	rep.fault("other map order")
	rep.fault("other pace of the clock")
	rep.fault("other memory")
	// One process, in some order, twice over.
	fresh(p.Expr)
	cc := newCtx(p)
	for k := 0; k < 2*len(ops); k++ {
		i := r.N(len(ops))
		if !run(&ops[i], cc, r.U64(), false, i, "later") {
			return
		}
	}
	rep.fault("other history")
	// Several tasks at once.
	if r.P(1, 2) {
		fresh(p.Expr)
	}
	tc := newCtx(p)
	n := 2 + r.N(2)
	type slot struct {
		j *job
		i int
		o *Out
	}
	slots := make([][]*slot, n)
	for t := range slots {
		for k := 0; k < 1+r.N(3); k++ {
			i := r.N(len(ops))
			j := tc.prepare(&ops[i])
			j.bind(p)
			slots[t] = append(slots[t], &slot{j: j, i: i})
		}
	}
	s := simrt.New(p.Policy, r.U64(), budget)
	for t := range slots {
		l := slots[t]
		ctl := &user.Ctl{}
		s.Add(ctl, func() {
			for _, x := range l {
				x.o = x.j.do(ctl)
			}
		})
	}
	s.Run()
	maps += s.MapIters
	rep.Steps += s.Steps()
	rep.Runs++
	rep.Switches += s.Switches
	rep.Hot += s.HotSwitch
	rep.Hash = spec.Mix(rep.Hash ^ s.Hash())
	rep.Trace = s.Trace()
	rep.max("map iterations", maps)
	rep.Nontrivial = maps > 0 || s.HotSwitch > 0
	if s.Switches > 0 {
		rep.fault("other schedule")
	}
	for _, l := range slots {
		for _, x := range l {
			if x.o == nil {
				rep.fail("incomplete", "a call did not complete while others ran (deadlock %v, overrun %v): %s", s.Deadlock, s.Overrun, show(&ops[x.i]))
				return
			}
			if !judge(x.i, x.o, "among others") {
				return
			}
		}
	}
}

// soloText is the outcome alone, in the process as it is.
func (c *ctx) soloText(op *Op, expr bool, mapSeed uint64, rep *Report) string {
	j := newCtx(c.p).prepare(op)
	j.bind(c.p)
	o := &Out{Text: "DID NOT COMPLETE"}
	single(mapSeed, rep, func(t *simrt.Task, k *user.Ctl) { o = j.do(k) })
	return o.Text
}
