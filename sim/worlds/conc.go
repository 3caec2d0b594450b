package worlds

import (
	"fmt"
	"reflect"

	"verif.sim/simrt"
	"verif.sim/spec"
	"verif.sim/user"
)

// The conc world: several tasks call the library at the same time.

func init() {
	for _, p := range []string{"C01", "C02", "C14", "C17", "C18"} {
		worldOf[p] = world{genConc, runConc}
	}
}

func genConc(r *spec.Rng, prop string, thorough bool) *Plan {
	p := &Plan{World: "conc", MapSeed: r.U64(), Expr: r.P(3, 4)}
	if prop == "C02" {
		return genConcExpr(r, p)
	}
	codecs := user.All
	// Many callers at a time, with codecs that call back.
	many := prop == "C17" && r.P(1, 4)
	back := prop == "C14" || many
	if back {
		codecs = user.Deep
	}
	o := options(r, p.Expr, codecs)
	if back {
		o.Custom = nil
		for _, c := range codecs {
			if c != "NestX" || p.Expr {
				o.Custom = append(o.Custom, c)
			}
		}
	}
	if prop == "C18" {
		// Nothing in the value is there for the library to fill in.
		o.Parent = false
		o.NoCount = r.P(4, 5)
		o.Ptr = true
		if o.NoCount {
			o.Static = nil
			if p.Expr {
				o.Static = []string{"Chain"}
			}
			for i, c := range o.Custom {
				if c == "Nest" {
					o.Custom[i] = "Fix3"
				}
			}
		}
	}
	p.Types = cousins(r, o, 1+r.N(3))
	if back {
		// Whatever came out: something that calls back is in it.
		for i, t := range p.Types {
			if !t.Custom() || r.P(1, 3) {
				p.Types[i] = &spec.T{K: "struct", F: []*spec.F{
					{Name: "Hp", T: &spec.T{K: "uint8"}},
					{Name: "Pb", T: &spec.T{K: "custom", S: r.Pick("Probe", "Probe", "Nest", "Tower")}},
					{Name: "Rs", T: t},
				}}
			}
		}
	}
	if prop == "C17" || r.P(1, 6) {
		p.Types = append(p.Types, broken(r, p.Types[r.N(len(p.Types))]))
		if p.Expr && r.P(1, 2) {
			if t := poison(r, p.Types[0]); t != nil {
				p.Types = append(p.Types, t)
			}
		}
	}
	seeds := []uint64{r.U64(), r.U64()}
	n := 2 + r.N(3)
	if many {
		n = 5 + r.N(12)
	}
	counts := hasCounts(p.Types)
	odd := r.P(1, 6) && !counts
	texts := []string{user.ExprText(r), user.ExprText(r), r.Pick("F(N, 1)", "pkg.Add(1, N)", "V(1, F(A, 2))", "H.X + pkg.Ten")}
	env := r.U64() % 1000
	gen := func(depth int) Op {
		if prop == "C14" && r.P(1, 5) {
			// Expressions whose functions and resolvers call back.
			if p.Expr && r.P(1, 2) {
				op := Op{K: r.Pick("fnpack", "fnunpack", "fnunpack", "fnsize", "fnbitsize"), V: seeds[r.N(2)], Little: r.P(1, 2), Hooked: r.P(1, 4)}
				if op.K == "fnunpack" && r.P(1, 5) {
					op.Cut = 1 + r.N(4)
				}
				return op
			}
			return Op{K: r.Pick("eval", "evalp", "evalp"), Ex: texts[r.N(len(texts))], Env: env, Res: user.HookedRes(r)}
		}
		op := Op{T: r.N(len(p.Types)), V: seeds[r.N(2)], L: 1 + r.N(4), Little: r.P(1, 2)}
		op.K = r.Pick("pack", "pack", "unpack", "unpack", "unpack", "sizeof", "bitsize")
		if prop == "C18" {
			op.K = r.Pick("pack", "pack", "pack", "sizeof", "bitsize", "unpack")
			op.Shared = o.NoCount && !counts && op.K != "unpack" && r.P(4, 5)
			op.L = 3
			if !op.Shared && r.P(1, 3) {
				op.Dirty = true
			}
		}
		if r.P(1, 8) {
			op.Hooked = true
		}
		if op.K != "unpack" {
			op.Odd = odd && (op.Shared || r.P(1, 3))
		}
		if op.K == "unpack" && r.P(1, 4) {
			op.Cut = 1 + r.N(4)
		}
		if op.K == "unpack" && r.P(1, 6) {
			op.Edits = genEdits(r, 30, 2, true)
		}
		if op.K == "pack" && !op.Shared && r.P(1, 8) {
			op.ByVal = true
		}
		if prop == "C17" && r.P(1, 2) || r.P(1, 10) {
			op.Faults = faults(r)
		}
		return op
	}
	for i := 0; i < n; i++ {
		var ops []Op
		for k := 0; k < 1+r.N(4); k++ {
			op := gen(0)
			if back {
				if prop == "C14" {
					op.Faults = nil
				}
				for x := 0; x < 1+r.N(3); x++ {
					in := gen(1)
					if r.P(1, 4) {
						in = op // the very same
						in.Inner = nil
					}
					in.Shared, in.ByVal = false, false
					if many {
						in.Faults = nil
					}
					op.Inner = append(op.Inner, in)
				}
			}
			ops = append(ops, op)
		}
		p.Tasks = append(p.Tasks, ops)
	}
	if r.P(1, 4) {
		for k := 0; k < 1+r.N(3); k++ {
			op := gen(0)
			op.Shared = false
			if r.P(1, 8) {
				op.Rep = reps(r)
			}
			p.Warm = append(p.Warm, op)
		}
	}
	crowded(r, p)
	p.Policy = policy(r, n, 300+int64(r.N(6000)))
	return p
}

func genConcExpr(r *spec.Rng, p *Plan) *Plan {
	texts := []string{}
	for i := 0; i < 1+r.N(4); i++ {
		texts = append(texts, user.ExprText(r))
	}
	envs := []uint64{r.U64() % 1000, r.U64() % 1000}
	n := 2 + r.N(3)
	gen := func() Op {
		op := Op{K: r.Pick("evalp", "evalp", "eval", "eval", "typeof"), Ex: texts[r.N(len(texts))], Env: envs[r.N(2)], Res: r.N(2 * user.ResKinds)}
		if op.K == "typeof" {
			op.Ex = r.Pick("A", "G", "H", "M", "T", "F", "pkg", "pkg", "Pkg", "Deep", "R", "env", "one", "list", "Nope")
		}
		return op
	}
	for i := 0; i < n; i++ {
		var ops []Op
		for k := 0; k < 1+r.N(5); k++ {
			ops = append(ops, gen())
		}
		p.Tasks = append(p.Tasks, ops)
	}
	if r.P(1, 4) {
		p.Warm = append(p.Warm, gen())
	}
	crowded(r, p)
	p.Policy = policy(r, n, 200+int64(r.N(4000)))
	return p
}

// Slack is how many more steps than alone a call may take.
const stepFactor, stepSlack = 6, 20000

func runConc(p *Plan, rep *Report) {
	c := newCtx(p)
	want := make([][]*Out, len(p.Tasks))
	for i, ops := range p.Tasks {
		for k := range ops {
			o := c.solo(&ops[k], p.Expr, rep)
			want[i] = append(want[i], o)
			if crowdWrong(&ops[k], o, rep) {
				return
			}
			rep.mix(o.Text)
			if !o.Done {
				rep.fail("incomplete", "a call alone in a fresh process did not complete: %s\n%s", show(&ops[k]), o.Text)
				return
			}
			if o.Panic != "" && p.Prop != "C17" {
				// Judged by C05.
				continue
			}
		}
	}
	// The process under test.
	fresh(p.Expr)
	rc := newCtx(p)
	for i := range p.Warm {
		for n := 0; n < p.Warm[i].Rep || n == 0; n++ {
			o, _ := rc.one(&p.Warm[i], rep)
			if crowdWrong(&p.Warm[i], o, rep) {
				return
			}
			if !o.Done {
				rep.fail("incomplete", "a call alone did not complete: %s\n%s", show(&p.Warm[i]), o.Text)
				return
			}
		}
	}
	jobs := make([][]*job, len(p.Tasks))
	outs := make([][]*Out, len(p.Tasks))
	for i, ops := range p.Tasks {
		for k := range ops {
			j := rc.prepare(&ops[k])
			j.bind(p)
			for x := range ops[k].Inner {
				j.want = append(j.want, c.solo2(&ops[k].Inner[x], p.Expr).Text)
			}
			jobs[i] = append(jobs[i], j)
		}
		outs[i] = make([]*Out, len(ops))
	}
	shared := map[string]string{}
	copies := map[string]reflect.Value{}
	for k, v := range rc.shared {
		shared[k] = spec.Raw(v, true)
		copies[k] = v
	}
	s := simrt.New(p.Policy, p.MapSeed, budget)
	for i := range p.Tasks {
		i := i
		ctl := &user.Ctl{}
		s.Add(ctl, func() {
			t := simrt.Current()
			for k, j := range jobs[i] {
				t.SetLimits(stepFactor*want[i][k].Steps+stepSlack, 1<<40)
				outs[i][k] = j.do(ctl)
			}
		})
	}
	s.Run()
	rep.Steps += s.Steps()
	rep.Runs++
	rep.Switches += s.Switches
	rep.Hot += s.HotSwitch
	rep.Hash = spec.Mix(rep.Hash ^ s.Hash())
	rep.Trace = s.Trace()
	rep.Nontrivial = s.HotSwitch > 0
	for _, tr := range s.Trace() {
		if tr.Forced {
			rep.fault("switch at end or block")
		} else {
			rep.fault("preemption")
		}
	}
	if s.Blocked > 0 {
		rep.fault("blocked on a lock")
	}
	first := func() string {
		for i := range outs {
			for k := range outs[i] {
				if outs[i][k] == nil {
					return fmt.Sprintf("task %d call %d: %s", i, k, show(&p.Tasks[i][k]))
				}
			}
		}
		return "?"
	}
	if s.Deadlock {
		rep.fail("deadlock", "deadlock: no task can go on; first call that did not return: %s", first())
		return
	}
	if s.Overrun {
		rep.fail("overrun", "a call took more than %d times the steps it takes alone: %s", stepFactor, first())
		return
	}
	for i, ops := range p.Tasks {
		for k := range ops {
			rep.Ops++
			o := outs[i][k]
			if o == nil {
				rep.fail("incomplete", "task %d call %d did not complete: %s", i, k, show(&ops[k]))
				return
			}
			for range ops[k].Faults {
				rep.fault("codec fault")
			}
			if ops[k].Cut > 0 || ops[k].Edits != nil {
				rep.fault("damaged input")
			}
			if p.Prop == "C17" {
				continue
			}
			if p.Prop == "C14" && ops[k].K == "unpack" && !ops[k].Hooked && len(ops[k].Faults) == 0 && ops[k].Dest == "" && !hasRaw(p.Types[ops[k].T]) {
				// The callbacks do not change what the bytes mean, either.
				msg, known := spells(p.Types[ops[k].T], jobs[i][k].in, ops[k].Little, jobs[i][k].destV, o, false)
				if known {
					rep.Known++
				}
				if msg != "" {
					rep.fail("meaning", "task %d call %d: %s: %s", i, k, show(&ops[k]), msg)
					return
				}
			}
			if crowdWrong(&ops[k], o, rep) {
				return
			}
			if o.Text != want[i][k].Text {
				rep.fail("outcome", "task %d call %d: %s\n got  %s\n want %s", i, k, show(&ops[k]), o.Text, want[i][k].Text)
				return
			}
			if len(o.Inner) > 0 && len(want[i][k].Inner) == 0 {
				rep.fail("inner outcome", "task %d call %d: %s", i, k, o.Inner[0])
				return
			}
			if p.Prop == "C14" && len(o.Inner) > 0 {
				rep.fail("inner outcome", "task %d call %d: %s", i, k, o.Inner[0])
				return
			}
		}
	}
	if p.Prop == "C18" {
		checkUnaltered(p, c, rc, rep, shared, copies, jobs, outs)
	}
	if p.Prop == "C17" {
		// A failed call leaves nothing behind that blocks a later one.
		for i, ops := range p.Tasks {
			for k := range ops {
				o, _ := newCtx(p).one(&ops[k], rep)
				if !o.Done {
					rep.fail("later", "after all tasks had ended, a call does not complete: %s\n%s", show(&ops[k]), o.Text)
					return
				}
				if o.Steps > stepFactor*want[i][k].Steps+stepSlack {
					rep.fail("overrun", "after all tasks had ended, a call takes %d steps instead of %d: %s", o.Steps, want[i][k].Steps, show(&ops[k]))
					return
				}
			}
		}
	}
}

// reps is how often something is done that adds up in the end.
func reps(r *spec.Rng) int {
	if r.P(1, 8) {
		return 600 + r.N(700)
	}
	return 20 + r.N(60)
}

// solo2 is solo for operations whose outcome is known already.
func (c *ctx) solo2(op *Op, expr bool) *Out { return c.solo(op, expr, &Report{}) }

func checkUnaltered(p *Plan, c, rc *ctx, rep *Report, shared map[string]string, copies map[string]reflect.Value, jobs [][]*job, outs [][]*Out) {
	for k, v := range copies {
		if now := spec.Raw(v, true); now != shared[k] {
			rep.fail("altered", "packing or sizing a shared value altered it:\n now    %s\n before %s", now, shared[k])
			return
		}
	}
	for i, ops := range p.Tasks {
		for k := range ops {
			op := &ops[k]
			if op.K == "unpack" || op.Shared || !jobs[i][k].v.IsValid() {
				continue
			}
			// A value of its own: the same but for the counts.
			clean := *op
			clean.Dirty = false
			t := p.Types[op.T]
			now := spec.DumpCounts(t, jobs[i][k].v.Elem(), false)
			if was := spec.DumpCounts(t, rc.value(&clean).Elem(), false); now != was {
				rep.fail("altered", "packing or sizing a value altered more than its counts: %s\n now    %s\n before %s", show(op), now, was)
				return
			}
			if now, was := spec.Raw(jobs[i][k].v, false), spec.Raw(rc.value(&clean), false); now != was {
				rep.fail("altered", "packing or sizing a value altered something that is not encoded: %s\n now    %s\n before %s", show(op), now, was)
				return
			}
			if outErr(jobs[i][k], op) == "" && outs[i][k].Err == nil && outs[i][k].Panic == "" {
				if w := spec.OddRefs(t, jobs[i][k].v.Elem()); w != "" {
					rep.fail("references", "after %s: %s", show(op), w)
					return
				}
			}
			if op.K == "pack" && outErr(jobs[i][k], op) == "" {
				now := spec.DumpCounts(t, jobs[i][k].v.Elem(), true)
				was := spec.DumpCounts(t, rc.value(&clean).Elem(), true)
				dirtyText := spec.DumpCounts(t, rc.value(op).Elem(), true)
				if now != was && now != dirtyText {
					rep.fail("counts", "packing left counts that are neither as before nor right: %s\n now   %s\n right %s", show(op), now, was)
					return
				}
			}
		}
	}
}

// hasCounts tells whether the types have anything that packing sets.
func hasCounts(ts []*spec.T) bool {
	found := false
	for _, t := range ts {
		t.Fields(func(f *spec.F) {
			if f.Parent || f.Root || f.SizeOf != "" || f.SizeFrom != "" {
				found = true
			}
			for e := f.T; e != nil; e = e.E {
				if e.S == "Nest" {
					found = true
				}
			}
		})
	}
	return found
}

func outErr(j *job, op *Op) string {
	if len(op.Faults) > 0 || op.ByVal || op.Odd {
		return "?"
	}
	return ""
}

// crowded makes the process know many types, or meet them meanwhile.
func crowded(r *spec.Rng, p *Plan) {
	if r.P(1, 60) {
		p.Warm = append(p.Warm, crowdOp(r))
	}
	if r.P(1, 60) {
		op := crowdOp(r)
		if op.L > 160 {
			op.L = 160
		}
		k := r.N(len(p.Tasks))
		p.Tasks[k] = append(p.Tasks[k], op)
		if r.P(1, 2) {
			op.V += uint64(r.N(op.L))
			k = r.N(len(p.Tasks))
			p.Tasks[k] = append([]Op{op}, p.Tasks[k]...)
		}
	}
}
