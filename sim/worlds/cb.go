package worlds

import (
	"fmt"
	"reflect"

	"verif.sim/spec"
	"verif.sim/user"
)

// The cb world: one operation, and everything that can go wrong in the user
// code it calls, one fault after the other.

func init() {
	worldOf["C04"] = world{genCb, runC04}
	worldOf["C05"] = world{genCb, runC05}
	worldOf["C15"] = world{genC15, runC15}
	worldOf["C20"] = world{genCb, runC20}
}

const maxPoints = 60

func genCb(r *spec.Rng, prop string, thorough bool) *Plan {
	if prop == "C05" && r.P(1, 150) {
		return genDeep(r)
	}
	if prop == "C05" && r.P(1, 30) {
		return genRings(r)
	}
	p := &Plan{World: "cb", MapSeed: r.U64(), Expr: r.P(3, 4)}
	codecs := user.All
	o := options(r, p.Expr, codecs)
	o.Custom = nil
	for _, c := range codecs {
		if c != "NestX" || p.Expr {
			o.Custom = append(o.Custom, c)
		}
	}
	if r.P(1, 3) {
		o.Custom = []string{r.Pick(o.Custom...)}
	}
	o.While = r.P(1, 4)
	o.Static = []string{"Inner3"}
	if p.Expr {
		o.Static = append(o.Static, "Pkt", "Chain", "Up1", "Knit", "Anon")
	}
	var t *spec.T
	for i := 0; ; i++ {
		t = spec.Gen(r, o)
		if t.Custom() || i > 20 || prop == "C05" && r.P(1, 4) {
			break
		}
	}
	p.Types = []*spec.T{t}
	if prop == "C05" && r.P(1, 8) {
		p.Types[0] = broken(r, t)
	}
	op := Op{V: r.U64(), L: 1 + r.N(4), Little: r.P(1, 2), Hooked: r.P(1, 3)}
	switch prop {
	case "C04":
		op.K = r.Pick("pack", "unpack")
		p.Variant = user.ErrModes[r.N(len(user.ErrModes))]
		if op.K == "unpack" && r.P(1, 4) {
			op.Cut = r.N(6)
			op.Edits = genEdits(r, 40, 3, true)
		}
		if r.P(1, 10) && p.Expr {
			op.K = "fn" + op.K
		}
	case "C20":
		op.K = "pack"
		all := append(append(append([]string{}, user.ErrModes...), user.PanicModes...), user.SizeModes...)
		p.Variant = all[r.N(len(all))]
		op.Dirty = r.P(1, 3)
		if r.P(1, 8) && p.Expr {
			op.K = "fnpack"
		}
	case "C05":
		op.K = r.Pick("pack", "unpack", "unpack", "sizeof", "bitsize", "eval", "evalp")
		switch {
		case op.K == "eval" || op.K == "evalp":
			op.Ex, op.Env, op.Res = user.ExprText(r), r.U64()%1000, user.HookedRes(r)
		case op.K == "unpack":
			if r.P(1, 2) {
				op.Edits = genEdits(r, 40, 4, true)
			}
			if r.P(1, 3) {
				op.Cut = 1 + r.N(8)
			}
		default:
			op.Odd = r.P(1, 3)
			op.Dirty = r.P(1, 4)
			op.ByVal = r.P(1, 6)
		}
		if op.Ex == "" && r.P(1, 6) {
			op.Dest = r.Pick("value", "nilptr", "nil", "int", "slice", "ptrptr", "iface", "func")
		}
		if op.Ex == "" && p.Expr && r.P(1, 10) {
			op.K, op.Dest = "fn"+map[string]string{"pack": "pack", "unpack": "unpack", "sizeof": "size", "bitsize": "bitsize"}[op.K], ""
		}
		p.Variant = r.Pick("panic", "panic", "rem", "size")
	}
	p.Tasks = [][]Op{{op}}
	return p
}

// points runs the operation without faults and then once for each place where
// one can be injected.
func points(p *Plan, rep *Report, modes []string, match func(e user.Event) bool, base func(j *job, o *Out, ctl *user.Ctl) bool, judge func(f user.Fault, j *job, o *Out, ctl *user.Ctl)) {
	if len(p.Tasks) != 1 || len(p.Tasks[0]) != 1 {
		skip()
	}
	op := p.Tasks[0][0]
	op.Faults = nil
	fresh(p.Expr)
	j := newCtx(p).prepare(&op)
	o, ctl := newCtx(p).runJob(j, rep)
	rep.Ops++
	rep.mix(o.Text)
	if !base(j, o, ctl) || rep.Violation != "" || len(modes) == 0 {
		return
	}
	var fs []user.Fault
	if p.Fault != nil {
		fs = append(fs, *p.Fault)
	} else {
		rng := spec.NewRng(p.Seed ^ 0x5eed)
		for i, e := range ctl.Events {
			if match(e) {
				fs = append(fs, user.Fault{At: i + 1, Mode: modes[rng.N(len(modes))]})
			}
		}
		// All of them, unless there are too many.
		for len(fs) > maxPoints {
			k := rng.N(len(fs))
			fs = append(fs[:k], fs[k+1:]...)
		}
	}
	for _, f := range fs {
		fop := op
		fop.Faults = []user.Fault{f}
		j := newCtx(p).prepare(&fop)
		o, ctl := newCtx(p).runJob(j, rep)
		rep.Ops++
		rep.mix(o.Text)
		if len(ctl.Fired) > 0 {
			rep.fault(f.Mode)
			rep.Nontrivial = true
		}
		judge(f, j, o, ctl)
		if rep.Violation != "" {
			f := f
			rep.Fault = &f
			if p.Fault == nil {
				rep.Pin = p.Clone()
				rep.Pin.Fault = &f
			}
			return
		}
	}
}

func codecEvent(e user.Event) bool { return e.Kind == "pack" || e.Kind == "unpack" }

func sameError(a, b error) bool {
	if a == nil || b == nil {
		return a == b
	}
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if reflect.TypeOf(a).Comparable() {
		return a == b
	}
	return reflect.DeepEqual(a, b)
}

// runC04: a codec returns an error.
func runC04(p *Plan, rep *Report) {
	judge := func(what string, j *job, o *Out, ctl *user.Ctl) {
		if len(ctl.Raised) == 0 {
			return
		}
		first := ctl.Raised[0]
		switch {
		case !o.Done:
			rep.fail("incomplete", "%s: did not complete\n%s", what, o.Text)
		case o.Err == nil:
			rep.fail("accepted", "%s: a codec returned %q but the operation succeeded: %s", what, first.Err, o.Text)
		case !sameError(o.Err, first.Err):
			rep.fail("other error", "%s: a codec returned %T %q but the operation reports %T %q", what, first.Err, first.Err, o.Err, o.Err)
		case len(o.Data) > 0:
			rep.fail("data", "%s: the failed pack returned %d bytes", what, len(o.Data))
		}
		for i := first.At; i < len(ctl.Events); i++ {
			switch e := ctl.Events[i]; e.Kind {
			case "pack", "unpack", "size", "bitsize":
				rep.fail("later codec", "%s: after a codec had returned an error, callback %d, %s of %s, was made", what, i+1, e.Kind, e.Type)
			}
		}
	}
	points(p, rep, []string{p.Variant}, codecEvent, func(j *job, o *Out, ctl *user.Ctl) bool {
		if len(ctl.Raised) > 0 {
			rep.fault("codec met bad data")
			rep.Nontrivial = true
		}
		judge("nothing injected: "+show(j.op), j, o, ctl)
		return true
	}, func(f user.Fault, j *job, o *Out, ctl *user.Ctl) {
		judge(fmt.Sprintf("%s with %s at callback %d", show(j.op), f.Mode, f.At), j, o, ctl)
	})
}

// unsettable lists the destinations that nothing can be stored in.
var unsettable = map[string]bool{"value": true, "nilptr": true, "nil": true, "int": true}

// runC05: nothing escapes.
func runC05(p *Plan, rep *Report) {
	if p.Variant == "deep" {
		runDeep(p, rep)
		return
	}
	var modes []string
	match := func(e user.Event) bool { return true }
	switch p.Variant {
	case "rem":
		modes = user.RemModes
		match = codecEvent
	case "size":
		modes = user.SizeModes
		match = func(e user.Event) bool { return e.Kind == "size" || e.Kind == "bitsize" }
	default:
		modes = user.PanicModes
	}
	judge := func(what string, o *Out) bool {
		switch {
		case o.Panic != "":
			rep.fail("escaped panic", "%s: a panic escaped: %s", what, o.Panic)
		case !o.Done:
			rep.fail("incomplete", "%s: did not return\n%s", what, o.Text)
		default:
			return true
		}
		return false
	}
	points(p, rep, modes, match, func(j *job, o *Out, ctl *user.Ctl) bool {
		op := j.op
		if op.Cut > 0 {
			rep.fault("input cut")
			rep.Nontrivial = true
		}
		if op.Edits != nil {
			rep.fault("input damaged")
			rep.Nontrivial = true
		}
		if op.Odd {
			rep.fault("value with missing parts")
			rep.Nontrivial = true
		}
		if op.Dest != "" {
			rep.fault("argument " + op.Dest)
			rep.Nontrivial = true
		}
		if !judge("nothing injected: "+show(op), o) {
			return false
		}
		if op.K == "unpack" && unsettable[op.Dest] && o.Err == nil && stores(p, j) {
			rep.fail("unsettable", "%s: the destination cannot be written, but no error is reported", show(op))
		}
		return true
	}, func(f user.Fault, j *job, o *Out, ctl *user.Ctl) {
		what := fmt.Sprintf("%s with %s at callback %d", show(j.op), f.Mode, f.At)
		if judge(what, o) && p.Variant == "panic" && len(ctl.Fired) > 0 && o.Err == nil {
			rep.fail("swallowed", "%s: user code panicked, but no error is reported: %s", what, o.Text)
		}
	})
}

// stores tells whether the input has anything to store in the value.
func stores(p *Plan, j *job) bool {
	t := p.Types[j.op.T]
	if hasRaw(t) || t.K != "struct" {
		return false
	}
	for _, f := range t.Flds() {
		if f.Name != "_" && f.Name[0] >= 'A' && f.Name[0] <= 'Z' && !f.Ignore && !f.Parent && !f.Root && f.If == nil && f.Switch == nil && len(f.T.F) == 0 && f.T.S == "" && widthOf(f.T) {
			return true
		}
	}
	return false
}

func widthOf(t *spec.T) bool {
	switch t.K {
	case "uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "bool":
		return true
	}
	return false
}

// runC20: a failed pack leaves the value alone and can be repeated.
func runC20(p *Plan, rep *Report) {
	var good *Out
	size := ""
	retry := func(what string, j *job) {
		op := *j.op
		op.Faults = nil
		j2 := *j
		j2.op = &op
		o, _ := newCtx(p).runJob(&j2, rep)
		rep.Ops++
		if o.Text != good.Text {
			rep.fail("retry", "%s, then packed again without: \n got  %s\n want %s", what, o.Text, good.Text)
			return
		}
		op.K = sizeKind(op.K)
		o, _ = newCtx(p).runJob(&j2, rep)
		if o.Text != size {
			rep.fail("size", "%s, then sized: \n got  %s\n want %s", what, o.Text, size)
		}
	}
	var clean reflect.Value
	lies := p.Variant[0] == 's' // about sizes
	match := func(e user.Event) bool {
		if lies {
			return e.Kind == "size" || e.Kind == "bitsize"
		}
		return codecEvent(e) || p.Variant[0] == 'p'
	}
	points(p, rep, []string{p.Variant}, match, func(j *job, o *Out, ctl *user.Ctl) bool {
		if o.Err != nil || o.Panic != "" || !o.Done {
			return false
		}
		good = o
		clean = j.v
		op := *j.op
		op.K = sizeKind(op.K)
		so, _ := newCtx(p).one(&op, rep)
		size = so.Text
		if op.Dirty {
			// Sizing before packing sees the same list, whatever the counts say.
			rep.fault("counts out of date")
		}
		return true
	}, func(f user.Fault, j *job, o *Out, ctl *user.Ctl) {
		if len(ctl.Fired) == 0 {
			return
		}
		if !o.Done {
			rep.fail("incomplete", "%s: did not complete\n%s", show(j.op), o.Text)
			return
		}
		if lies && o.Err == nil && o.Panic == "" {
			return // what a codec does with more room or less is its own affair
		}
		what := fmt.Sprintf("%s with %s at callback %d", show(j.op), f.Mode, f.At)
		if j.fn != nil {
			fresh, _ := user.NewFnRec(j.op.V, j.op.Little)
			if a, b := j.fn.Text(), fresh.Text(); a != b {
				rep.fail("altered", "%s: the value was altered:\n now    %s\n before %s", what, a, b)
				return
			}
		} else {
			before := newCtx(p).value(j.op)
			if d := sameData(p.Types[j.op.T], j.v.Elem(), before.Elem(), clean.Elem(), ""); d != "" {
				rep.fail("altered", "%s: the value was altered: %s", what, d)
				return
			}
			if now, was := spec.Raw(j.v, false), spec.Raw(before, false); now != was {
				rep.fail("altered", "%s: the value was altered:\n now    %s\n before %s", what, now, was)
				return
			}
		}
		retry(what, j)
	})
}

func sizeKind(k string) string {
	if k == "fnpack" {
		return "fnsize"
	}
	return "sizeof"
}

// sameData compares a value with what it was before, except for counts and
// references to parents. Counts may be those of a completed pack.
func sameData(t *spec.T, now, was, done reflect.Value, path string) string {
	diff := func() string {
		if a, b := user.Show(iface(now)), user.Show(iface(was)); a != b {
			return fmt.Sprintf("%s is %s, was %s", path, a, b)
		}
		return ""
	}
	switch t.K {
	case "struct":
		for i, f := range t.Flds() {
			if f.Parent || f.Root {
				continue
			}
			fp := path + "." + f.Name
			n, w, d := now.Field(i), was.Field(i), done.Field(i)
			if t.IsCount(f) {
				a := user.Show(iface(n))
				if a != user.Show(iface(w)) && a != user.Show(iface(d)) {
					return fmt.Sprintf("count %s is %s, was %s", fp, a, user.Show(iface(w)))
				}
				continue
			}
			if s := sameData(f.T, n, w, d, fp); s != "" {
				return s
			}
		}
		return ""
	case "ptr":
		if now.IsNil() || was.IsNil() || done.IsNil() {
			return diff()
		}
		return sameData(t.E, now.Elem(), was.Elem(), done.Elem(), path)
	case "slice", "array":
		if now.Len() != was.Len() {
			return fmt.Sprintf("%s has %d elements, had %d", path, now.Len(), was.Len())
		}
		for i := 0; i < now.Len(); i++ {
			if s := sameData(t.E, now.Index(i), was.Index(i), done.Index(i), fmt.Sprintf("%s[%d]", path, i)); s != "" {
				return s
			}
		}
		return ""
	}
	return diff()
}

// iface returns what a value holds, also of unexported fields.
func iface(v reflect.Value) interface{} {
	if v.CanInterface() {
		return v.Interface()
	}
	n := reflect.New(v.Type()).Elem()
	switch {
	case v.CanInt():
		n.SetInt(v.Int())
	case v.CanUint():
		n.SetUint(v.Uint())
	case v.Kind() == reflect.String:
		n.SetString(v.String())
	}
	return n.Interface()
}

func genC15(r *spec.Rng, prop string, thorough bool) *Plan {
	p := &Plan{World: "cb", MapSeed: r.U64(), Expr: true}
	op := Op{V: r.U64(), L: 1 + r.N(4), Little: r.P(1, 2)}
	switch k := r.N(10); {
	case k < 4:
		p.Variant = "layout"
		o := options(r, true, user.All)
		o.Expr = true
		o.While = r.P(1, 5)
		for i := 0; i < 30; i++ {
			t := spec.Gen(r, o)
			if b := poison(r, t); b != nil {
				p.Types = []*spec.T{t, b}
				break
			}
		}
		op.T, op.Src = 1, 1
		op.K = r.Pick("pack", "unpack", "unpack", "sizeof", "bitsize")
	case k < 6:
		p.Variant = "fn"
		op.K = r.Pick("fnpack", "fnunpack", "fnsize", "fnbitsize")
		op.Hooked = r.P(1, 4)
	case k < 8:
		p.Variant = "eval"
		op.K = r.Pick("eval", "evalp")
		op.Ex, op.Env, op.Res = user.ExprText(r), r.U64()%1000, user.HookedRes(r)
	default:
		p.Variant = "bad"
		op.K = r.Pick("eval", "evalp")
		op.Ex, op.Env, op.Res = user.BadText(r, 1+r.N(3)), r.U64()%1000, user.FullRes(r)
	}
	p.Tasks = [][]Op{{op}}
	return p
}

// runC15: an expression fails.
func runC15(p *Plan, rep *Report) {
	none := func(o *Out) bool {
		return o.Data == nil && o.Size == 0 && o.Result == nil
	}
	failed := func(what string, o *Out) {
		switch {
		case o.Panic != "":
			rep.fail("escaped panic", "%s: a panic escaped: %s", what, o.Panic)
		case !o.Done:
			rep.fail("incomplete", "%s: did not return\n%s", what, o.Text)
		case o.Err == nil:
			rep.fail("taken for a value", "%s: an expression that is needed fails, but the operation succeeds: %s", what, o.Text)
		case !none(o):
			rep.fail("result", "%s: the operation fails but gives a result: %s", what, o.Text)
		}
	}
	modes := append([]string{"panic-err", "panic-err", "panic-err"}, user.PanicModes...)
	if p.Variant == "layout" || p.Variant == "bad" {
		modes = nil
	}
	points(p, rep, modes, func(e user.Event) bool { return e.Kind == "call" || e.Kind == "resolve" }, func(j *job, o *Out, ctl *user.Ctl) bool {
		op := j.op
		switch p.Variant {
		case "bad":
			rep.fault("failing expression")
			rep.Nontrivial = true
			failed(show(op), o)
		case "layout":
			if len(p.Types) < 2 {
				skip()
			}
			if must := needs(p, op); must {
				rep.fault("failing expression")
				rep.Nontrivial = true
				failed(show(op), o)
			}
		default:
			if o.Err != nil && !none(o) {
				rep.fail("result", "%s: the operation fails but gives a result: %s", show(op), o.Text)
			}
		}
		return true
	}, func(f user.Fault, j *job, o *Out, ctl *user.Ctl) {
		if len(ctl.Fired) == 0 {
			return
		}
		what := fmt.Sprintf("%s with %s at callback %d", show(j.op), f.Mode, f.At)
		failed(what, o)
		if rep.Violation == "" && len(ctl.Errs) > 0 && !sameError(o.Err, ctl.Errs[0]) {
			rep.fail("other error", "%s: the function or resolver raised %q but the operation reports %T %q", what, ctl.Errs[0], o.Err, o.Err)
		}
	})
}

// needs tells whether the operation needs the expression that fails.
func needs(p *Plan, op *Op) bool {
	t := p.Types[op.T]
	c := newCtx(p)
	good := *op
	good.T = op.Src - 1
	switch op.K {
	case "pack":
		v := reflect.New(t.Go())
		v.Elem().Set(spec.Value(t, spec.NewRng(op.V), op.L))
		_, _, err := spec.Encode(t, v.Elem(), op.Little)
		return err == spec.ErrExpr
	case "unpack":
		_, err := spec.Decode(t, c.input(op), op.Little, reflect.New(t.Go()).Elem())
		return err == spec.ErrExpr
	}
	v := reflect.New(t.Go())
	v.Elem().Set(spec.Value(t, spec.NewRng(op.V), op.L))
	_, err := spec.Sized(t, v.Elem())
	return err == spec.ErrExpr
}
