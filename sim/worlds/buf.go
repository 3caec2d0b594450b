package worlds

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"verif.sim/simrt"
	"verif.sim/spec"
	"verif.sim/user"
)

// The buf world: tasks reuse their buffers and values at any moment after a
// call, and look at what must not have changed.

func init() {
	worldOf["C11"] = world{genC11, runC11}
}

func genC11(r *spec.Rng, prop string, thorough bool) *Plan {
	p := &Plan{World: "buf", MapSeed: r.U64(), Expr: r.P(3, 4)}
	o := options(r, p.Expr, user.All)
	o.Ptr = r.P(5, 6)
	o.MaxLen = 6
	p.Types = cousins(r, o, 1+r.N(3))
	n := 1 + r.N(3)
	seeds := []uint64{r.U64(), r.U64(), r.U64()}
	ops := 6 + r.N(10)
	if thorough {
		ops += r.N(25)
	}
	for i := 0; i < n; i++ {
		var l []Op
		for k := 0; k < ops; k++ {
			op := Op{T: r.N(len(p.Types)), V: seeds[r.N(3)], L: 1 + r.N(6), Little: r.P(1, 2), Src: r.N(6)}
			switch x := r.N(20); {
			case x < 6:
				op.K = "unpack"
				op.Shared = r.P(1, 2)
				op.Hooked = r.P(1, 8)
				if r.P(1, 3) {
					op.Dest = "again"
				}
				if r.P(1, 5) {
					op.Cut = 1 + r.N(6)
				}
				if r.P(1, 5) {
					op.Edits = genEdits(r, 30, 2, true)
				}
				if r.P(1, 8) {
					op.Faults = faults(r)
				}
			case x < 9:
				op.K = "pack"
				op.ByVal = r.P(1, 6)
				op.Dirty = r.P(1, 6)
				op.Hooked = r.P(1, 8)
				if r.P(1, 8) {
					op.Faults = faults(r)
				}
			case x < 11:
				op.K = "repack"
			case x < 12:
				op.K = "sizeof"
			case x < 14:
				op.K = "scribble input"
			case x < 16:
				op.K = "scribble value"
			case x < 17:
				op.K = "scribble result"
			case x < 18:
				op.K = "append to result"
			default:
				op.K = "watch"
			}
			l = append(l, op)
		}
		p.Tasks = append(p.Tasks, l)
	}
	p.Policy = policy(r, n, 300+int64(r.N(8000)))
	return p
}

// region is memory that something refers to.
type region struct {
	lo, hi uintptr
	ro     bool
	what   string
	owner  int
}

// live is something that must stay as it is.
type live struct {
	what string
	task int
	id   int
	raw  []byte        // input with its guards, or a result with its capacity
	in   []byte        // the input itself
	v    reflect.Value // pointer to the value
	t    *spec.T
	was  string
	busy bool
	res  []byte
	made bool // the library made what is in it
	// What a destination held before it was used again.
	alias *live
}

func (l *live) text() string {
	if l.v.IsValid() {
		var b strings.Builder
		memText(&b, l.v.Elem(), map[uintptr]bool{l.v.Pointer(): true}, 0)
		return b.String()
	}
	return string(l.raw)
}

// memText renders everything the value holds, whatever it means.
func memText(b *strings.Builder, v reflect.Value, seen map[uintptr]bool, depth int) {
	if depth > 40 {
		b.WriteString("...")
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if seen[v.Pointer()] {
			b.WriteString("^")
			return
		}
		seen[v.Pointer()] = true
		b.WriteString("&")
		memText(b, v.Elem(), seen, depth+1)
	case reflect.Interface:
		if !v.IsNil() {
			memText(b, v.Elem(), seen, depth+1)
		}
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			b.WriteString(v.Type().Field(i).Name + ":")
			memText(b, v.Field(i), seen, depth+1)
			b.WriteString(" ")
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		fmt.Fprintf(b, "%d[", v.Len())
		for i := 0; i < v.Len(); i++ {
			memText(b, v.Index(i), seen, depth+1)
			b.WriteString(" ")
		}
		b.WriteString("]")
	case reflect.String:
		fmt.Fprintf(b, "%x", v.String())
	case reflect.Func, reflect.Chan, reflect.Map, reflect.UnsafePointer:
	default:
		fmt.Fprint(b, v)
	}
}

// regions lists the memory that the value refers to. Pointers to parents refer
// to parts of the value itself.
func regions(t *spec.T, v reflect.Value, path string, out *[]region) {
	add := func(lo, size uintptr, ro bool) {
		if size > 0 && lo != 0 {
			*out = append(*out, region{lo: lo, hi: lo + size, ro: ro, what: path})
		}
	}
	sub := func() *spec.T {
		if t != nil && (t.K == "ptr" || t.K == "slice" || t.K == "array") {
			return t.E
		}
		return nil
	}
	if len(path) > 300 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		add(v.Pointer(), v.Type().Elem().Size(), false)
		regions(sub(), v.Elem(), path+"*", out)
	case reflect.Struct:
		var fl []*spec.F
		if t != nil && t.K == "struct" {
			fl = t.Flds()
		}
		for i := 0; i < v.NumField(); i++ {
			var ft *spec.T
			if i < len(fl) && len(fl) == v.NumField() {
				if fl[i].Parent || fl[i].Root || fl[i].Ignore {
					continue
				}
				ft = fl[i].T
			}
			regions(ft, v.Field(i), path+"."+v.Type().Field(i).Name, out)
		}
	case reflect.Slice:
		add(v.Pointer(), uintptr(v.Cap())*v.Type().Elem().Size(), false)
		if k := v.Type().Elem().Kind(); k >= reflect.Bool && k <= reflect.Complex128 {
			return
		}
		for i := 0; i < v.Len(); i++ {
			regions(sub(), v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
	case reflect.Array:
		if k := v.Type().Elem().Kind(); k >= reflect.Bool && k <= reflect.Complex128 {
			return
		}
		for i := 0; i < v.Len(); i++ {
			regions(sub(), v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
	case reflect.String:
		if v.Len() > 0 {
			add(stringAddr(v.String()), uintptr(v.Len()), true)
		}
	case reflect.Interface:
		if !v.IsNil() {
			regions(nil, v.Elem(), path, out)
		}
	}
}

// scribble overwrites everything the caller can reach, into the capacity of
// slices too.
func scribble(t *spec.T, v reflect.Value, r *spec.Rng, depth int) {
	if depth > 30 || !v.CanSet() && v.Kind() != reflect.Ptr {
		return
	}
	var sub *spec.T
	if t != nil {
		sub = t.E
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			scribble(sub, v.Elem(), r, depth+1)
		}
	case reflect.Struct:
		var fl []*spec.F
		if t != nil && t.K == "struct" {
			fl = t.Flds()
		}
		for i := 0; i < v.NumField(); i++ {
			var ft *spec.T
			if i < len(fl) && len(fl) == v.NumField() {
				if fl[i].Parent || fl[i].Root {
					continue
				}
				ft = fl[i].T
			}
			scribble(ft, v.Field(i), r, depth+1)
		}
	case reflect.Slice:
		w := v
		if v.Cap() > v.Len() {
			w = v.Slice(0, v.Cap())
		}
		for i := 0; i < w.Len(); i++ {
			scribble(sub, w.Index(i), r, depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scribble(sub, v.Index(i), r, depth+1)
		}
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(^v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(^v.Uint() & (1<<uint(v.Type().Bits()-1)<<1 - 1))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(r.N(1000)) + 0.5)
	case reflect.Complex64, reflect.Complex128:
		v.SetComplex(complex(float64(r.N(100)), 1.5))
	case reflect.String:
		v.SetString("scribbled")
	}
}

type ledger struct {
	p     *Plan
	rep   *Report
	c     *ctx
	all   []*live
	bad   bool
	n     int
	in    map[string]*live
	wrote bool
}

func (g *ledger) fail(class, format string, a ...interface{}) {
	g.bad = true
	g.rep.fail(class, format, a...)
}

func (g *ledger) add(l *live) *live {
	g.n++
	l.id = g.n
	l.was = l.text()
	g.all = append(g.all, l)
	return l
}

func (g *ledger) drop(l *live) {
	for i := range g.all {
		if g.all[i] == l {
			g.all = append(g.all[:i:i], g.all[i+1:]...)
			return
		}
	}
}

// unalias drops the copies of what is overwritten: they may still have parts of
// it, where nothing was decoded since.
func (g *ledger) unalias(l *live) {
	var keep []*live
	for _, x := range g.all {
		if x.alias != l {
			keep = append(keep, x)
		}
	}
	g.all = keep
}

// check looks at everything that is live.
func (g *ledger) check(when string) {
	if g.bad {
		return
	}
	for _, l := range g.all {
		if l.busy {
			continue
		}
		if now := l.text(); now != l.was {
			f := "%s: %s changed\n now  %s\n then %s"
			if !l.v.IsValid() {
				f = "%s: %s changed\n now  %x\n then %x"
			}
			g.fail("changed "+l.what, f, when, fmt.Sprintf("%s %d", l.what, l.id), now, l.was)
			return
		}
	}
}

// apart looks whether things share memory.
func (g *ledger) apart(when string) {
	if g.bad {
		return
	}
	var rs []region
	names := map[int]*live{}
	for _, l := range g.all {
		if l.busy || l.alias != nil {
			continue
		}
		names[l.id] = l
		var own []region
		switch {
		case l.v.IsValid():
			own = append(own, region{lo: l.v.Pointer(), hi: l.v.Pointer() + l.v.Type().Elem().Size(), what: "itself"})
			if own[0].hi == own[0].lo {
				own = nil
			}
			regions(l.t, l.v.Elem(), "", &own)
			if !l.made {
				// How the user builds values is no concern of the library.
				for i := range own {
					own[i].ro = true
				}
			}
		case cap(l.raw) > 0:
			lo := reflect.ValueOf(l.raw).Pointer()
			own = append(own, region{lo: lo, hi: lo + uintptr(cap(l.raw)), what: "bytes"})
		}
		for i := range own {
			own[i].owner = l.id
		}
		rs = append(rs, own...)
	}
	sort.Slice(rs, func(i, k int) bool {
		if rs[i].lo != rs[k].lo {
			return rs[i].lo < rs[k].lo
		}
		return rs[i].owner < rs[k].owner
	})
	var far region // reaches furthest, among those that can be written to
	var farRO region
	for _, x := range rs {
		for _, f := range []region{far, farRO} {
			if f.hi > x.lo && !(f.ro && x.ro) {
				a, b := names[f.owner], names[x.owner]
				g.fail("shared memory", "%s: %s %d %s and %s %d %s share memory", when, a.what, a.id, f.what, b.what, b.id, x.what)
				return
			}
		}
		if x.ro && x.hi > farRO.hi {
			farRO = x
		}
		if !x.ro && x.hi > far.hi {
			far = x
		}
	}
}

// pick takes one of the task's things.
func (g *ledger) pick(task int, what string, n int) *live {
	var l []*live
	for _, x := range g.all {
		if x.task == task && (x.what == what || what == "value" && x.what == "packed value") && !x.busy {
			l = append(l, x)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[len(l)-1-n%len(l)]
}

func guarded(in []byte) (raw, part []byte) {
	raw = make([]byte, 16+len(in)+32)
	for i := range raw {
		raw[i] = byte(0xc3 ^ 29*i)
	}
	copy(raw[16:], in)
	return raw, raw[16 : 16+len(in) : 16+len(in)+16]
}

func (g *ledger) do(task int, op *Op, ctl *user.Ctl, dests map[int]*live) {
	what := fmt.Sprintf("task %d: %s", task, show(op))
	switch op.K {
	case "unpack":
		t := g.p.Types[op.T]
		k := inputKey(op)
		buf := g.in[k]
		if !op.Shared || buf == nil {
			o := *op
			o.Src = 0
			raw, in := guarded(g.c.input(&o))
			buf = g.add(&live{what: "input", task: task, raw: raw, in: in})
			if op.Shared {
				buf.task = -1
				g.in[k] = buf
			}
		}
		old := dests[op.T]
		v := reflect.New(t.Go())
		var copies []*live
		if op.Dest == "again" && old != nil {
			v = old.v
			g.drop(old)
			for _, l := range g.all {
				if l.alias == old {
					copies = append(copies, l)
				}
			}
			if !inPlace(t) {
				own := reflect.New(t.Go())
				own.Elem().Set(v.Elem())
				copies = append(copies, g.add(&live{what: "copy", task: task, v: own, t: t, alias: old}))
			}
		}
		u := *op
		u.Dest = ""
		j := &job{op: &u, in: buf.in, dest: v.Interface(), destV: v}
		j.bind(g.p)
		o := j.quiet(ctl)
		if o.Err == nil && o.Panic == "" {
			l := g.add(&live{what: "value", task: task, v: v, t: t, made: true})
			dests[op.T] = l
			for _, c := range copies {
				c.alias = l
			}
		} else {
			delete(dests, op.T)
			g.rep.fault("failed unpack")
		}
		g.rep.mix(o.Text)
		g.check(what)
		g.apart(what)
	case "pack", "repack", "sizeof":
		var val *live
		u := *op
		u.Src = 0
		if op.K == "repack" {
			val = g.pick(task, "value", op.Src)
			if val == nil {
				return
			}
			u.K = "pack"
			val.busy = true
		} else {
			val = &live{what: "packed value", task: task, v: g.c.value(&u), t: g.p.Types[op.T], busy: true}
			g.add(val)
		}
		j := &job{op: &u, v: val.v}
		j.bind(g.p)
		o := j.do(ctl)
		val.busy = false
		val.was = val.text()
		for _, l := range g.all {
			if l.alias == val {
				l.was = l.text()
			}
		}
		if op.K == "repack" && o.Err != nil {
			// A value of no meaning, from scribbling or from damage.
			g.rep.fault("failed pack")
		}
		if op.K != "sizeof" && o.Err == nil && o.Panic == "" {
			g.add(&live{what: "result", task: task, raw: o.Data[:cap(o.Data):cap(o.Data)], res: o.Data})
		} else if o.Err != nil {
			g.rep.fault("failed pack")
		}
		g.rep.mix(o.Text)
		g.check(what)
		g.apart(what)
	case "scribble input":
		l := g.pick(task, "input", op.Src)
		if l == nil {
			return
		}
		for i := range l.raw {
			l.raw[i] ^= byte(0x35 + i)
		}
		l.was = l.text()
		g.drop(l)
		g.wrote = true
		g.rep.fault("input overwritten")
		g.check(what)
	case "scribble value":
		l := g.pick(task, "value", op.Src)
		if l == nil {
			return
		}
		scribble(l.t, l.v.Elem(), spec.NewRng(op.V), 0)
		l.was = l.text()
		g.unalias(l)
		g.wrote = true
		g.rep.fault("value overwritten")
		g.check(what)
	case "scribble result":
		l := g.pick(task, "result", op.Src)
		if l == nil {
			return
		}
		for i := range l.raw {
			l.raw[i] ^= byte(0x11 + i)
		}
		l.was = l.text()
		g.wrote = true
		g.rep.fault("result overwritten")
		g.check(what)
	case "append to result":
		l := g.pick(task, "result", op.Src)
		if l == nil {
			return
		}
		more := append(l.res, 0xee, 0xdd, 0xcc, 0xbb, 0xaa, 0x99, 0x88, 0x77)
		l.was = l.text()
		_ = more
		g.wrote = true
		g.rep.fault("result appended to")
		g.check(what)
	case "watch":
		g.check(what)
		g.apart(what)
	}
	g.rep.Ops++
}

func runC11(p *Plan, rep *Report) {
	c := newCtx(p)
	for _, ops := range p.Tasks {
		for k := range ops {
			if ops[k].T >= len(p.Types) {
				skip()
			}
		}
	}
	fresh(p.Expr)
	g := &ledger{p: p, rep: rep, c: c, in: map[string]*live{}}
	done := make([]bool, len(p.Tasks))
	s := simrt.New(p.Policy, p.MapSeed, budget)
	for i := range p.Tasks {
		i := i
		ctl := &user.Ctl{}
		s.Add(ctl, func() {
			dests := map[int]*live{}
			for k := range p.Tasks[i] {
				if g.bad {
					break
				}
				g.do(i, &p.Tasks[i][k], ctl, dests)
				simrt.H(-3)
			}
			done[i] = true
		})
	}
	s.Run()
	rep.Steps += s.Steps()
	rep.Runs++
	rep.Switches += s.Switches
	rep.Hot += s.HotSwitch
	rep.Hash = spec.Mix(rep.Hash ^ s.Hash())
	rep.Trace = s.Trace()
	for i := range done {
		if !done[i] {
			rep.fail("incomplete", "task %d did not come to its end (deadlock %v, overrun %v)", i, s.Deadlock, s.Overrun)
			return
		}
	}
	if g.bad {
		return
	}
	// The end: the memory goes back to where it came from, bit by bit.
	r := spec.NewRng(p.Seed)
	for len(g.all) > 0 && !g.bad {
		l := g.all[r.N(len(g.all))]
		g.unalias(l)
		if l.v.IsValid() && l.alias == nil {
			scribble(l.t, l.v.Elem(), r, 0)
		} else {
			for i := range l.raw {
				l.raw[i] = ^l.raw[i]
			}
		}
		g.drop(l)
		g.check(fmt.Sprintf("after %s %d was overwritten at the end", l.what, l.id))
	}
	rep.Nontrivial = g.wrote
}
