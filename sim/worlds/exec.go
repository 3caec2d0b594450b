package worlds

import (
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"reflect"
	"runtime"
	"strings"

	"github.com/go-restruct/restruct"
	"github.com/go-restruct/restruct/expr"
	"verif.sim/simrt"
	"verif.sim/spec"
	"verif.sim/user"
)

// Out is the outcome of an operation.
type Out struct {
	Text   string
	Err    error
	Data   []byte
	Size   int
	Result interface{}
	Val    reflect.Value // value packed or decoded
	Steps  int64
	Done   bool
	Kill   int
	Make   int64
	Inner  []string // violations seen inside
	Panic  string
}

func order(op *Op) binary.ByteOrder {
	if op.Hooked {
		return user.Order{Big: !op.Little}
	}
	if op.Little {
		return binary.LittleEndian
	}
	return binary.BigEndian
}

func errText(err error) string {
	s := fmt.Sprintf("error %T: %v", err, err)
	if len(s) > 600 {
		s = s[:600]
	}
	return s
}

// ctx holds what the operations of one execution share.
type ctx struct {
	p      *Plan
	shared map[string]reflect.Value
	inputs map[string][]byte
	progs  map[string]*expr.Program
	envs   map[uint64]*user.EnvA
	res    map[string]expr.Resolver
	solos  map[string]*Out
}

func newCtx(p *Plan) *ctx {
	return &ctx{p: p, shared: map[string]reflect.Value{}, inputs: map[string][]byte{}, progs: map[string]*expr.Program{}, envs: map[uint64]*user.EnvA{}, res: map[string]expr.Resolver{}, solos: map[string]*Out{}}
}

func (c *ctx) value(op *Op) reflect.Value {
	t := c.p.Types[op.T]
	v := reflect.New(t.Go())
	v.Elem().Set(spec.Value(t, spec.NewRng(op.V), op.L))
	if op.Dirty {
		dirty(t, v.Elem(), spec.NewRng(op.V+1))
	}
	if op.Odd {
		odd(v.Elem(), spec.NewRng(op.V+2), 0)
	}
	return v
}

// odd leaves out parts of the value, or makes them too long or too short.
func odd(v reflect.Value, r *spec.Rng, depth int) {
	if !v.CanSet() || depth > 20 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if r.P(1, 4) {
			v.Set(reflect.Zero(v.Type()))
		} else if !v.IsNil() {
			odd(v.Elem(), r, depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			odd(v.Field(i), r, depth+1)
		}
	case reflect.Slice:
		switch r.N(6) {
		case 0:
			v.Set(reflect.Zero(v.Type()))
		case 1:
			if v.Len() > 0 {
				v.Set(v.Slice(0, v.Len()-1))
			}
		case 2:
			v.Set(reflect.Append(v, reflect.Zero(v.Type().Elem())))
		}
		fallthrough
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			odd(v.Index(i), r, depth+1)
		}
	case reflect.String:
		switch r.N(8) {
		case 0, 1:
			v.SetString("")
		case 2, 3:
			v.SetString(v.String() + "longer")
		case 4:
			// Something that may go.
			v.SetString(v.String() + r.Pick("\x00", " ", "\n", "\x00\x00"))
		case 5:
			if n := v.Len(); n > 0 {
				v.SetString(v.String()[:n-1] + r.Pick("\x00", " ", "\xff"))
			}
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if r.P(1, 8) {
			v.SetInt(-1)
		} else if r.P(1, 12) || v.Kind() == reflect.Int64 && r.P(1, 4) {
			v.SetInt(1 << uint(r.N(v.Type().Bits()-1)))
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if r.P(1, 16) {
			v.SetUint(uint64(r.N(250)))
		} else if r.P(1, 12) || v.Kind() == reflect.Uint64 && r.P(1, 4) {
			// However many bits or elements that is.
			v.SetUint(1 << uint(r.N(v.Type().Bits())))
		}
	}
}

// dirty puts the count fields of the value out of date.
func dirty(t *spec.T, v reflect.Value, r *spec.Rng) {
	switch t.K {
	case "struct":
		for i, f := range t.Flds() {
			fv := v.Field(i)
			if !fv.CanSet() || f.Parent || f.Root || f.Ignore || f.Switch != nil || f.Name == "_" {
				continue
			}
			if t.IsCount(f) {
				if fv.CanInt() {
					fv.SetInt(int64(r.N(4)))
				} else if fv.CanUint() {
					fv.SetUint(uint64(r.N(4)))
				}
				continue
			}
			dirty(f.T, fv, r)
		}
	case "ptr":
		if !v.IsNil() {
			dirty(t.E, v.Elem(), r)
		}
	case "slice", "array":
		for i := 0; i < v.Len(); i++ {
			dirty(t.E, v.Index(i), r)
		}
	}
}

// encode is the undamaged input of an operation.
func (c *ctx) encode(op *Op) []byte {
	n := op.T
	if op.Src > 0 {
		n = op.Src - 1
	}
	if n >= len(c.p.Types) {
		skip()
	}
	t := c.p.Types[n]
	b, _, err := spec.Encode(t, spec.Value(t, spec.NewRng(op.V), op.L), op.Little)
	if err != nil {
		// A type of which nothing can be made: there is something to read, at
		// least.
		r := spec.NewRng(op.V ^ 0xe3c)
		for i := 0; i < 20; i++ {
			b = append(b, byte(r.N(4)*r.N(70)))
		}
	}
	return b
}

// input is what an unpack reads.
func (c *ctx) input(op *Op) []byte {
	b := Apply(c.encode(op), op.Edits)
	n := len(b) - op.Cut
	if n < 0 {
		n = 0
	}
	// Stale bytes lie behind the input: what was cut off, then garbage.
	out := append([]byte{}, b...)
	for i := 0; i < op.Tail; i++ {
		out = append(out, byte(0xa5+i))
	}
	if op.Tail == 0 {
		return out[:n:n]
	}
	return out[:n]
}

func inputKey(op *Op) string {
	k, _ := json.Marshal([]interface{}{op.T, op.Src, op.V, op.L, op.Little, op.Cut, op.Edits, op.Tail})
	return string(k)
}

func (c *ctx) env(seed uint64) *user.EnvA {
	e := c.envs[seed]
	if e == nil {
		e = user.NewEnv(seed)
		c.envs[seed] = e
	}
	return e
}

// job is an operation made ready to run: everything it needs exists.
type job struct {
	op    *Op
	v     reflect.Value
	in    []byte
	dest  interface{}
	destV reflect.Value
	prog  *expr.Program
	res   expr.Resolver
	env   *user.EnvA
	inner []*job
	want  []string // outcomes wanted of the inner ones
	typ   *spec.T
	depth int
	fn    *user.FnRec
}

func (c *ctx) prepare(op *Op) *job {
	j := &job{op: op}
	switch op.K {
	case "pack", "sizeof", "bitsize":
		if op.Shared {
			k := fmt.Sprint(op.T, "/", op.V, "/", op.L)
			v, ok := c.shared[k]
			if !ok {
				v = c.value(op)
				c.shared[k] = v
			}
			j.v = v
		} else {
			j.v = c.value(op)
		}
		if op.Dest != "" {
			c.target(op, j)
		}
	case "fnpack", "fnunpack", "fnsize", "fnbitsize":
		j.fn, j.in = user.NewFnRec(op.V, op.Little)
		j.v = reflect.ValueOf(j.fn)
		if op.K == "fnunpack" {
			n := len(j.in) - op.Cut
			if n < 0 {
				n = 0
			}
			j.in = Apply(j.in[:n:n], op.Edits)
			j.fn = &user.FnRec{Fn: j.fn.Fn}
			j.destV = reflect.ValueOf(j.fn)
			j.dest = j.fn
		}
	case "unpack":
		k := inputKey(op)
		b, ok := c.inputs[k]
		if !ok {
			b = c.input(op)
			c.inputs[k] = b
		}
		j.in = b
		c.target(op, j)
	case "evalp", "eval", "typeof":
		j.env = c.env(op.Env)
		k := fmt.Sprint(op.Res, "/", op.Env)
		r, ok := c.res[k]
		if !ok {
			if op.Res < user.ResKinds {
				r = user.NewResolver(op.Res, j.env)
			} // otherwise the task makes it
			c.res[k] = r
		}
		j.res = r
		if op.K == "evalp" {
			p, ok := c.progs[op.Ex]
			if !ok {
				p = tryParse(op.Ex)
				c.progs[op.Ex] = p
			}
			j.prog = p
		}
	}
	for i := range op.Inner {
		j.inner = append(j.inner, c.prepare(&op.Inner[i]))
	}
	return j
}

func tryParse(s string) (p *expr.Program) {
	defer func() {
		if recover() != nil {
			p = nil
		}
	}()
	return expr.ParseString(s)
}

func (c *ctx) target(op *Op, j *job) {
	t := c.p.Types[op.T].Go()
	switch op.Dest {
	case "":
		j.destV = reflect.New(t)
		j.dest = j.destV.Interface()
	case "value":
		j.dest = reflect.New(t).Elem().Interface()
	case "nilptr":
		j.dest = reflect.Zero(reflect.PtrTo(t)).Interface()
	case "nil":
		j.dest = nil
	case "int":
		j.dest = 5
	case "ptrptr":
		p := reflect.New(reflect.PtrTo(t))
		j.dest = p.Interface()
	case "slice":
		j.dest = reflect.MakeSlice(reflect.SliceOf(t), 1, 1).Interface()
	case "iface":
		var x interface{}
		j.dest = &x
	case "func":
		j.dest = func() {}
	}
}

// quiet runs the operation without rendering what it decodes.
func (j *job) quiet(ctl *user.Ctl) *Out {
	v := j.destV
	j.destV = reflect.Value{}
	o := j.do(ctl)
	j.destV = v
	return o
}

// do runs the operation in the current task.
func (j *job) do(ctl *user.Ctl) (o *Out) {
	o = &Out{}
	op := j.op
	ctl.Reset(op.Faults)
	if len(j.inner) > 0 {
		n := 0
		busy := false
		ctl.OnCall = func(kind string) {
			if busy || n >= 3*len(j.inner) {
				return
			}
			busy = true
			k := n % len(j.inner)
			n++
			saved := *ctl
			ctl.OnCall = nil
			io := j.inner[k].do(ctl)
			*ctl = saved
			busy = false
			if k < len(j.want) && io.Text != j.want[k] {
				o.Inner = append(o.Inner, fmt.Sprintf("in the middle of %s: %s\n got  %s\n want %s", kind, show(j.inner[k].op), io.Text, j.want[k]))
			}
		}
		defer func() { ctl.OnCall = nil }()
	}
	t := simrt.Current()
	start := int64(0)
	if t != nil {
		start = t.Steps()
		t.MaxMake()
	}
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 3000)
			buf = buf[:runtime.Stack(buf, false)]
			o.Panic = panicText(r)
			o.Text = "PANIC " + o.Panic
			_ = buf
			o.Done = true
		}
		if t != nil {
			o.Steps = t.Steps() - start
			o.Make = t.MaxMake()
			o.Kill = t.Killed()
		}
	}()
	var b strings.Builder
	switch op.K {
	case "pack", "fnpack":
		o.Val = j.v
		var err error
		o.Data, err = restruct.Pack(order(op), j.arg())
		if o.Err = err; err != nil {
			b.WriteString(errText(err))
			if o.Data != nil {
				b.WriteString(" with data")
			}
			break
		}
		b.WriteString("bytes ")
		b.WriteString(hex.EncodeToString(o.Data))
	case "sizeof", "bitsize", "fnsize", "fnbitsize":
		o.Val = j.v
		f := restruct.SizeOf
		if op.K == "bitsize" || op.K == "fnbitsize" {
			f = restruct.BitSize
		}
		n, err := f(j.arg())
		o.Size, o.Err = n, err
		if err != nil {
			b.WriteString(errText(err))
			if n != 0 {
				fmt.Fprintf(&b, " with size %d", n)
			}
			break
		}
		fmt.Fprintf(&b, "size %d", n)
	case "unpack", "fnunpack":
		o.Val = j.destV
		err := restruct.Unpack(j.in, order(op), j.dest)
		if o.Err = err; err != nil {
			b.WriteString(errText(err))
			break
		}
		b.WriteString("value ")
		if j.fn != nil {
			b.WriteString(j.fn.Text())
		} else if j.destV.IsValid() {
			b.WriteString(spec.Dump(j.typ, j.destV.Elem()))
		}
	case "crowd":
		b.WriteString(user.Crowd(op.V, op.L, op.Ex == "x"))
	case "eval", "evalp":
		if j.res == nil {
			j.res = user.NewResolver(op.Res, j.env)
		}
		var v interface{}
		var err error
		if op.K == "evalp" && j.prog != nil {
			v, err = expr.EvalProgram(j.res, j.prog)
		} else {
			v, err = expr.Eval(j.res, op.Ex)
		}
		o.Result = v
		if o.Err = err; err != nil {
			b.WriteString(errText(err))
			if v != nil {
				b.WriteString(" with a value")
			}
			break
		}
		b.WriteString("result ")
		b.WriteString(user.Show(v))
	case "typeof":
		if j.res == nil {
			j.res = user.NewResolver(op.Res, j.env)
		}
		switch {
		case op.Ex == "A" && op.Res%3 == 0:
			b.WriteString(typeText(expr.TypeOf(*j.env)))
		case op.Ex == "G" && op.Res%3 == 0:
			b.WriteString(typeText(expr.TypeOf(j.env.G)))
		case op.Env%3 == 0:
			m := expr.NewMetaTypeResolver()
			m.AddResolver(expr.NewStructTypeResolver(*j.env))
			m.AddResolver(expr.NewMapTypeResolver(map[string]expr.Type{"one": expr.TypeOf(1), "list": expr.TypeOf([]*user.Rec{})}))
			m.AddResolver(expr.NewTypeResolverAdapter(j.res))
			t := m.TypeResolve(op.Ex)
			if t != nil {
				b.WriteString(typeText(t))
			}
		case op.Res%2 == 0:
			t := expr.NewTypeResolverAdapter(j.res).TypeResolve(op.Ex)
			if t != nil {
				b.WriteString(typeText(t))
			}
		default:
			t := expr.NewStructTypeResolver(*j.env).TypeResolve(op.Ex)
			if t != nil {
				b.WriteString(typeText(t))
			}
		}
	case "mixed":
		// Types that cannot be represented next to ones that can.
		v, err := expr.Eval(expr.NewStructResolver(reflect.ValueOf(user.NewMixed(op.Env))), op.Ex)
		if o.Err = err; err != nil {
			b.WriteString(errText(err))
			break
		}
		b.WriteString("result ")
		b.WriteString(user.Show(v))
		b.WriteString(" of ")
		b.WriteString(typeText(expr.TypeOf(v)))
	case "enable":
		restruct.EnableExprBeta()
	}
	o.Text = b.String()
	o.Done = true
	return o
}

// panicText renders what a call panicked with, which may contain itself.
func panicText(r interface{}) string {
	switch r.(type) {
	case error, fmt.Stringer, string, int:
		return fmt.Sprintf("%T: %v", r, r)
	}
	return fmt.Sprintf("%T", r)
}

// typeText renders an expression type in some depth.
func typeText(t expr.Type) string {
	var b strings.Builder
	var walk func(t expr.Type, d int)
	walk = func(t expr.Type, d int) {
		if t == nil {
			b.WriteString("<nil>")
			return
		}
		fmt.Fprintf(&b, "%d", t.Kind())
		if d == 0 {
			return
		}
		switch t := t.(type) {
		case *expr.StructType:
			b.WriteString("{")
			for i := 0; i < t.NumFields(); i++ {
				b.WriteString(t.Field(i).Name + ":")
				walk(t.Field(i).Type, d-1)
				b.WriteString(" ")
			}
			b.WriteString("}")
		case *expr.PackageType:
			b.WriteString("pkg{")
			for _, n := range []string{"Add", "Div", "Ten", "Sub", "One", "Nope"} {
				b.WriteString(n + ":")
				if t := t.Symbol(n); t != nil {
					walk(t, d-1)
				}
				b.WriteString(" ")
			}
			b.WriteString("}")
		case *expr.PtrType:
			b.WriteString("*")
			walk(t.Elem(), d-1)
		case *expr.SliceType:
			b.WriteString("[]")
			walk(t.Elem(), d-1)
		case *expr.ArrayType:
			fmt.Fprintf(&b, "[%d]", t.Len())
			walk(t.Elem(), d-1)
		case *expr.MapType:
			b.WriteString("map")
			walk(t.Key(), d-1)
			walk(t.Value(), d-1)
		case *expr.FuncType:
			b.WriteString("func(")
			for i := 0; i < t.NumIn(); i++ {
				walk(t.In(i), d-1)
				b.WriteString(",")
			}
			b.WriteString(")")
			for i := 0; i < t.NumOut(); i++ {
				walk(t.Out(i), d-1)
				b.WriteString(",")
			}
		}
	}
	walk(t, 6)
	return b.String()
}

func (j *job) arg() interface{} {
	if j.op.Dest != "" {
		return j.dest
	}
	if j.op.ByVal {
		return j.v.Elem().Interface()
	}
	return j.v.Interface()
}

func show(op *Op) string {
	c := *op
	c.Inner = nil
	b, _ := json.Marshal(&c)
	return string(b)
}

const budget = int64(60e6)

// fresh puts the process into the state of one that has just started.
func fresh(expr bool) {
	simrt.Restart()
	if expr {
		restruct.EnableExprBeta()
	}
}

// single runs fn as the only task.
func single(mapSeed uint64, rep *Report, fn func(t *simrt.Task, ctl *user.Ctl)) *simrt.Sim {
	return singleIn(mapSeed, budget, rep, fn)
}

// singleIn is single with another limit on the steps.
func singleIn(mapSeed uint64, budget int64, rep *Report, fn func(t *simrt.Task, ctl *user.Ctl)) *simrt.Sim {
	s := simrt.New(simrt.Policy{Kind: "seq"}, mapSeed, budget)
	ctl := &user.Ctl{}
	s.Add(ctl, func() { fn(simrt.Current(), ctl) })
	s.Run()
	rep.Steps += s.Steps()
	rep.Runs++
	return s
}

// one runs one operation as the only task.
func (c *ctx) one(op *Op, rep *Report) (*Out, *user.Ctl) {
	j := c.prepare(op)
	return c.runJob(j, rep)
}

func (c *ctx) runJob(j *job, rep *Report) (*Out, *user.Ctl) {
	j.bind(c.p)
	o := &Out{}
	var ctl *user.Ctl
	s := single(c.p.MapSeed, rep, func(t *simrt.Task, k *user.Ctl) {
		ctl = k
		o = j.do(k)
	})
	if !o.Done {
		o.Text = fmt.Sprintf("DID NOT COMPLETE (deadlock %v, overrun %v)", s.Deadlock, s.Overrun)
	}
	return o, ctl
}

func (j *job) bind(p *Plan) {
	if j.op.T < len(p.Types) {
		j.typ = p.Types[j.op.T]
	}
	for _, i := range j.inner {
		i.bind(p)
	}
}

// solo is the outcome of the operation alone in a fresh process.
func (c *ctx) solo(op *Op, expr bool, rep *Report) *Out {
	k, _ := json.Marshal([]interface{}{op, expr})
	if o, ok := c.solos[string(k)]; ok {
		return o
	}
	var inner []string
	for i := range op.Inner {
		inner = append(inner, c.solo(&op.Inner[i], expr, rep).Text)
	}
	fresh(expr)
	j := newCtx(c.p).prepare(op)
	j.want = inner
	o, _ := c.runJob(j, rep)
	c.solos[string(k)] = o
	return o
}
