package worlds

import (
	"encoding/binary"
	"fmt"
	"reflect"
	"runtime"

	"github.com/go-restruct/restruct"
	"verif.sim/simrt"
	"verif.sim/spec"
	"verif.sim/user"
)

// The store world: encodings lie on a simulated disk that loses, tears and
// damages what it is given.

func init() {
	worldOf["C06"] = world{genC06, runC06}
	worldOf["C07"] = world{genC07, runC07}
	worldOf["C08"] = world{genC08, runC08}
	worldOf["C09"] = world{genC09, runC09}
	worldOf["C16"] = world{genC16, runC16}
}

// DiskPlan is what happens to a log on a disk.
type DiskPlan struct {
	Steps []DiskStep `json:"steps"`
}

// DiskStep is one step of the writer or of the fate.
type DiskStep struct {
	K    string `json:"k"` // append, sync, crash
	Op   Op     `json:"op,omitempty"`
	Mode string `json:"mode,omitempty"` // append: "", short, full; sync: "", fail; crash: stale, zero, none
	N    int    `json:"n,omitempty"`    // append: how many bytes are written; crash: how many unsynced bytes survive
	Keep bool   `json:"keep,omitempty"` // recover into the same destination over and over
	Over bool   `json:"over,omitempty"` // append: there may be more elements than a count can tell
}

// storable options: every record takes a byte at least, and needs none behind.
func storable(r *spec.Rng, expr bool) spec.Opt {
	o := options(r, expr, user.All)
	o.MaxLen = 5
	o.Short = false // what is read back would be longer
	o.While = false // only where the end of a record is known
	o.Void = r.P(1, 3)
	return o
}

func maybe(r *spec.Rng, num, den int, f user.Fault) []user.Fault {
	if r.P(num, den) {
		return []user.Fault{f}
	}
	return nil
}

// ---- C06

func genC06(r *spec.Rng, prop string, thorough bool) *Plan {
	p := &Plan{World: "store", MapSeed: r.U64(), Expr: r.P(3, 4), Disk: &DiskPlan{}}
	o := storable(r, p.Expr)
	p.Types = cousins(r, o, 1+r.N(3))
	little := r.P(1, 2)
	n := 5 + r.N(20)
	if thorough {
		n += r.N(40)
	}
	for i := 0; i < n; i++ {
		switch k := r.N(10); {
		case k < 6:
			s := DiskStep{K: "append", Op: Op{K: "pack", T: r.N(len(p.Types)), V: r.U64(), L: 1 + r.N(5), Little: little, Dirty: r.P(1, 6), ByVal: r.P(1, 6)}}
			if r.P(1, 6) {
				s.Op.Faults = []user.Fault{{At: 1 + r.N(4), Mode: r.Pick(append(append([]string{}, user.ErrModes...), user.PanicModes...)...)}}
			}
			if r.P(1, 60) {
				s.Op.L += spec.Huge
			}
			if r.P(1, 5) {
				s.Mode = r.Pick("short", "full")
				s.N = r.N(40)
			}
			s.Over = r.P(1, 8)
			p.Disk.Steps = append(p.Disk.Steps, s)
		case k < 8:
			p.Disk.Steps = append(p.Disk.Steps, DiskStep{K: "sync", Mode: r.Pick("", "", "", "fail")})
		default:
			p.Disk.Steps = append(p.Disk.Steps, crashStep(r))
		}
	}
	p.Disk.Steps = append(p.Disk.Steps, crashStep(r))
	p.Note = fmt.Sprintf("little %v", little)
	return p
}

func crashStep(r *spec.Rng) DiskStep {
	s := DiskStep{K: "crash", Mode: r.Pick("stale", "stale", "zero", "none"), N: r.N(200), Keep: r.P(1, 3)}
	if r.P(1, 4) {
		s.Op.Faults = []user.Fault{{At: 1 + r.N(4), Mode: r.Pick(append(append([]string{}, user.ErrModes...), user.PanicModes...)...)}}
	}
	return s
}

type record struct {
	t    int
	want string
	n    int
}

// log is a file that records are appended to.
type log struct {
	durable []byte
	pending []byte
	recs    []record // what was appended in full, in order
}

func (l *log) len() int { return len(l.durable) + len(l.pending) }

func runC06(p *Plan, rep *Report) {
	if p.Disk == nil {
		skip()
	}
	fresh(p.Expr)
	l := &log{}
	recovered := false
	for i := range p.Disk.Steps {
		s := &p.Disk.Steps[i]
		switch s.K {
		case "append":
			rep.Ops++
			op := s.Op
			if op.T >= len(p.Types) {
				skip()
			}
			t := p.Types[op.T]
			clean := reflect.New(t.Go())
			clean.Elem().Set(spec.Value(t, spec.NewRng(op.V), op.L))
			want := spec.Dump(t, clean.Elem())
			if model, _, err := spec.Encode(t, clean.Elem(), op.Little); err != nil || len(model) == 0 {
				skip()
			}
			c := newCtx(p)
			if s.Over && !overflows(c, rep, t, &op, i) {
				return
			}
			j := c.prepare(&op)
			o, ctl := c.runJob(j, rep)
			if o.Err != nil && len(ctl.Fired) > 0 {
				// The codec failed; nothing is written, and the writer tries again.
				rep.fault("codec fault while packing")
				op.Faults = nil
				o, _ = c.runJob(j, rep)
			}
			if !o.Done || o.Err != nil || o.Panic != "" {
				rep.fail("append", "step %d: a record cannot be packed: %s\n%s", i, show(&op), o.Text)
				return
			}
			rep.mix(o.Text)
			data := o.Data
			n := len(data)
			if s.Mode != "" && s.N < n {
				// Only part of it reaches the file; the writer takes it back.
				rep.fault(map[string]string{"short": "short write", "full": "disk full"}[s.Mode])
				l.pending = append(l.pending, data[:s.N]...)
				l.pending = l.pending[:len(l.pending)-s.N]
				continue
			}
			l.pending = append(l.pending, data...)
			l.recs = append(l.recs, record{op.T, want, n})
		case "sync":
			if s.Mode == "fail" {
				rep.fault("sync failure")
				continue // nobody knows what is stored now
			}
			l.durable = append(l.durable, l.pending...)
			l.pending = nil
		case "crash":
			rep.fault("crash")
			keep := s.N
			if keep > len(l.pending) {
				keep = len(l.pending)
			}
			lost := append([]byte{}, l.pending[keep:]...)
			if len(lost) > 0 {
				rep.fault("unsynced tail lost")
			}
			disk := append(append([]byte{}, l.durable...), l.pending[:keep]...)
			if !recoverLog(p, rep, l, s, i, disk, lost) {
				return
			}
			if len(lost) > 0 && len(l.recs) > 0 {
				recovered = true
			}
		}
	}
	rep.Nontrivial = recovered
}

// overflows lets the writer append a value with more elements than the counts
// can tell: it must not become a record, as none would be read back.
func overflows(c *ctx, rep *Report, t *spec.T, op *Op, step int) bool {
	v := reflect.New(t.Go())
	v.Elem().Set(spec.ValueOver(t, spec.NewRng(op.V), op.L))
	if _, _, err := spec.Encode(t, v.Elem(), op.Little); err != spec.ErrValue {
		return true
	}
	rep.fault("more elements than the count can tell")
	rep.Ops++
	o, _ := c.runJob(&job{op: &Op{K: "pack", T: op.T, Little: op.Little}, v: v}, rep)
	if !o.Done && len(spec.Dump(t, v.Elem())) > 100000 {
		return true // more than there is time for
	}
	if !o.Done || o.Panic != "" || o.Err == nil {
		rep.fail("overflow", "step %d: %s holds more elements than a count can tell, but: %s", step, spec.Dump(t, v.Elem()), o.Text)
		return false
	}
	return true
}

// recoverLog reads the log after a crash, and lets the writer go on from there.
func recoverLog(p *Plan, rep *Report, l *log, s *DiskStep, step int, disk, lost []byte) bool {
	fresh(p.Expr)
	// What the crash took may still lie in memory behind what is left.
	buf := append([]byte{}, disk...)
	switch s.Mode {
	case "stale":
		buf = append(buf, lost...)
	case "zero":
		buf = append(buf, make([]byte, len(lost)+8)...)
	}
	buf = buf[:len(disk)]
	if s.Mode == "none" {
		buf = buf[:len(disk):len(disk)]
	}
	little := false
	for i := range p.Disk.Steps {
		if p.Disk.Steps[i].K == "append" {
			little = p.Disk.Steps[i].Op.Little
			break
		}
	}
	dests := map[int]reflect.Value{}
	pos := 0
	for i := 0; pos < len(buf); i++ {
		if i >= len(l.recs) {
			rep.fail("extra", "step %d: the log holds %d bytes behind its last record", step, len(buf)-pos)
			return false
		}
		rec := l.recs[i]
		t := p.Types[rec.t]
		whole := pos+rec.n <= len(buf)
		dest, ok := dests[rec.t]
		if !ok || !s.Keep {
			dest = reflect.New(t.Go())
			dests[rec.t] = dest
		}
		c := newCtx(p)
		op := Op{K: "unpack", T: rec.t, Little: little, Faults: s.Op.Faults}
		j := &job{op: &op, in: buf[pos:], dest: dest.Interface(), destV: dest}
		o, ctl := c.runJob(j, rep)
		rep.Ops++
		if o.Done && o.Err != nil && len(ctl.Fired) > 0 {
			rep.fault("codec fault while recovering")
			op.Faults = nil
			o, _ = c.runJob(j, rep)
		}
		rep.mix(o.Text)
		switch {
		case !o.Done || o.Panic != "":
			rep.fail("recovery dies", "step %d: record %d: %s", step, i, o.Text)
			return false
		case !whole:
			mv := reflect.New(t.Go())
			if _, err := spec.Decode(t, buf[pos:], little, mv.Elem()); err == spec.ErrUnaligned {
				skip()
			} else if err == nil {
				// The record is there but for what means nothing: the writer
				// starts over from where it begins.
				goto done
			}
			if o.Err == nil {
				rep.fail("torn accepted", "step %d: record %d was torn, %d of its %d bytes are there, but it is accepted as %s", step, i, len(buf)-pos, rec.n, o.Text)
				return false
			}
			rep.fault("torn record")
			goto done
		case o.Err != nil:
			rep.fail("lost", "step %d: record %d is stored in full but: %s\n bytes %x", step, i, o.Text, buf[pos:pos+rec.n])
			return false
		}
		if got := spec.Dump(t, dest.Elem()); got != rec.want {
			d := &spec.Decoder{BuggyExtend: true}
			bv := reflect.New(t.Go())
			d.Run(t, buf[pos:], little, bv.Elem())
			if !d.Differs || spec.Dump(t, bv.Elem()) != got {
				rep.fail("other value", "step %d: record %d is recovered as\n got  %s\n want %s", step, i, got, rec.want)
				return false
			}
			rep.Known++
		}
		if !s.Keep {
			if msg := spec.Odd(t, dest.Elem()); msg != "" {
				rep.fail("other value", "step %d: record %d is recovered as %s, but %s", step, i, rec.want, msg)
				return false
			}
		}
		so, _ := c.runJob(&job{op: &Op{K: "sizeof", T: rec.t}, v: dest}, rep)
		if so.Err != nil || !so.Done || so.Size != rec.n {
			rep.fail("size", "step %d: record %d takes %d bytes, but the size of the recovered value is: %s", step, i, rec.n, so.Text)
			return false
		}
		pos += rec.n
		rep.max("records recovered", int64(i+1))
	}
done:
	// The records before pos are all there is; the rest of the file is cut off.
	n, at := 0, 0
	for n < len(l.recs) && at+l.recs[n].n <= pos {
		at += l.recs[n].n
		n++
	}
	l.recs = l.recs[:n]
	l.durable = append([]byte{}, buf[:pos]...)
	l.pending = nil
	return true
}

// ---- C07

func genC07(r *spec.Rng, prop string, thorough bool) *Plan {
	p := &Plan{World: "store", MapSeed: r.U64(), Expr: r.P(3, 4)}
	o := storable(r, p.Expr)
	o.While = p.Expr && r.P(1, 4)
	p.Types = cousins(r, o, 1+r.N(2))
	p.Variant = r.Pick("stale", "stale", "garbage", "none", "zero")
	op := Op{K: "unpack", T: len(p.Types) - 1, V: r.U64(), L: 1 + r.N(6), Little: r.P(1, 2)}
	if thorough && r.P(1, 2) {
		op.L = 20
	}
	op.Hooked = !o.Bits && r.P(1, 6)
	if r.P(1, 2) {
		op.Dest = "again"
	}
	p.Tasks = [][]Op{{op}}
	return p
}

// behind puts bytes behind the input, where it must not look.
func behind(in, rest []byte, what string) []byte {
	b := append([]byte{}, in...)
	switch what {
	case "stale":
		b = append(b, rest...)
		b = append(b, rest...)
	case "garbage":
		for i := range rest {
			b = append(b, byte(0x5b+37*i))
		}
	case "zero":
		b = append(b, make([]byte, len(rest)+16)...)
	default:
		return b[:len(in):len(in)]
	}
	return b[:len(in)]
}

func runC07(p *Plan, rep *Report) {
	if len(p.Tasks) != 1 || len(p.Tasks[0]) != 1 {
		skip()
	}
	op := p.Tasks[0][0]
	c := newCtx(p)
	if op.T >= len(p.Types) {
		skip()
	}
	t := p.Types[op.T]
	if _, _, err := spec.Encode(t, spec.Value(t, spec.NewRng(op.V), op.L), op.Little); err != nil {
		skip()
	}
	full := c.encode(&op)
	fresh(p.Expr)
	var cuts []int
	if op.Cut > 0 {
		cuts = []int{op.Cut}
	} else {
		for i := 1; i <= len(full); i++ {
			cuts = append(cuts, i)
		}
		rng := spec.NewRng(p.Seed ^ 0xc7)
		for len(cuts) > 400 {
			k := rng.N(len(cuts))
			cuts = append(cuts[:k], cuts[k+1:]...)
		}
	}
	again := reflect.New(t.Go())
	uop := op
	uop.Dest, uop.Cut = "", 0
	try := func(in []byte, dest reflect.Value) *Out {
		o, _ := c.runJob(&job{op: &uop, in: in, dest: dest.Interface(), destV: dest}, rep)
		rep.Ops++
		rep.mix(o.Text)
		return o
	}
	for _, cut := range cuts {
		if cut > len(full) {
			skip()
		}
		n := len(full) - cut
		dest := reflect.New(t.Go())
		if op.Dest == "again" {
			// The destination holds what the whole encoding means.
			if o := try(full, again); o.Err != nil || !o.Done {
				skip()
			}
			dest = again
		}
		o := try(behind(full[:n], full[n:], p.Variant), dest)
		rep.fault("input cut")
		if msg, known := spells(t, full[:n], op.Little, dest, o, false); msg != "" {
			rep.fail("cut", "%d of %d bytes delivered, the rest %s: %s\n whole %x", n, len(full), p.Variant, msg, full)
			if op.Cut == 0 {
				rep.Pin = p.Clone()
				rep.Pin.Tasks[0][0].Cut = cut
			}
			return
		} else if known {
			rep.Known++
		}
		if o.Err != nil {
			rep.Nontrivial = true
		} else if w := spec.Odd(t, dest.Elem()); w != "" && op.Dest != "again" {
			rep.fail("cut", "%d of %d bytes delivered, the rest %s: accepted as %s, but %s\n whole %x", n, len(full), p.Variant, o.Text, w, full)
			return
		}
	}
}

// spells compares what the library made of the bytes with what they mean. With
// strict, the library may not report an error where they mean something.
func spells(t *spec.T, in []byte, little bool, dest reflect.Value, o *Out, strict bool) (string, bool) {
	if !o.Done {
		return "did not complete: " + o.Text, false
	}
	if o.Panic != "" {
		return "a panic escaped: " + o.Panic, false
	}
	mv := reflect.New(t.Go())
	d := &spec.Decoder{}
	_, err := d.Run(t, in, little, mv.Elem())
	switch {
	case err == spec.ErrUnaligned:
		return "", false
	case err != nil && o.Err != nil:
		return "", false
	case err != nil:
		return fmt.Sprintf("%v, but it is accepted as %s\n bytes %x", err, o.Text, in), false
	case o.Err != nil:
		if strict {
			return fmt.Sprintf("the bytes spell %s but: %s\n bytes %x", spec.Dump(t, mv.Elem()), o.Text, in), false
		}
		return "", false
	}
	want, got := spec.Dump(t, mv.Elem()), spec.Dump(t, dest.Elem())
	if want == got {
		return "", false
	}
	b := &spec.Decoder{BuggyExtend: true}
	bv := reflect.New(t.Go())
	b.Run(t, in, little, bv.Elem())
	if b.Differs && spec.Dump(t, bv.Elem()) == got {
		return "", true
	}
	return fmt.Sprintf("decoded wrongly\n got  %s\n want %s\n bytes %x", got, want, in), false
}

// ---- C08

func genC08(r *spec.Rng, prop string, thorough bool) *Plan {
	p := &Plan{World: "store", MapSeed: r.U64(), Expr: r.P(3, 4)}
	o := storable(r, p.Expr)
	o.While = p.Expr && r.P(1, 4)
	p.Types = cousins(r, o, 1+r.N(2))
	n := 12 + r.N(20)
	v := []uint64{r.U64(), r.U64()}
	l := 1 + r.N(6)
	if r.P(1, 40) {
		l += spec.Huge
	}
	little := r.P(1, 2)
	var ops []Op
	for i := 0; i < n; i++ {
		op := Op{K: "unpack", T: r.N(len(p.Types)), V: v[r.N(2)], L: l, Little: little, Tail: r.N(2) * 20, Hooked: !o.Bits && r.P(1, 8)}
		if r.P(1, 3) {
			op.Dest = "again"
		}
		switch r.N(8) {
		case 0:
			op.Ex = "pads"
		case 1, 2:
			op.Ex = "controls"
		case 3:
			op.Ex = "leaf"
		case 4:
			op.Ex = "misdirected"
		}
		op.Env = r.U64()
		if op.Ex == "" {
			op.Edits = genEdits(r, 40, 4, true)
		}
		ops = append(ops, op)
	}
	p.Tasks = [][]Op{ops}
	return p
}

// aimed damages the bytes in a certain place.
func aimed(b []byte, spans []spec.Span, r *spec.Rng, want func(s spec.Span) bool, hard bool) ([]byte, bool) {
	out := append([]byte{}, b...)
	var at []spec.Span
	for _, s := range spans {
		if want(s) {
			at = append(at, s)
		}
	}
	if len(at) == 0 {
		return out, false
	}
	for k := 0; k < 1+r.N(2); k++ {
		s := at[r.N(len(at))]
		mode := r.N(5)
		if !hard && mode > 2 {
			mode = 2
		}
		for i := s.From; i < s.To; i++ {
			m := byte(0x80) >> uint(i%8)
			flip := r.P(1, 2)
			switch mode {
			case 0:
				flip = i == s.From+r.N(s.To-s.From)
			case 3: // all ones
				flip = out[i/8]&m == 0
			case 4: // the largest positive, or nearly
				flip = (out[i/8]&m == 0) != (i == s.From)
			}
			if flip {
				out[i/8] ^= m
			}
		}
	}
	return out, true
}

func runC08(p *Plan, rep *Report) {
	if len(p.Tasks) != 1 {
		skip()
	}
	fresh(p.Expr)
	c := newCtx(p)
	again := map[int]reflect.Value{}
	for i := range p.Tasks[0] {
		op := p.Tasks[0][i]
		if op.T >= len(p.Types) {
			skip()
		}
		t := p.Types[op.T]
		b, spans, err := spec.Encode(t, spec.Value(t, spec.NewRng(op.V), op.L), op.Little)
		if err != nil {
			continue
		}
		r := spec.NewRng(op.Env)
		in := b
		hit := true
		switch op.Ex {
		case "pads":
			in, hit = aimed(b, spans, r, func(s spec.Span) bool { return s.Pad }, true)
			rep.fault("padding damaged")
		case "controls":
			in, hit = aimed(b, spans, r, func(s spec.Span) bool { return s.Control }, true)
			rep.fault("controls damaged")
		case "leaf":
			in, hit = aimed(b, spans, r, func(s spec.Span) bool { return !s.Control && !s.Pad }, true)
			rep.fault("data damaged")
		case "misdirected":
			// Part of another record of the kind is stored there.
			o, _, err := spec.Encode(t, spec.Value(t, spec.NewRng(op.Env), op.L), op.Little)
			if err != nil || len(o) == 0 || len(b) == 0 {
				continue
			}
			in = append([]byte{}, b...)
			at := r.N(len(b))
			copy(in[at:], o[r.N(len(o)):])
			rep.fault("misdirected write")
		default:
			in = Apply(b, op.Edits)
			for _, e := range op.Edits {
				rep.fault("stored bytes: " + e.K)
			}
		}
		if !hit {
			continue
		}
		for k := 0; k < op.Tail; k++ {
			in = append(in, byte(0xa5+k))
		}
		in = in[: len(in)-op.Tail : len(in)]
		uop := op
		uop.Dest = ""
		dest := reflect.New(t.Go())
		if op.Dest == "again" {
			if d, ok := again[op.T]; ok {
				dest = d
			}
			again[op.T] = dest
		}
		if _, err := spec.Decode(t, b, op.Little, reflect.New(t.Go()).Elem()); err != nil {
			continue
		}
		before := ""
		if op.Ex == "pads" {
			if o, _ := c.runJob(&job{op: &uop, in: b, dest: dest.Interface(), destV: dest}, rep); o.Err == nil {
				before = o.Text
			}
		}
		o, _ := c.runJob(&job{op: &uop, in: in, dest: dest.Interface(), destV: dest}, rep)
		rep.Ops++
		rep.mix(o.Text)
		msg, known := spells(t, in, op.Little, dest, o, true)
		if known {
			rep.Known++
		}
		if msg == "" && o.Err == nil && op.Dest != "again" {
			if w := spec.Odd(t, dest.Elem()); w != "" {
				msg = "decoded as " + o.Text + ", but " + w
			}
		}
		if msg != "" {
			rep.fail("damage", "operation %d, %s: %s", i, show(&op), msg)
			return
		}
		if before != "" && o.Text != before {
			rep.fail("padding", "operation %d, %s: only padding was damaged\n got    %s\n before %s", i, show(&op), o.Text, before)
			return
		}
		if o.Text != "" && string(in) != string(b) {
			rep.Nontrivial = true
		}
	}
}

// ---- C09

func genC09(r *spec.Rng, prop string, thorough bool) *Plan {
	p := &Plan{World: "store", MapSeed: r.U64(), Expr: r.P(4, 5)}
	o := options(r, p.Expr, user.Plain)
	o.While = p.Expr && r.P(1, 3)
	o.Depth = 1 + r.N(2)
	v := r.U64()
	if p.Expr && r.P(1, 10) {
		// Many levels.
		p.Variant = "levels"
		n := 500 + r.N(500)
		op := Op{K: "unpack", Ex: user.DeepKinds[r.N(len(user.DeepKinds)-1)], L: n, Little: r.P(1, 2)}
		op2 := op
		op2.L = 2 * n
		p.Tasks = [][]Op{{op, op2}}
		return p
	}
	if r.P(1, 3) {
		// Many elements.
		p.Variant = "scale"
		e := &spec.T{K: r.Pick("uint8", "uint16", "int32", "bool", "struct", "struct", "struct")}
		if e.K == "struct" {
			o.While, o.Parent, o.Depth = false, r.P(1, 3), r.N(2)
			o.Static = nil
			if o.Bits {
				o.Custom = nil
			}
			e = spec.Gen(r, o)
		}
		t := &spec.T{K: "struct"}
		l := &spec.F{Name: "Ls", T: &spec.T{K: "slice", E: e}}
		switch k := r.N(4); {
		case k == 0 && p.Expr:
			l.While = &spec.Ex{Op: "un", Name: "!", A: &spec.Ex{Op: "eof"}}
		case k == 1 && p.Expr:
			t.F = append(t.F, &spec.F{Name: "Cn", T: &spec.T{K: r.Pick("uint16", "uint32", "int32", "int64")}, Max: 1})
			l.Size = &spec.Ex{Op: "id", Name: "Cn"}
		default:
			t.F = append(t.F, &spec.F{Name: "Cn", T: &spec.T{K: r.Pick("uint16", "uint32", "int32", "int64", "uint64")}, SizeOf: "Ls"})
		}
		if e.K == "uint8" && r.P(1, 2) && l.While == nil {
			l.T = &spec.T{K: "string"}
		}
		if p.Expr && r.P(1, 3) {
			// A list as long goes before it, which expressions refer to.
			t.F = []*spec.F{{Name: "Cn", T: &spec.T{K: r.Pick("uint16", "uint32", "int32", "int64")}, Max: 1}}
			f := &spec.F{Name: "Fs", T: &spec.T{K: "slice", E: &spec.T{K: r.Pick("uint8", "uint16", "int32")}}}
			f.Size = &spec.Ex{Op: "id", Name: "Cn"}
			if l.T.K == "string" {
				l.Size = f.Size
			} else {
				fs := &spec.Ex{Op: "idx", A: &spec.Ex{Op: "id", Name: "Fs"}, B: &spec.Ex{Op: "int", I: int64(r.N(150))}}
				l.Size, l.While = nil, &spec.Ex{Op: "&&", A: &spec.Ex{Op: "un", Name: "!", A: &spec.Ex{Op: "eof"}}, B: &spec.Ex{Op: "==", A: fs, B: fs}}
			}
			t.F = append(t.F, f)
		}
		t.F = append(t.F, l)
		n := 200 << uint(r.N(3))
		if l.T.K == "string" || e.K == "uint8" {
			// Bytes: there may be many, and more than a few at a time are
			// what readers have special ways for.
			n = 200 << uint(r.N(6))
		}
		if r.P(1, 3) && (e.K != "struct" || len(o.Custom) == 0) {
			// Nothing begins at the first bit of a byte.
			w := r.Range(1, 7)
			t.F = append([]*spec.F{{Name: "Bt", T: &spec.T{K: r.Pick("uint8", "uint16")}, Bits: w}}, t.F...)
		}
		p.Types = []*spec.T{t}
		op := Op{K: "unpack", V: v, L: n, Little: r.P(1, 2)}
		op2 := op
		op2.L = 2 * n
		if e.K != "struct" && r.P(1, 6) {
			// Very many.
			op.L, op2.L = 40000, 200000
			p.Tasks = [][]Op{{op, op2}}
			return p
		}
		op3 := op2
		op3.Ex, op3.Env = "controls", r.U64()
		p.Tasks = [][]Op{{op, op2, op3}}
		return p
	}
	p.Types = cousins(r, o, 1+r.N(2))
	var ops []Op
	l := 1 + r.N(6)
	if r.P(1, 4) {
		l = 40
	}
	little := r.P(1, 2)
	for i := 0; i < 8+r.N(12); i++ {
		op := Op{K: "unpack", T: r.N(len(p.Types)), V: v, L: l, Little: little, Env: r.U64(), Ex: "controls"}
		if i > 0 && r.P(1, 3) {
			op.Ex = ""
			op.Edits = genEdits(r, 40, 4, true)
		}
		if r.P(1, 4) {
			op.Cut = r.N(20)
		}
		if r.P(1, 4) {
			op.Dest = "again"
		}
		ops = append(ops, op)
	}
	p.Tasks = [][]Op{ops}
	return p
}

// many is a value of a scale layout with exactly n elements.
func many(t *spec.T, r *spec.Rng, n int) reflect.Value {
	v := reflect.New(t.Go()).Elem()
	for i, f := range t.F {
		switch l := v.Field(i); {
		case f.Bits > 0:
			l.SetUint(r.U64() & (1<<uint(f.Bits) - 1))
		case l.Kind() == reflect.String:
			b := make([]byte, n)
			for i := range b {
				b[i] = byte('a' + i%26)
			}
			l.SetString(string(b))
		case l.Kind() == reflect.Slice:
			s := reflect.MakeSlice(l.Type(), n, n)
			for i := 0; i < n; i++ {
				s.Index(i).Set(spec.Value(f.T.E, r, 3))
			}
			l.Set(s)
		case l.CanInt():
			l.SetInt(int64(n))
		default:
			l.SetUint(uint64(n))
		}
	}
	return v
}

// What decoding may cost. The factors are about ten times what was observed.
const (
	stepsPerOp = 5000
	maxRoom    = int64(512 << 20) // all an operation may allocate here
	bytesPerOp = 4000
)

type cost struct{ steps, alloc, single int64 }

// metered runs a job and tells what it costs.
func (c *ctx) metered(j *job, rep *Report, steps, alloc int64) (*Out, cost) {
	j.bind(c.p)
	o := &Out{}
	var k cost
	s := singleIn(c.p.MapSeed, budget+steps, rep, func(t *simrt.Task, ctl *user.Ctl) {
		t.SetLimits(steps, alloc)
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		o = j.quiet(ctl)
		runtime.ReadMemStats(&b)
		k = cost{o.Steps, int64(b.TotalAlloc - a.TotalAlloc), o.Make}
	})
	if !o.Done {
		o.Text = fmt.Sprintf("DID NOT COMPLETE (deadlock %v, overrun %v)", s.Deadlock, s.Overrun)
	}
	return o, k
}

// elemSize is the size of the largest element of a list.
func elemSize(t *spec.T) int64 {
	big := int64(16)
	see := func(t *spec.T) {
		for ; t != nil; t = t.E {
			if t.K == "slice" && t.E != nil {
				if n := int64(t.E.Go().Size()); n > big {
					big = n
				}
			}
		}
	}
	see(t)
	t.Fields(func(f *spec.F) { see(f.T) })
	return big
}

// runLevels decodes records that nest deeply: twice as deep may take twice as
// much.
func runLevels(p *Plan, rep *Report) {
	c := newCtx(p)
	var first cost
	for i := range p.Tasks[0] {
		op := &p.Tasks[0][i]
		if op.L < 1 || op.L > shallow {
			skip()
		}
		var ord binary.ByteOrder = binary.BigEndian
		if op.Little {
			ord = binary.LittleEndian
		}
		in := user.DeepInput(op.Ex, op.L)
		var k cost
		var err error
		done := false
		s := singleIn(c.p.MapSeed, 10*budget, rep, func(t *simrt.Task, ctl *user.Ctl) {
			// The process has met the type.
			restruct.Unpack(user.DeepInput(op.Ex, 2), ord, user.DeepDest(op.Ex))
			var a, b runtime.MemStats
			steps := t.Steps()
			runtime.ReadMemStats(&a)
			err = restruct.Unpack(in, ord, user.DeepDest(op.Ex))
			runtime.ReadMemStats(&b)
			k = cost{t.Steps() - steps, int64(b.TotalAlloc - a.TotalAlloc), 0}
			done = true
		})
		rep.Ops++
		rep.fault("deeply nested input")
		rep.Nontrivial = true
		rep.mix(fmt.Sprint(op.Ex, op.L, err))
		what := fmt.Sprintf("operation %d, %s: a record of %d levels", i, show(op), op.L)
		switch {
		case !done:
			rep.fail("unbounded", "%s: did not complete (deadlock %v, overrun %v)", what, s.Deadlock, s.Overrun)
		case err != nil:
			rep.fail("refused", "%s: %v", what, err)
		case i == 0:
			first = k
			rep.max("steps per level", k.steps/int64(op.L))
			rep.max("bytes allocated per level", k.alloc/int64(op.L))
		default:
			f := float64(op.L) / float64(p.Tasks[0][0].L)
			s := float64(k.steps) / float64(first.steps+2000)
			a := float64(k.alloc) / float64(first.alloc+65536)
			rep.max("growth of steps against levels, percent", int64(100*s/f))
			rep.max("growth of bytes against levels, percent", int64(100*a/f))
			if f > 1 && (s > 1.6*f || a > 1.6*f) {
				rep.fail("growth", "%s: with %.2f times the levels it takes %.2f times the steps and %.2f times the memory", what, f, s, a)
			}
		}
		if rep.Violation != "" {
			return
		}
	}
}

func runC09(p *Plan, rep *Report) {
	if len(p.Tasks) != 1 {
		skip()
	}
	if p.Variant == "levels" {
		fresh(p.Expr)
		runLevels(p, rep)
		return
	}
	fresh(p.Expr)
	c := newCtx(p)
	again := map[int]reflect.Value{}
	var first cost
	var firstOps int64
	for i := range p.Tasks[0] {
		op := p.Tasks[0][i]
		if op.T >= len(p.Types) {
			skip()
		}
		t := p.Types[op.T]
		var v reflect.Value
		if p.Variant == "scale" {
			if len(t.F) == 0 || t.F[len(t.F)-1].Name != "Ls" {
				skip()
			}
			v = many(t, spec.NewRng(op.V), op.L)
		} else {
			v = spec.Value(t, spec.NewRng(op.V), op.L)
		}
		b, spans, err := spec.Encode(t, v, op.Little)
		if err != nil {
			continue
		}
		uop := op
		uop.Dest, uop.Edits = "", nil
		dest := reflect.New(t.Go())
		if i == 0 {
			// The process has met the type.
			c.runJob(&job{op: &uop, in: b, dest: dest.Interface(), destV: dest}, rep)
			dest = reflect.New(t.Go())
		}
		in := b
		if op.Ex == "controls" {
			var hit bool
			if in, hit = aimed(b, spans, spec.NewRng(op.Env), func(s spec.Span) bool { return s.Control }, true); hit {
				rep.fault("controls damaged")
			}
		}
		if op.Edits != nil {
			in = Apply(in, op.Edits)
			rep.fault("stored bytes damaged")
		}
		if op.Cut > 0 && len(in) > op.Cut {
			in = in[:len(in)-op.Cut]
			rep.fault("input cut")
		}
		d := &spec.Decoder{Late: true}
		mv := reflect.New(t.Go())
		_, merr := d.Run(t, in, op.Little, mv.Elem())
		if d.Ops > 300000 || merr == spec.ErrUnaligned {
			continue
		}
		if 3*8*int64(len(in)+8)*elemSize(t) > maxRoom {
			// What may be allocated ahead for such wide elements is more
			// than there is room for here.
			continue
		}
		ops := int64(d.Ops + t.Nodes() + len(in) + 8)
		if op.Dest == "again" {
			if d, ok := again[op.T]; ok {
				dest = d
			}
			again[op.T] = dest
		}
		o, k := c.metered(&job{op: &uop, in: in, dest: dest.Interface(), destV: dest}, rep, stepsPerOp*ops+100000, maxRoom)
		rep.Ops++
		rep.mix(fmt.Sprint(o.Done, o.Err != nil, len(in), merr != nil))
		if string(in) != string(b) {
			rep.Nontrivial = true
		}
		what := fmt.Sprintf("operation %d, %s: %d bytes of input (about %d parts)", i, show(&op), len(in), ops)
		rep.max("steps per part", k.steps/ops)
		rep.max("bytes allocated per part", k.alloc/ops)
		limit := 2*8*(int64(len(in))+8)*elemSize(t) + 4096
		switch {
		case o.Panic != "":
			rep.fail("escaped panic", "%s: a panic escaped: %s", what, o.Panic)
		case !o.Done:
			rep.fail("unbounded", "%s: ended after %d steps and one request of %d bytes: %s", what, o.Steps, o.Make, o.Text)
		case k.steps > stepsPerOp*ops:
			rep.fail("steps", "%s: takes %d steps", what, k.steps)
		case k.single > limit:
			rep.fail("make", "%s: asks for %d bytes at once", what, k.single)
		case k.alloc > bytesPerOp*ops+2*limit+65536:
			rep.fail("alloc", "%s: allocates %d bytes", what, k.alloc)
		}
		if rep.Violation != "" {
			return
		}
		sound := string(in) == string(b)
		if p.Variant == "scale" && firstOps == 0 {
			if sound {
				first, firstOps = k, ops
			}
		} else if p.Variant == "scale" {
			// Twice as much takes twice as long, not four times.
			f := float64(ops) / float64(firstOps)
			s := float64(k.steps) / float64(first.steps+2000)
			a := float64(k.alloc) / float64(first.alloc+65536)
			if sound {
				rep.max("growth of steps against parts, percent", int64(100*s/f))
				rep.max("growth of bytes against parts, percent", int64(100*a/f))
			}
			if f > 1 && sound && (s > 1.6*f || a > 1.9*f) {
				rep.fail("growth", "%s: with %.2f times the parts it takes %.2f times the steps and %.2f times the memory", what, f, s, a)
				return
			}
		}
	}
}

// ---- C16

func genC16(r *spec.Rng, prop string, thorough bool) *Plan {
	p := &Plan{World: "store", MapSeed: r.U64(), Expr: true}
	p.Types = []*spec.T{spec.Static("png.File")}
	p.Variant = r.Pick("cut", "damage", "damage", "damage")
	v := r.U64()
	l := r.N(7)
	most := 12
	if r.P(1, 12) {
		l = longPNG + 1 + r.N(3)
		most = 3
	}
	var ops []Op
	for i := 0; i < most; i++ {
		op := Op{K: "unpack", V: v, L: l, Dest: r.Pick("", "again")}
		if i > 0 && p.Variant == "damage" {
			switch r.N(4) {
			case 0:
				op.Ex = "lengths"
			case 1:
				op.Ex = "kinds"
			default:
				op.Edits = genEdits(r, 200, 4, true)
			}
			op.Env = r.U64()
			if r.P(1, 6) {
				op.Cut = r.N(40)
			}
		}
		ops = append(ops, op)
		if p.Variant == "cut" {
			break
		}
	}
	p.Tasks = [][]Op{ops}
	return p
}

// longPNG added to a number of chunks asks for a long one.
const longPNG = 50

// pngFile makes a file, and tells where the chunks begin.
func pngFile(r *spec.Rng, n int) ([]byte, []int) {
	b := []byte{0x89, 'P', 'N', 'G', '\r', '\n', 0x1a, '\n'}
	var at []int
	chunk := func(kind string, data []byte) {
		at = append(at, len(b))
		var h [4]byte
		binary.BigEndian.PutUint32(h[:], uint32(len(data)))
		b = append(b, h[:]...)
		b = append(b, kind...)
		b = append(b, data...)
		binary.BigEndian.PutUint32(h[:], uint32(r.U64()))
		b = append(b, h[:]...)
	}
	bytes := func(n int) []byte {
		d := make([]byte, n)
		for i := range d {
			d[i] = byte(r.U64())
		}
		return d
	}
	chunk("IHDR", bytes(13))
	long := -1
	if n >= longPNG {
		// One of them is longer than usual.
		if n -= longPNG; n == 0 {
			n = 1
		}
		long = r.N(n)
	}
	for i := 0; i < n; i++ {
		size := r.N(12)
		if r.P(1, 8) {
			size = 100 + r.N(400)
		}
		if i == long {
			size = 1<<16 + r.N(1<<14)
		}
		switch r.N(6) {
		case 0, 1:
			chunk("IDAT", bytes(size))
		case 2:
			chunk(string(bytes(4)), bytes(size))
			if k := string(b[at[len(at)-1]+4 : at[len(at)-1]+8]); bad(k) {
				copy(b[at[len(at)-1]+4:], "zzZz")
			}
		default:
			chunk(r.Pick("PLTE", "tEXt", "gAMA", "IHDr", "IDA ", "iEND", "pHYs"), bytes(size))
		}
	}
	chunk("IEND", nil)
	if r.P(1, 6) {
		chunk("tEXt", bytes(r.N(9)))
	}
	return b, at
}

// bad tells whether a chunk cannot be called that way.
func bad(k string) bool {
	for i := range k {
		if k[i] == 0 {
			return true
		}
	}
	return k == "IHDR" || k == "IEND"
}

func runC16(p *Plan, rep *Report) {
	if len(p.Tasks) != 1 || len(p.Types) != 1 {
		skip()
	}
	t := p.Types[0]
	c := newCtx(p)
	again := reflect.New(t.Go())
	fresh(true)
	one := func(what string, b, in []byte, op Op, sound bool) bool {
		uop := op
		uop.Dest, uop.Little = "", false
		dest := reflect.New(t.Go())
		if op.Dest == "again" {
			dest = again
		}
		full := in[:len(in):len(in)]
		if op.Cut > 0 && op.Cut <= len(in) {
			// The rest may lie behind.
			full = in[:len(in)-op.Cut]
			rep.fault("file cut")
		}
		d := &spec.Decoder{Late: true}
		d.Run(t, full, false, reflect.New(t.Go()).Elem())
		ops := int64(d.Ops + len(full) + 40)
		o, k := c.metered(&job{op: &uop, in: full, dest: dest.Interface(), destV: dest}, rep, stepsPerOp*ops+100000, maxRoom)
		rep.Ops++
		if o.Done && o.Panic == "" && o.Err == nil {
			o.Text = "value " + spec.Dump(t, dest.Elem())
		}
		rep.mix(o.Text)
		rep.max("steps per part", k.steps/ops)
		rep.max("bytes allocated per part", k.alloc/ops)
		if msg, _ := spells(t, full, false, dest, o, true); msg != "" {
			rep.fail("png", "%s, %s: %s", what, show(&op), msg)
			return false
		}
		if k.steps > stepsPerOp*ops || k.alloc > bytesPerOp*ops+65536 || k.single > int64(2*8*(len(full)+8))*elemSize(t)+4096 {
			rep.fail("work", "%s, %s: a file of %d bytes (about %d parts) takes %d steps, allocates %d bytes, %d at once", what, show(&op), len(full), ops, k.steps, k.alloc, k.single)
			return false
		}
		if o.Err != nil {
			if sound {
				rep.fail("sound", "%s: a sound file is rejected: %s\n bytes %x", what, o.Text, in)
			}
			rep.Nontrivial = true
			return !sound
		}
		// Written again it is the same.
		mv := reflect.New(t.Go())
		if _, err := spec.Decode(t, full, false, mv.Elem()); err != nil {
			return true
		}
		want, _, err := spec.Encode(t, mv.Elem(), false)
		if err != nil {
			return true
		}
		if sound {
			want = in
		}
		po, _ := c.runJob(&job{op: &Op{K: "pack"}, v: dest}, rep)
		if po.Err != nil || !po.Done || po.Panic != "" || string(po.Data) != string(want) {
			rep.fail("rewritten", "%s, %s: written again it differs\n got  %s\n want bytes %x", what, show(&op), po.Text, want)
			return false
		}
		so, _ := c.runJob(&job{op: &Op{K: "sizeof"}, v: dest}, rep)
		if so.Err != nil || so.Size != len(want) {
			rep.fail("size", "%s, %s: %d bytes, but the size is: %s", what, show(&op), len(want), so.Text)
			return false
		}
		return true
	}
	for i := range p.Tasks[0] {
		op := p.Tasks[0][i]
		b, at := pngFile(spec.NewRng(op.V), op.L)
		in := b
		r := spec.NewRng(op.Env)
		sound := false
		switch {
		case op.Ex == "lengths":
			in = append([]byte{}, b...)
			k := at[r.N(len(at))]
			switch r.N(4) {
			case 0:
				in[k+3] += byte(1 + r.N(255))
			case 1:
				copy(in[k:], []byte{0xff, 0xff, 0xff, 0xff})
			case 2:
				copy(in[k:], []byte{0x7f, 0xff, 0xff, byte(r.U64())})
			default:
				in[k+r.N(4)] ^= byte(1 << uint(r.N(8)))
			}
			rep.fault("length damaged")
			rep.Nontrivial = true
		case op.Ex == "kinds":
			in = append([]byte{}, b...)
			k := at[r.N(len(at))]
			if r.P(1, 2) {
				copy(in[k+4:], r.Pick("IHDR", "IDAT", "IEND", "ABCD", "A\x00CD", "\x00\x00\x00\x00"))
			} else {
				in[k+4+r.N(4)] ^= byte(1 << uint(r.N(8)))
			}
			rep.fault("kind damaged")
			rep.Nontrivial = true
		case len(op.Edits) > 0:
			in = Apply(b, op.Edits)
			for _, e := range op.Edits {
				rep.fault("stored bytes: " + e.K)
			}
			rep.Nontrivial = true
		default:
			sound = op.Cut == 0
		}
		if !one(fmt.Sprintf("operation %d", i), b, in, op, sound) {
			return
		}
		if p.Variant == "cut" && op.Cut == 0 {
			var cuts []int
			for n := 1; n <= len(in); n++ {
				cuts = append(cuts, n)
			}
			rng := spec.NewRng(p.Seed ^ 0xc16)
			most := 250
			if op.L >= longPNG {
				most = 12
			}
			for len(cuts) > most {
				k := rng.N(len(cuts))
				cuts = append(cuts[:k], cuts[k+1:]...)
			}
			for _, n := range cuts {
				cop := op
				cop.Cut = n
				if !one("cut", b, in, cop, false) {
					rep.Pin = p.Clone()
					rep.Pin.Tasks[0] = []Op{cop}
					return
				}
			}
		}
	}
}
