package worlds

import (
	"fmt"
	"reflect"

	"verif.sim/simrt"
	"verif.sim/spec"
	"verif.sim/user"
)

// The net world: messages arrive in pieces, late, again, or not at all, and a
// receiver keeps trying to unpack what it has.

func init() {
	worldOf["C10"] = world{genC10, runC10}
}

// NetStep is one event of a connection.
type NetStep struct {
	Conn   int          `json:"c"`
	K      string       `json:"k"` // send, deliver, retry, disconnect
	N      int          `json:"n,omitempty"`
	Faults []user.Fault `json:"faults,omitempty"`
}

// Receivers: how the buffer and the destination are used.
var receivers = []string{"slide", "compact", "exact", "pooled"}

func genC10(r *spec.Rng, prop string, thorough bool) *Plan {
	p := &Plan{World: "net", MapSeed: r.U64(), Expr: r.P(3, 4)}
	o := storable(r, p.Expr)
	p.Types = cousins(r, o, 1+r.N(3))
	conns := 1 + r.N(3)
	p.Variant = r.Pick(receivers...) + " " + r.Pick("same", "same", "fresh", "first")
	little := r.P(1, 2)
	fault := func() []user.Fault {
		return []user.Fault{{At: 1 + r.N(5), Mode: r.Pick(append(append([]string{}, user.ErrModes...), user.PanicModes...)...)}}
	}
	for c := 0; c < conns; c++ {
		var ops []Op
		n := 3 + r.N(8)
		if thorough {
			n += r.N(20)
		}
		for i := 0; i < n; i++ {
			op := Op{K: "pack", T: r.N(len(p.Types)), V: r.U64(), L: 1 + r.N(5), Little: little, Dirty: r.P(1, 6), ByVal: r.P(1, 6), Hooked: !o.Bits && r.P(1, 8)}
			if r.P(1, 5) {
				op.Faults = fault()
			}
			ops = append(ops, op)
		}
		p.Tasks = append(p.Tasks, ops)
		m := 6 + r.N(30)
		if thorough {
			m += r.N(60)
		}
		size := []int{1, 2, 5, 20, 100}[r.N(5)]
		for i := 0; i < m; i++ {
			s := NetStep{Conn: c}
			switch k := r.N(20); {
			case k < 4:
				s.K, s.N = "send", 1+r.N(3)
			case k < 15:
				s.K, s.N = "deliver", 1+r.N(size)
			case k < 18:
				s.K = "retry"
			default:
				s.K = "disconnect"
			}
			if (s.K == "deliver" || s.K == "retry") && r.P(1, 4) {
				s.Faults = fault()
			}
			p.Net = append(p.Net, s)
		}
	}
	p.Policy = policy(r, conns, 500+int64(r.N(8000)))
	return p
}

type conn struct {
	p     *Plan
	rep   *Report
	c     *ctx
	ops   []Op
	ctl   *user.Ctl
	id    int
	want  []string
	model [][]byte

	sent int    // messages handed to the connection since it was made
	wire []byte // sent, not delivered
	lens []int  // of all that was ever sent, by number

	store []byte // the receiver's buffer
	at, n int    // what of it is to be decoded
	got   int    // messages received
	dests map[int]reflect.Value
	kept  []kept
	tries int // failed attempts at the current message
	bad   bool
}

type kept struct {
	v reflect.Value
	n int
}

func (c *conn) fail(class, format string, a ...interface{}) {
	c.bad = true
	c.rep.fail(class, "connection %d: %s", c.id, fmt.Sprintf(format, a...))
}

// send packs the next message.
func (c *conn) send() {
	if c.sent >= len(c.ops) {
		return
	}
	op := c.ops[c.sent]
	j := c.c.prepare(&op)
	j.bind(c.p)
	o := j.do(c.ctl)
	c.rep.Ops++
	if o.Err != nil && len(c.ctl.Fired) > 0 {
		c.rep.fault("codec fault while packing")
		op.Faults = nil
		o = j.do(c.ctl)
	}
	if o.Err != nil || o.Panic != "" {
		c.fail("send", "message %d cannot be packed: %s\n%s", c.sent, show(&op), o.Text)
		return
	}
	if n := len(o.Data); c.sent < len(c.lens) && c.lens[c.sent] != n {
		c.fail("resend", "message %d took %d bytes, and %d when sent again: %s", c.sent, c.lens[c.sent], n, show(&op))
		return
	} else if c.sent == len(c.lens) {
		c.lens = append(c.lens, n)
	} else {
		c.rep.fault("resend")
	}
	c.wire = append(c.wire, o.Data...)
	c.sent++
}

// arrive puts bytes behind those that wait to be decoded.
func (c *conn) arrive(n int) {
	if n > len(c.wire) {
		n = len(c.wire)
	}
	in := c.wire[:n]
	c.wire = c.wire[n:]
	switch c.p.Variant[:4] {
	case "slid": // the buffer grows at its end
		c.store = append(c.store[:c.at+c.n], in...)
	case "comp": // what waits moves to the front, the old bytes stay behind it
		copy(c.store[:cap(c.store)], c.store[c.at:c.at+c.n])
		c.at = 0
		c.store = append(c.store[:c.n], in...)
	case "exac": // a new buffer, as long as what is in it
		b := make([]byte, 0, c.n+n)
		b = append(append(b, c.store[c.at:c.at+c.n]...), in...)
		c.store, c.at = b, 0
	default: // one of two buffers in turn; the other one is scribbled over
		b := make([]byte, c.n+n, c.n+n+16)
		copy(b, c.store[c.at:c.at+c.n])
		copy(b[c.n:], in)
		old := c.store[:cap(c.store)]
		for i := range old {
			old[i] ^= 0xa7
		}
		c.store, c.at = b, 0
	}
	c.n += n
}

func (c *conn) disconnect() {
	if c.n > 0 || len(c.wire) > 0 {
		c.rep.fault("disconnect losing bytes")
	} else {
		c.rep.fault("disconnect")
	}
	c.wire = nil
	c.sent = c.got
	c.at, c.n = 0, 0
	if c.p.Variant[:4] != "comp" {
		c.store = nil
	}
	c.store = c.store[:0]
}

// receive decodes what is there.
func (c *conn) receive(faults []user.Fault) {
	for !c.bad && c.got < len(c.ops) {
		op := &c.ops[c.got]
		t := c.p.Types[op.T]
		in := c.store[c.at : c.at+c.n]
		whole := c.got < len(c.lens) && c.n >= c.lens[c.got]
		dest, ok := c.dests[op.T]
		switch mode := c.p.Variant[len(c.p.Variant)-4:]; {
		case !ok || mode == "resh" || mode == "irst" && c.tries == 0:
			dest = reflect.New(t.Go())
			c.dests[op.T] = dest
		}
		before := append([]byte{}, in...)
		u := Op{K: "unpack", T: op.T, Little: op.Little, Hooked: op.Hooked, Faults: faults}
		j := &job{op: &u, in: in, dest: dest.Interface(), destV: dest}
		j.bind(c.p)
		o := j.quiet(c.ctl)
		c.rep.Ops++
		fired := len(c.ctl.Fired) > 0
		faults = nil
		if string(before) != string(in) {
			c.fail("input", "message %d: unpacking altered the buffer", c.got)
			return
		}
		if o.Panic != "" {
			c.fail("panic", "message %d: %s", c.got, o.Panic)
			return
		}
		if o.Err != nil {
			c.tries++
			if fired {
				c.rep.fault("codec fault while unpacking")
			}
			if whole && !fired {
				c.fail("stuck", "message %d is there in full but attempt %d fails: %s\n bytes %x", c.got, c.tries, o.Text, in[:c.lens[c.got]])
			}
			if !whole {
				c.rep.fault("attempt before the message is complete")
				c.rep.Nontrivial = true
			}
			return
		}
		got := spec.Dump(t, dest.Elem())
		if !whole {
			c.fail("early", "message %d (%x) is accepted when only %x is there: %s", c.got, c.model[c.got], in, got)
			return
		}
		n := c.lens[c.got]
		known := false
		if got != c.want[c.got] {
			d := &spec.Decoder{BuggyExtend: true}
			bv := reflect.New(t.Go())
			d.Run(t, in, op.Little, bv.Elem())
			if !d.Differs || spec.Dump(t, bv.Elem()) != got {
				c.fail("value", "message %d after %d failed attempts is\n got  %s\n want %s\n bytes %x", c.got, c.tries, got, c.want[c.got], in[:n])
				return
			}
			known = true
			c.rep.Known++
		}
		sj := &job{op: &Op{K: "sizeof", T: op.T}, v: dest}
		sj.bind(c.p)
		so := sj.do(c.ctl)
		if so.Err != nil || so.Panic != "" || so.Size != n {
			c.fail("size", "message %d took %d bytes, but the size of what was decoded is: %s\n value %s", c.got, n, so.Text, got)
			return
		}
		c.check()
		if c.bad {
			return
		}
		if c.p.Variant[len(c.p.Variant)-4:] != "same" && !known {
			c.kept = append(c.kept, kept{dest, c.got})
			delete(c.dests, op.T)
		} else if !known && !inPlace(t) {
			// The destination is used again: the receiver hands on what is in
			// it, in a value of its own.
			own := reflect.New(t.Go())
			own.Elem().Set(dest.Elem())
			c.kept = append(c.kept, kept{own, c.got})
		}
		c.rep.max("failed attempts before a message", int64(c.tries))
		c.rep.max("messages received", int64(c.got+1))
		c.tries = 0
		c.got++
		c.at += so.Size
		c.n -= so.Size
	}
}

// check looks whether the messages kept are what they were.
func (c *conn) check() {
	for _, k := range c.kept {
		t := c.p.Types[c.ops[k.n].T]
		if now := spec.Dump(t, k.v.Elem()); now != c.want[k.n] {
			c.fail("kept", "message %d changed later\n now  %s\n then %s", k.n, now, c.want[k.n])
			return
		}
	}
}

func (c *conn) run(steps []NetStep) {
	for i := range steps {
		s := &steps[i]
		if c.bad {
			return
		}
		switch s.K {
		case "send":
			for k := 0; k < s.N && !c.bad; k++ {
				c.send()
			}
		case "deliver":
			c.arrive(s.N)
			c.receive(s.Faults)
		case "retry":
			c.rep.fault("stall")
			c.receive(s.Faults)
		case "disconnect":
			c.disconnect()
		}
	}
	// The faults stop.
	for !c.bad && c.sent < len(c.ops) {
		c.send()
	}
	c.arrive(1)
	c.receive(nil)
	c.arrive(len(c.wire))
	c.receive(nil)
	if c.bad {
		return
	}
	if c.got != len(c.ops) || c.n != 0 {
		c.fail("missing", "%d of %d messages received, %d bytes over, when all is delivered", c.got, len(c.ops), c.n)
		return
	}
	c.check()
}

func runC10(p *Plan, rep *Report) {
	if len(p.Tasks) == 0 {
		skip()
	}
	conns := make([]*conn, len(p.Tasks))
	c := newCtx(p)
	for i, ops := range p.Tasks {
		cn := &conn{p: p, rep: rep, c: c, ops: ops, ctl: &user.Ctl{}, id: i, dests: map[int]reflect.Value{}}
		for k := range ops {
			op := &ops[k]
			if op.T >= len(p.Types) {
				skip()
			}
			t := p.Types[op.T]
			v := reflect.New(t.Go())
			v.Elem().Set(spec.Value(t, spec.NewRng(op.V), op.L))
			b, _, err := spec.Encode(t, v.Elem(), op.Little)
			if err != nil || !delimited(t, b, op.Little) {
				skip()
			}
			cn.want = append(cn.want, spec.Dump(t, v.Elem()))
			cn.model = append(cn.model, b)
		}
		conns[i] = cn
	}
	fresh(p.Expr)
	s := simrt.New(p.Policy, p.MapSeed, budget)
	for i := range conns {
		cn := conns[i]
		var steps []NetStep
		for _, st := range p.Net {
			if st.Conn == i {
				steps = append(steps, st)
			}
		}
		s.Add(cn.ctl, func() { cn.run(steps) })
	}
	s.Run()
	rep.Steps += s.Steps()
	rep.Runs++
	rep.Switches += s.Switches
	rep.Hot += s.HotSwitch
	rep.Hash = spec.Mix(rep.Hash ^ s.Hash())
	rep.Trace = s.Trace()
	for _, cn := range conns {
		for _, w := range cn.want {
			rep.mix(w)
		}
		rep.mix(fmt.Sprint(cn.lens, cn.got))
		if !cn.bad && cn.got != len(cn.ops) {
			rep.fail("incomplete", "connection %d did not come to its end: message %d (deadlock %v, overrun %v)", cn.id, cn.got, s.Deadlock, s.Overrun)
		}
	}
}

// delimited tells whether the end of the encoding can be told from itself: no
// part of it means anything to one who reads it alone.
func delimited(t *spec.T, b []byte, little bool) bool {
	if len(b) == 0 {
		return false
	}
	for n := 0; n < len(b); n++ {
		if n > 64 && n < len(b)-64 && n%7 != 0 {
			continue
		}
		v := reflect.New(t.Go())
		if _, err := spec.Decode(t, b[:n:n], little, v.Elem()); err == nil || err == spec.ErrUnaligned {
			return false
		}
	}
	return true
}
