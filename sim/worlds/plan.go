// Package worlds holds the simulated worlds: what the tasks do, which faults
// are injected, and what must hold.
package worlds

import (
	"encoding/json"
	"fmt"

	"verif.sim/simrt"
	"verif.sim/spec"
	"verif.sim/user"
)

// Plan is one simulated execution, complete: running it again gives the same.
type Plan struct {
	Prop    string       `json:"property"`
	World   string       `json:"world"`
	Seed    uint64       `json:"seed"`
	Variant string       `json:"variant,omitempty"`
	Types   []*spec.T    `json:"types,omitempty"`
	Expr    bool         `json:"expr,omitempty"`
	MapSeed uint64       `json:"mapseed"`
	Policy  simrt.Policy `json:"policy"`
	Warm    []Op         `json:"warm,omitempty"`  // what the process has done before
	Tasks   [][]Op       `json:"tasks,omitempty"` // what the tasks do
	Fault   *user.Fault  `json:"fault,omitempty"` // the one fault to inject, instead of enumerating
	Disk    *DiskPlan    `json:"disk,omitempty"`
	Net     []NetStep    `json:"net,omitempty"`
	Text    *TextPlan    `json:"text,omitempty"`
	Note    string       `json:"note,omitempty"`
}

// Op is one operation of a task.
type Op struct {
	K      string       `json:"k"`           // pack, unpack, sizeof, bitsize, eval, evalp, typeof, enable, restart
	T      int          `json:"t,omitempty"` // type
	V      uint64       `json:"v,omitempty"` // seed of the value
	L      int          `json:"l,omitempty"` // longest list
	Little bool         `json:"little,omitempty"`
	Hooked bool         `json:"hooked,omitempty"` // byte order that calls back
	ByVal  bool         `json:"byval,omitempty"`  // pass the value, not a pointer
	Dest   string       `json:"dest,omitempty"`   // unpack into: "", nilptr, value, nil, int, slice, ptrptr
	Cut    int          `json:"cut,omitempty"`    // bytes missing at the end
	Edits  []Edit       `json:"edits,omitempty"`
	Tail   int          `json:"tail,omitempty"` // stale bytes behind the input, in its capacity
	Faults []user.Fault `json:"faults,omitempty"`
	Ex     string       `json:"ex,omitempty"`
	Env    uint64       `json:"env,omitempty"`
	Res    int          `json:"res,omitempty"`
	Shared bool         `json:"shared,omitempty"` // the value is shared with other tasks
	Inner  []Op         `json:"inner,omitempty"`  // done in the middle, by Probe codecs
	Dirty  bool         `json:"dirty,omitempty"`  // count fields are out of date
	Odd    bool         `json:"odd,omitempty"`    // the value has parts missing or of the wrong length
	Rep    int          `json:"rep,omitempty"`    // how often it is done, if more than once
	Src    int          `json:"src,omitempty"`    // the input is the encoding of another type: its number plus one
}

// Edit damages stored bytes. Positions are taken modulo the length.
type Edit struct {
	K  string `json:"k"` // flip, set, dup, zero, drop, ins
	At int    `json:"at"`
	N  int    `json:"n,omitempty"`
	B  byte   `json:"b,omitempty"`
}

// Apply damages the bytes.
func Apply(b []byte, edits []Edit) []byte {
	out := append([]byte{}, b...)
	for _, e := range edits {
		if len(out) == 0 {
			break
		}
		switch e.K {
		case "flip":
			at := e.At % (8 * len(out))
			out[at/8] ^= 0x80 >> uint(at%8)
		case "set":
			out[e.At%len(out)] = e.B
		case "zero":
			at := e.At % len(out)
			for i := at; i < len(out) && i < at+e.N; i++ {
				out[i] = 0
			}
		case "dup": // a sector is stored where its neighbour belongs
			at := e.At % len(out)
			src := at - e.N
			for i := 0; i < e.N; i++ {
				if src+i >= 0 && at+i < len(out) {
					out[at+i] = out[src+i]
				}
			}
		case "drop":
			at := e.At % len(out)
			end := at + e.N
			if end > len(out) {
				end = len(out)
			}
			out = append(out[:at:at], out[end:]...)
		case "ins":
			at := e.At % len(out)
			mid := make([]byte, e.N)
			for i := range mid {
				mid[i] = e.B
			}
			out = append(append(out[:at:at], mid...), out[at:]...)
		}
	}
	return out
}

func genEdits(r *spec.Rng, n, max int, resize bool) []Edit {
	var out []Edit
	for i := 0; i < 1+r.N(max); i++ {
		switch k := r.N(10); {
		case k < 5:
			out = append(out, Edit{K: "flip", At: r.N(8*n + 1)})
		case k < 7:
			b := byte(r.U64())
			if r.P(1, 2) {
				b = []byte{0, 0xff, 0x7f, 0x80, 1}[r.N(5)]
			}
			out = append(out, Edit{K: "set", At: r.N(n + 1), B: b})
		case k == 7:
			out = append(out, Edit{K: "zero", At: r.N(n + 1), N: 1 + r.N(8)})
		case k == 8 && resize:
			out = append(out, Edit{K: r.Pick("drop", "ins"), At: r.N(n + 1), N: 1 + r.N(4), B: byte(r.U64())})
		default:
			out = append(out, Edit{K: "dup", At: r.N(n + 1), N: 1 + r.N(8)})
		}
	}
	return out
}

// Report is what happened.
type Report struct {
	Violation  string           `json:"violation,omitempty"`
	Class      string           `json:"class,omitempty"`
	Steps      int64            `json:"steps"`
	Runs       int              `json:"runs"` // simulated executions
	Ops        int              `json:"ops"`
	Switches   int64            `json:"switches"`
	Hot        int64            `json:"hot"`
	Hash       uint64           `json:"hash"`
	Faults     map[string]int   `json:"faults,omitempty"`
	Nontrivial bool             `json:"nontrivial"`
	Known      int              `json:"known,omitempty"`
	Trace      []simrt.Switch   `json:"trace,omitempty"`
	Fault      *user.Fault      `json:"fault,omitempty"`
	Max        map[string]int64 `json:"max,omitempty"`
	Skip       bool             `json:"skip,omitempty"` // the plan makes no sense
	Pin        *Plan            `json:"pin,omitempty"`  // a more specific plan that shows the violation
}

func (r *Report) fault(kind string) {
	if r.Faults == nil {
		r.Faults = map[string]int{}
	}
	r.Faults[kind]++
}

func (r *Report) max(what string, n int64) {
	if r.Max == nil {
		r.Max = map[string]int64{}
	}
	if r.Max[what] < n {
		r.Max[what] = n
	}
}

func (r *Report) mix(s string) {
	h := r.Hash
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	r.Hash = spec.Mix(h + 1)
}

// fail records the first violation.
func (r *Report) fail(class, format string, a ...interface{}) {
	if r.Violation == "" {
		r.Class = class
		r.Violation = fmt.Sprintf(format, a...)
		if len(r.Violation) > 4000 {
			r.Violation = r.Violation[:4000] + "..."
		}
	}
}

// Clone copies a plan.
func (p *Plan) Clone() *Plan {
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	n := &Plan{}
	if err := json.Unmarshal(b, n); err != nil {
		panic(err)
	}
	return n
}

type world struct {
	gen func(r *spec.Rng, prop string, thorough bool) *Plan
	run func(p *Plan, rep *Report)
}

var worldOf = map[string]world{}

// New generates the plan for a seed.
func New(prop string, seed uint64, thorough bool) *Plan {
	r := spec.NewRng(seed)
	p := worldOf[prop].gen(r, prop, thorough)
	p.Prop, p.Seed = prop, seed
	return p
}

// Run executes a plan.
func Run(p *Plan) (rep *Report) {
	rep = &Report{}
	spec.Forget()
	defer func() {
		if r := recover(); r != nil {
			if r == errSkip {
				rep = &Report{Skip: true}
				return
			}
			panic(r)
		}
	}()
	worldOf[p.Prop].run(p, rep)
	return rep
}

var errSkip = fmt.Errorf("plan makes no sense")

func skip() { panic(errSkip) }
