// Package simrt is the simulator's runtime: a cooperative scheduler that runs
// one task at a time and decides, from one seed, every interleaving.
//
// Tasks are goroutines that are parked and released one at a time. Code under
// simulation calls Y (or H, at places that touch shared state) before every
// statement; only there, and where a task blocks or ends, can another task get
// its turn. Everything in here runs while its caller is the only one running,
// but the race detector is not told so (see raceOff): it sees exactly the
// synchronisation that the code under test does by itself.
package simrt

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"sync"
	"time"
)

// Switch is a scheduling decision that was taken: when task From had taken At
// steps, task To got its turn. Forced decisions are those where From could not
// go on.
type Switch struct {
	From   int   `json:"f"`
	At     int64 `json:"a"`
	To     int   `json:"t"`
	Forced bool  `json:"x,omitempty"`
}

// Policy selects how interleavings are chosen.
type Policy struct {
	Kind string `json:"kind"` // "seq", "rand", "pct", "few", "replay"
	Seed uint64 `json:"seed"`
	// rand: chance of a switch per step, in 1/65536, at hot and other places.
	PHot  int `json:"phot,omitempty"`
	PCold int `json:"pcold,omitempty"`
	// pct and few: number of changes, and the length of the run assumed.
	Depth  int   `json:"depth,omitempty"`
	Length int64 `json:"length,omitempty"`
	// replay
	Trace []Switch `json:"trace,omitempty"`
}

// Reasons why a task was ended early.
const (
	KillNone = iota
	KillSteps
	KillAlloc
	KillDeadlock
	KillStop
)

// Task is a simulated thread.
type Task struct {
	ID    int
	Local interface{} // owned by the harness

	sim      *Sim
	ch       chan struct{}
	state    int // 0 runnable, 1 blocked, 2 done
	steps    int64
	limit    int64
	alloc    int64
	allocLim int64
	maxMake  int64
	prio     uint64
	killed   int
	waitOn   interface{}
	mapN     uint64
	hold     int // steps it goes on for without a switch
	fn       func()
	replay   []Switch
	root     *Task // set for tasks started by the code under test
	extra    int64 // steps of the tasks it started
	panicked interface{}
	stack    string
}

// Sim is one simulated execution.
type Sim struct {
	tasks   []*Task
	wg      sync.WaitGroup
	mainCh  chan struct{}
	policy  Policy
	rng     uint64
	mapSeed uint64
	steps   int64
	hash    uint64
	trace   []Switch
	multi   bool
	changes []int64
	lowPrio uint64
	budget  int64
	timers  *timer
	jumped  time.Duration

	Deadlock  bool
	Overrun   bool
	Switches  int64
	HotSwitch int64
	Blocked   int64
	MapIters  int64
}

var cur *Task

//go:norace
func mix(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

//go:norace
func (s *Sim) rand() uint64 {
	s.rng += 0x9e3779b97f4a7c15
	return mix(s.rng)
}

// New returns a simulation without tasks.
func New(p Policy, mapSeed uint64, budget int64) *Sim {
	s := &Sim{policy: p, rng: mix(p.Seed + 0x1234567), mapSeed: mapSeed, mainCh: make(chan struct{}, 1), budget: budget, lowPrio: 1 << 20}
	if p.Kind == "pct" || p.Kind == "few" {
		n := p.Length
		if n < 1 {
			n = 1
		}
		for i := 0; i < p.Depth; i++ {
			s.changes = append(s.changes, 1+int64(s.rand()%uint64(n)))
		}
		sort.Slice(s.changes, func(i, j int) bool { return s.changes[i] < s.changes[j] })
	}
	return s
}

// Add adds a task. It starts when Run is called.
func (s *Sim) Add(local interface{}, fn func()) *Task {
	t := &Task{ID: len(s.tasks), Local: local, sim: s, ch: make(chan struct{}, 1), fn: fn, limit: 1 << 62, allocLim: 1 << 62}
	t.prio = s.rand() | 1<<40
	s.tasks = append(s.tasks, t)
	if s.policy.Kind == "replay" {
		for _, sw := range s.policy.Trace {
			if sw.From == t.ID {
				t.replay = append(t.replay, sw)
			}
		}
	}
	s.wg.Add(1)
	go s.body(t)
	return t
}

func (s *Sim) body(t *Task) {
	raceOff()
	<-t.ch
	raceOn()
	defer s.finish(t)
	if t.killed != 0 {
		return
	}
	t.fn()
}

//go:norace
func (s *Sim) finish(t *Task) {
	if r := recover(); r != nil {
		t.panicked = r
		buf := make([]byte, 16<<10)
		t.stack = string(buf[:runtime.Stack(buf, false)])
	}
	t.state = 2
	s.wg.Done()
	raceOff()
	s.leave(t)
	raceOn()
}

// leave gives the turn to somebody else for good.
//
//go:norace
func (s *Sim) leave(t *Task) {
	n := s.pick(t, true, false)
	for n == nil && s.waiting() && s.fireTimers(true) {
		n = s.pick(t, true, false)
	}
	if n == nil {
		for _, o := range s.tasks {
			if o.state == 1 {
				// Nobody can go on: a deadlock. End the blocked tasks.
				if s.waiting() {
					s.Deadlock = true
				}
				o.killed = KillDeadlock
				o.state = 0
				cur = o
				o.ch <- struct{}{}
				return
			}
		}
		cur = nil
		s.mainCh <- struct{}{}
		return
	}
	cur = n
	n.ch <- struct{}{}
}

// waiting tells whether a caller waits, rather than something that was started
// in the background.
//
//go:norace
func (s *Sim) waiting() bool {
	for _, o := range s.tasks {
		if o.state == 1 && o.root == nil {
			return true
		}
	}
	return false
}

// Run lets the tasks run until all have ended.
func (s *Sim) Run() {
	if len(s.tasks) == 0 {
		return
	}
	s.start()
	s.wg.Wait()
}

//go:norace
func (s *Sim) start() {
	s.multi = len(s.tasks) > 1
	raceOff()
	first := s.tasks[0]
	if s.policy.Kind == "pct" {
		for _, t := range s.tasks {
			if t.prio > first.prio {
				first = t
			}
		}
	} else if s.policy.Kind == "replay" {
		for _, sw := range s.policy.Trace {
			if sw.From == -1 && sw.To < len(s.tasks) {
				first = s.tasks[sw.To]
			}
		}
	} else if s.policy.Kind != "seq" {
		first = s.tasks[s.rand()%uint64(len(s.tasks))]
	}
	s.trace = append(s.trace, Switch{From: -1, To: first.ID})
	cur = first
	first.ch <- struct{}{}
	<-s.mainCh
	raceOn()
}

// pick chooses who runs next. It returns nil if t is to go on, or if there is
// nobody.
//
//go:norace
func (s *Sim) pick(t *Task, forced, hot bool) *Task {
	var run [64]*Task
	n := 0
	for _, o := range s.tasks {
		if o.state == 0 && o != t && n < len(run) {
			run[n] = o
			n++
		}
	}
	if n == 0 {
		return nil
	}
	var to *Task
	switch s.policy.Kind {
	case "seq":
		if forced {
			to = run[0]
		}
	case "rand":
		p := s.policy.PCold
		if hot {
			p = s.policy.PHot
		}
		if forced || int(s.rand()&0xffff) < p {
			to = run[s.rand()%uint64(n)]
		}
	case "few":
		hit := false
		for len(s.changes) > 0 && s.changes[0] <= s.steps {
			// Prefer a place that touches shared state, if one comes soon.
			if !hot && s.steps-s.changes[0] < 400 && !forced {
				break
			}
			s.changes = s.changes[1:]
			hit = true
		}
		if forced || hit {
			to = run[s.rand()%uint64(n)]
		}
	case "pct":
		for len(s.changes) > 0 && s.changes[0] <= s.steps {
			if !hot && s.steps-s.changes[0] < 400 && !forced {
				break
			}
			s.changes = s.changes[1:]
			t.prio = s.lowPrio
			s.lowPrio--
		}
		best := run[0]
		for i := 1; i < n; i++ {
			if run[i].prio > best.prio {
				best = run[i]
			}
		}
		if forced || best.prio > t.prio {
			to = best
		}
	case "replay":
		for len(t.replay) > 0 {
			sw := t.replay[0]
			if sw.At > t.steps || sw.At == t.steps && sw.Forced && !forced {
				break
			}
			t.replay = t.replay[1:]
			if sw.At == t.steps && sw.Forced == forced {
				for i := 0; i < n; i++ {
					if run[i].ID == sw.To {
						to = run[i]
					}
				}
				break
			}
		}
		if to == nil && forced {
			to = run[0]
		}
	}
	if to != nil {
		s.Switches++
		if hot {
			s.HotSwitch++
		}
		s.trace = append(s.trace, Switch{t.ID, t.steps, to.ID, forced})
		s.hash = mix(s.hash ^ uint64(t.ID)<<48 ^ uint64(t.steps)<<8 ^ uint64(to.ID))
	}
	return to
}

// handoff gives the turn to n and waits until t has it again.
//
//go:norace
func (s *Sim) handoff(t, n *Task) {
	raceOff()
	cur = n
	n.ch <- struct{}{}
	<-t.ch
	raceOn()
	s.check(t)
}

//go:norace
func (s *Sim) check(t *Task) {
	if t.killed == KillDeadlock || t.killed == KillStop {
		runtime.Goexit()
	}
}

// Y is a scheduling point.
//
//go:norace
func Y(site int32) {
	t := cur
	if t == nil {
		return
	}
	t.step(site, false)
}

// H is a scheduling point next to shared state.
//
//go:norace
func H(site int32) {
	t := cur
	if t == nil {
		return
	}
	t.step(site, true)
}

//go:norace
func (t *Task) step(site int32, hot bool) {
	if t.killed != 0 {
		return // on its way out
	}
	s := t.sim
	t.steps++
	s.steps++
	s.hash = s.hash*0x100000001b3 ^ uint64(site)
	m := t
	if t.root != nil {
		m = t.root
		m.extra++
	}
	if m.steps+m.extra > m.limit || s.steps > s.budget {
		t.kill(KillSteps)
	}
	if s.timers != nil {
		s.fireTimers(false)
	}
	if !s.multi {
		return
	}
	if t.hold > 0 {
		t.hold--
		return
	}
	if n := s.pick(t, false, hot); n != nil {
		s.handoff(t, n)
	}
}

//go:norace
func (t *Task) kill(why int) {
	t.killed = why
	t.sim.Overrun = true
	runtime.Goexit()
}

// Block parks the running task until Wake is called for it. It reports false
// when there is no simulation.
//
//go:norace
func Block(on interface{}) bool {
	t := cur
	if t == nil {
		return false
	}
	if t.killed != 0 {
		return true
	}
	s := t.sim
	t.state = 1
	t.waitOn = on
	s.Blocked++
	n := s.pick(t, true, false)
	for n == nil && s.fireTimers(true) {
		if t.state == 0 {
			return true
		}
		n = s.pick(t, true, false)
	}
	if n == nil {
		// Nobody else can go on either.
		if s.waiting() {
			s.Deadlock = true
		}
		t.killed = KillDeadlock
		t.state = 0
		for _, o := range s.tasks {
			if o.state == 1 {
				o.killed = KillDeadlock
			}
		}
		runtime.Goexit()
	}
	s.handoff(t, n)
	return true
}

// Wake makes a blocked task runnable.
//
//go:norace
func Wake(t *Task) {
	if t.state == 1 {
		t.state = 0
		t.waitOn = nil
	}
}

// Dying reports whether the running task has been ended and only runs its
// deferred functions.
//
//go:norace
func Dying() bool { return cur != nil && cur.killed != 0 }

// Current returns the running task, or nil outside of a simulation.
//
//go:norace
func Current() *Task { return cur }

// Rand returns a number from the scheduler's own stream.
//
//go:norace
func Rand(n int) int {
	if cur == nil || n <= 1 {
		return 0
	}
	t := cur
	t.mapN++
	return int(mix(t.sim.mapSeed^uint64(t.ID)<<32^t.mapN*0x9e3779b97f4a7c15) % uint64(n))
}

// Multi tells whether there is more than one task.
func (s *Sim) Multi() bool { return len(s.tasks) > 1 }

// Steps returns the steps taken so far.
//
//go:norace
func (t *Task) Steps() int64 { return t.steps + t.extra }

// Alloc returns the bytes requested so far.
//
//go:norace
func (t *Task) Alloc() int64 { return t.alloc }

// MaxMake returns and resets the largest single request.
//
//go:norace
func (t *Task) MaxMake() int64 { m := t.maxMake; t.maxMake = 0; return m }

// SetLimits sets how many more steps the task may take and how many more bytes
// it may request before it is ended.
//
//go:norace
func (t *Task) SetLimits(steps, alloc int64) {
	t.limit = t.steps + t.extra + steps
	t.allocLim = t.alloc + alloc
}

// Killed returns why the task was ended early.
//
//go:norace
func (t *Task) Killed() int { return t.killed }

// Panicked returns the panic that ended the task, if any.
//
//go:norace
func (t *Task) Panicked() (interface{}, string) { return t.panicked, t.stack }

// Steps returns the steps taken by all tasks.
func (s *Sim) Steps() int64 { return s.steps }

// Hash identifies the execution.
func (s *Sim) Hash() uint64 { return s.hash }

// Trace returns the decisions taken.
func (s *Sim) Trace() []Switch { return s.trace }

// top is the task that answers for what t does.
//
//go:norace
func (t *Task) top() *Task {
	if t.root != nil {
		return t.root
	}
	return t
}

// Go starts a task from within a task.
func Go(fn func()) {
	t := Current()
	if t == nil {
		go fn()
		return
	}
	t.sim.spawn(t, fn)
}

//go:norace
func (s *Sim) spawn(t *Task, fn func()) {
	nt := &Task{ID: len(s.tasks), Local: t.Local, sim: s, ch: make(chan struct{}, 1), fn: fn, root: t.top()}
	nt.prio = s.rand() | 1<<40
	if len(s.tasks) == cap(s.tasks) {
		// Not append, which the race detector watches.
		l := make([]*Task, len(s.tasks), 2*len(s.tasks)+8)
		for i := range l {
			l[i] = s.tasks[i]
		}
		s.tasks = l
	}
	s.tasks = s.tasks[:len(s.tasks)+1]
	s.tasks[len(s.tasks)-1] = nt
	if s.policy.Kind == "replay" {
		for _, sw := range s.policy.Trace {
			if sw.From == nt.ID {
				nt.replay = append(nt.replay, sw)
			}
		}
	}
	s.multi = true
	s.wg.Add(1)
	go s.body(nt)
}

// GoCall starts a task that calls fn.
func GoCall(fn interface{}, args ...interface{}) {
	f := reflect.ValueOf(fn)
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		if a == nil {
			in[i] = reflect.Zero(f.Type().In(i))
		} else {
			in[i] = reflect.ValueOf(a)
		}
	}
	Go(func() { f.Call(in) })
}

// N meters an allocation of n elements of size sz.
//
//go:norace
func N(sz int64, n int) int {
	t := cur
	if t == nil || t.killed != 0 || n <= 0 {
		return n
	}
	b := int64(n)
	if sz > 0 {
		if b > (1<<60)/sz {
			b = 1 << 60
		} else {
			b *= sz
		}
	}
	m := t.top()
	m.alloc += b
	if b > m.maxMake {
		m.maxMake = b
	}
	if m.alloc > m.allocLim {
		t.kill(KillAlloc)
	}
	return n
}

// MakeSlice is reflect.MakeSlice, metered.
func MakeSlice(t reflect.Type, l, c int) reflect.Value {
	if t.Kind() == reflect.Slice {
		N(int64(t.Elem().Size()), c)
	}
	return reflect.MakeSlice(t, l, c)
}

// Iter iterates over a map in an order the simulation decides.
type Iter struct {
	m    reflect.Value
	keys []reflect.Value
	i    int
	val  reflect.Value
}

// MapIter returns an iterator over m.
func MapIter(m interface{}) *Iter { return mapIter(reflect.ValueOf(m)) }

func mapIter(m reflect.Value) *Iter {
	it := &Iter{m: m, i: -1}
	keys := it.m.MapKeys()
	names := make([]string, len(keys))
	for i, k := range keys {
		if k.CanInterface() {
			if s, ok := k.Interface().(fmt.Stringer); ok {
				names[i] = s.String()
				continue
			}
		}
		switch k.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			names[i] = fmt.Sprintf("%020d", uint64(k.Int())+1<<63)
		default:
			names[i] = fmt.Sprint(k)
		}
	}
	idx := make([]int, len(keys))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return names[idx[a]] < names[idx[b]] })
	for i := len(idx) - 1; i > 0; i-- {
		j := Rand(i + 1)
		idx[i], idx[j] = idx[j], idx[i]
	}
	if t := Current(); t != nil {
		t.countMap()
	}
	for _, i := range idx {
		it.keys = append(it.keys, keys[i])
	}
	return it
}

//go:norace
func (t *Task) countMap() { t.sim.MapIters++ }

// Next advances to the next entry that is still there.
func (it *Iter) Next() bool {
	for it.i++; it.i < len(it.keys); it.i++ {
		if it.val = it.m.MapIndex(it.keys[it.i]); it.val.IsValid() {
			return true
		}
	}
	return false
}

// Key returns the current key.
func (it *Iter) Key() interface{} { return it.keys[it.i].Interface() }

// Val returns the current value.
func (it *Iter) Val() interface{} { return it.val.Interface() }

// MapKeys is reflect.Value.MapKeys in an order of the simulator's choice.
func MapKeys(v reflect.Value) []reflect.Value { return mapIter(v).keys }

// RIter is reflect.MapIter in an order of the simulator's choice.
type RIter struct{ *Iter }

// MapRange is reflect.Value.MapRange.
func MapRange(v reflect.Value) RIter { return RIter{mapIter(v)} }

// Key returns the current key.
func (it RIter) Key() reflect.Value { return it.keys[it.i] }

// Value returns the current value.
func (it RIter) Value() reflect.Value { return it.val }

type resetter struct {
	path string
	fn   func()
}

var resets []resetter

// RegisterReset registers what puts a package back to its initial state.
func RegisterReset(path string, fn func()) { resets = append(resets, resetter{path, fn}) }

// Restart simulates a restart of the process: every package-level variable of
// the code under test is initialised again, in the order of initialisation.
func Restart() {
	forgetChans()
	for _, r := range resets {
		r.fn()
	}
}

// Packages lists what Restart restarts.
func Packages() []string {
	var out []string
	for _, r := range resets {
		out = append(out, r.path)
	}
	return out
}
