// Package simsync is package sync for code under simulation. Who gets a lock
// is decided by the simulator; the real primitives underneath are only ever
// used when they are free, so that the race detector sees the ordering they
// establish and nothing else.
package simsync

import (
	"sync"

	"verif.sim/simrt"
)

// Locker is sync.Locker.
type Locker = sync.Locker

type waiter struct {
	t    *simrt.Task
	next *waiter
	w    bool
}

type queue struct{ head, tail *waiter }

//go:norace
func (q *queue) add(w *waiter) {
	if q.tail == nil {
		q.head = w
	} else {
		q.tail.next = w
	}
	q.tail = w
}

//go:norace
func (q *queue) wakeAll() {
	for w := q.head; w != nil; w = w.next {
		simrt.Wake(w.t)
	}
	q.head, q.tail = nil, nil
}

// Mutex is sync.Mutex.
type Mutex struct {
	mu   sync.Mutex
	held bool
	q    queue
}

// Lock locks m.
//
//go:norace
func (m *Mutex) Lock() {
	if simrt.Current() == nil {
		m.mu.Lock()
		m.held = true
		return
	}
	simrt.H(-2)
	for m.held {
		if simrt.Dying() {
			return
		}
		m.q.add(&waiter{t: simrt.Current()})
		simrt.Block(m)
	}
	m.held = true
	m.mu.Lock()
}

// TryLock tries to lock m.
//
//go:norace
func (m *Mutex) TryLock() bool {
	simrt.H(-2)
	if m.held {
		return false
	}
	m.held = true
	m.mu.Lock()
	return true
}

// Unlock unlocks m.
//
//go:norace
func (m *Mutex) Unlock() {
	if !m.held {
		if simrt.Dying() {
			return
		}
		simrt.Fatal("sync: unlock of unlocked mutex")
	}
	m.held = false
	m.mu.Unlock()
	m.q.wakeAll()
	simrt.H(-3)
}

// RWMutex is sync.RWMutex.
type RWMutex struct {
	mu      sync.RWMutex
	writer  bool
	readers int
	waiting int // writers
	q       queue
}

// Lock locks rw for writing.
//
//go:norace
func (rw *RWMutex) Lock() {
	if simrt.Current() == nil {
		rw.mu.Lock()
		rw.writer = true
		return
	}
	simrt.H(-4)
	rw.waiting++
	for rw.writer || rw.readers > 0 {
		if simrt.Dying() {
			rw.waiting--
			return
		}
		rw.q.add(&waiter{t: simrt.Current(), w: true})
		simrt.Block(rw)
	}
	rw.waiting--
	rw.writer = true
	rw.mu.Lock()
}

// TryLock tries to lock rw for writing.
//
//go:norace
func (rw *RWMutex) TryLock() bool {
	simrt.H(-4)
	if rw.writer || rw.readers > 0 {
		return false
	}
	rw.writer = true
	rw.mu.Lock()
	return true
}

// Unlock undoes Lock.
//
//go:norace
func (rw *RWMutex) Unlock() {
	if !rw.writer {
		if simrt.Dying() {
			return
		}
		simrt.Fatal("sync: Unlock of unlocked RWMutex")
	}
	rw.writer = false
	rw.mu.Unlock()
	rw.q.wakeAll()
	simrt.H(-5)
}

// RLock locks rw for reading. As with the real one, a waiting writer keeps new
// readers out.
//
//go:norace
func (rw *RWMutex) RLock() {
	if simrt.Current() == nil {
		rw.mu.RLock()
		rw.readers++
		return
	}
	simrt.H(-6)
	for rw.writer || rw.waiting > 0 {
		if simrt.Dying() {
			return
		}
		rw.q.add(&waiter{t: simrt.Current()})
		simrt.Block(rw)
	}
	rw.readers++
	rw.mu.RLock()
}

// TryRLock tries to lock rw for reading.
//
//go:norace
func (rw *RWMutex) TryRLock() bool {
	simrt.H(-6)
	if rw.writer || rw.waiting > 0 {
		return false
	}
	rw.readers++
	rw.mu.RLock()
	return true
}

// RUnlock undoes RLock.
//
//go:norace
func (rw *RWMutex) RUnlock() {
	if rw.readers == 0 {
		if simrt.Dying() {
			return
		}
		simrt.Fatal("sync: RUnlock of unlocked RWMutex")
	}
	rw.readers--
	rw.mu.RUnlock()
	rw.q.wakeAll()
	simrt.H(-7)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for reading.
func (rw *RWMutex) RLocker() Locker { return (*rlocker)(rw) }

// Once is sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do calls f once.
func (o *Once) Do(f func()) {
	o.m.Lock()
	if o.isDone() {
		o.m.Unlock()
		return
	}
	defer o.m.Unlock()
	defer o.set()
	f()
}

//go:norace
func (o *Once) isDone() bool { return o.done }

//go:norace
func (o *Once) set() { o.done = true }

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	wg sync.WaitGroup
	n  int
	q  queue
}

// Add adds delta.
//
//go:norace
func (wg *WaitGroup) Add(delta int) {
	simrt.H(-8)
	wg.n += delta
	wg.wg.Add(delta)
	if wg.n == 0 {
		wg.q.wakeAll()
	}
}

// Done subtracts one.
func (wg *WaitGroup) Done() { wg.Add(-1) }

// Go runs f in a task.
func (wg *WaitGroup) Go(f func()) {
	wg.Add(1)
	simrt.Go(func() { defer wg.Done(); f() })
}

// Wait waits until the count is zero.
//
//go:norace
func (wg *WaitGroup) Wait() {
	if simrt.Current() != nil {
		simrt.H(-9)
		for wg.n > 0 {
			if simrt.Dying() {
				return
			}
			wg.q.add(&waiter{t: simrt.Current()})
			simrt.Block(wg)
		}
	}
	wg.wg.Wait()
}

// Cond is sync.Cond.
type Cond struct {
	L Locker
	q queue
}

// NewCond returns a Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits for a signal.
//
//go:norace
func (c *Cond) Wait() {
	c.q.add(&waiter{t: simrt.Current()})
	t := simrt.Current()
	c.L.Unlock()
	for c.has(t) {
		if simrt.Dying() {
			return
		}
		simrt.Block(c)
	}
	c.L.Lock()
}

//go:norace
func (c *Cond) has(t *simrt.Task) bool {
	for w := c.q.head; w != nil; w = w.next {
		if w.t == t {
			return true
		}
	}
	return false
}

// Signal wakes one.
//
//go:norace
func (c *Cond) Signal() {
	simrt.H(-10)
	if w := c.q.head; w != nil {
		c.q.head = w.next
		if c.q.head == nil {
			c.q.tail = nil
		}
		simrt.Wake(w.t)
	}
}

// Broadcast wakes all.
//
//go:norace
func (c *Cond) Broadcast() {
	simrt.H(-10)
	c.q.wakeAll()
}

type poolItem struct {
	mu   sync.Mutex
	v    interface{}
	next *poolItem
}

// Pool is sync.Pool: what Get returns is up to the simulator.
type Pool struct {
	New func() interface{}

	head *poolItem
	n    int
}

//go:norace
func (p *Pool) take() *poolItem {
	simrt.H(-11)
	// One in eight times the pool lost what it had.
	if p.n == 0 || simrt.Rand(8) == 7 {
		return nil
	}
	i := simrt.Rand(p.n)
	at := &p.head
	for ; i > 0; i-- {
		at = &(*at).next
	}
	it := *at
	*at = it.next
	p.n--
	return it
}

// Get takes an item from the pool.
func (p *Pool) Get() interface{} {
	if it := p.take(); it != nil {
		it.mu.Lock()
		defer it.mu.Unlock()
		return it.v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put puts an item into the pool.
func (p *Pool) Put(v interface{}) {
	if v == nil {
		return
	}
	it := newItem()
	it.mu.Lock()
	it.v = v
	it.mu.Unlock() // orders Put before Get
	p.put(it)
}

// newItem makes an item. That is no access to its lock which the race detector
// could take for one that comes too late.
//
//go:norace
func newItem() *poolItem { return &poolItem{} }

//go:norace
func (p *Pool) put(it *poolItem) {
	simrt.H(-11)
	it.next = p.head
	p.head = it
	p.n++
}

// Map is sync.Map.
type Map struct {
	m    sync.Map
	keys Mutex
	list []interface{}
}

func (m *Map) note(k interface{}) {
	if !m.known(k) {
		m.add(k)
	}
}

//go:norace
func (m *Map) known(k interface{}) bool {
	for _, o := range m.list {
		if o == k {
			return true
		}
	}
	return false
}

//go:norace
func (m *Map) add(k interface{}) {
	n := make([]interface{}, len(m.list)+1)
	for i := range m.list {
		n[i] = m.list[i]
	}
	n[len(m.list)] = k
	m.list = n
}

// Load is sync.Map.Load.
func (m *Map) Load(k interface{}) (interface{}, bool) { simrt.H(-12); return m.m.Load(k) }

// Store is sync.Map.Store.
func (m *Map) Store(k, v interface{}) { simrt.H(-12); m.note(k); m.m.Store(k, v) }

// LoadOrStore is sync.Map.LoadOrStore.
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	simrt.H(-12)
	m.note(k)
	return m.m.LoadOrStore(k, v)
}

// LoadAndDelete is sync.Map.LoadAndDelete.
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	simrt.H(-12)
	return m.m.LoadAndDelete(k)
}

// Delete is sync.Map.Delete.
func (m *Map) Delete(k interface{}) { simrt.H(-12); m.m.Delete(k) }

// Swap is sync.Map.Swap.
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	simrt.H(-12)
	m.note(k)
	return m.m.Swap(k, v)
}

// CompareAndSwap is sync.Map.CompareAndSwap.
func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	simrt.H(-12)
	return m.m.CompareAndSwap(k, o, n)
}

// CompareAndDelete is sync.Map.CompareAndDelete.
func (m *Map) CompareAndDelete(k, o interface{}) bool {
	simrt.H(-12)
	return m.m.CompareAndDelete(k, o)
}

// Clear is sync.Map.Clear.
func (m *Map) Clear() { simrt.H(-12); m.m.Clear() }

//go:norace
func (m *Map) snapshot() []interface{} {
	n := make([]interface{}, len(m.list))
	for i := range m.list {
		n[i] = m.list[i]
	}
	return n
}

// Range is sync.Map.Range, in an order the simulator decides.
func (m *Map) Range(f func(k, v interface{}) bool) {
	keys := m.snapshot()
	for i := len(keys) - 1; i > 0; i-- {
		j := simrt.Rand(i + 1)
		keys[i], keys[j] = keys[j], keys[i]
	}
	for _, k := range keys {
		simrt.H(-12)
		if v, ok := m.m.Load(k); ok && !f(k, v) {
			return
		}
	}
}
