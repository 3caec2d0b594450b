package simrt

import (
	"fmt"
	"os"
	"reflect"
	"runtime"
)

// Channels of code under simulation. The real channel carries the values, and
// with them the ordering that the race detector sees; who waits is up to the
// simulator, so that a real operation never blocks. A channel without a buffer
// has room for one value underneath, and its senders wait until it was taken.

type chanState struct {
	ptr   uintptr
	ch    reflect.Value // keeps it alive
	unbuf bool
	sent  int64
	taken int64
	recvs int // tasks that wait to receive
	ack   chan struct{}
	q     *chanWaiter
	next  *chanState
}

type chanWaiter struct {
	t    *Task
	send bool
	next *chanWaiter
}

var chans *chanState

//go:norace
func stateOf(ptr uintptr) *chanState {
	for c := chans; c != nil; c = c.next {
		if c.ptr == ptr {
			return c
		}
	}
	return nil
}

//go:norace
func stateFor(v reflect.Value) *chanState {
	p := v.Pointer()
	if c := stateOf(p); c != nil {
		return c
	}
	c := &chanState{ptr: p, ch: v, next: chans}
	chans = c
	return c
}

//go:norace
func forgetChans() { chans = nil }

// Chan is told of a channel made without a buffer.
//
//go:norace
func Chan(ch interface{}) interface{} {
	c := stateFor(reflect.ValueOf(ch))
	c.unbuf = true
	c.ack = make(chan struct{}, 1<<10)
	return ch
}

//go:norace
func (c *chanState) wake() {
	for w := c.q; w != nil; w = w.next {
		Wake(w.t)
	}
	c.q = nil
}

//go:norace
func (c *chanState) add(t *Task, send bool) { c.q = &chanWaiter{t, send, c.q} }

// canRecv tells whether a receive would not wait.
func canRecv(v reflect.Value) bool {
	if v.IsNil() {
		return false
	}
	if v.Len() > 0 {
		return true
	}
	x, _ := v.TryRecv()
	return x.IsValid() // closed
}

func canSend(v reflect.Value) bool {
	if v.IsNil() {
		return false
	}
	return v.Len() < v.Cap() || isClosed(v)
}

func isClosed(v reflect.Value) bool {
	if v.Type().ChanDir()&reflect.RecvDir == 0 {
		return false
	}
	if v.Len() > 0 {
		return false
	}
	x, _ := v.TryRecv()
	return x.IsValid()
}

var never chanState

//go:norace
func waitOn(v reflect.Value) *chanState {
	if v.IsNil() {
		return &never
	}
	return stateFor(v)
}

// WaitRecv waits until a receive from the channel does not have to wait.
//
//go:norace
func WaitRecv(ch interface{}) interface{} {
	t := cur
	if t == nil {
		return ch
	}
	v := reflect.ValueOf(ch)
	if t.killed != 0 {
		if canRecv(v) {
			return ch
		}
		// On its way out: nothing may wait.
		n := reflect.MakeChan(reflect.ChanOf(reflect.BothDir, v.Type().Elem()), 0)
		n.Close()
		return n.Convert(v.Type()).Interface()
	}
	H(-20)
	t.hold = 0
	c := waitOn(v)
	for !canRecv(v) {
		c.recvs++
		c.add(t, false)
		if c.unbuf {
			c.wake0(t)
		}
		Block(c)
		c.recvs--
	}
	c.took()
	return ch
}

// wake0 wakes those who wait to send, but not t itself.
//
//go:norace
func (c *chanState) wake0(t *Task) {
	for w := c.q; w != nil; w = w.next {
		if w.t != t && w.send {
			Wake(w.t)
		}
	}
}

//go:norace
func (c *chanState) took() {
	if c.unbuf && c.taken < c.sent {
		c.taken++
		select {
		case c.ack <- struct{}{}:
		default:
		}
	}
	c.wake()
}

// Send is a send statement.
//
//go:norace
func Send(ch, x interface{}) {
	v := reflect.ValueOf(ch)
	val := reflect.ValueOf(x)
	et := v.Type().Elem()
	switch {
	case !val.IsValid():
		val = reflect.Zero(et)
	case !val.Type().AssignableTo(et):
		val = val.Convert(et)
	}
	t := cur
	if t == nil || t.killed != 0 {
		if t != nil {
			v.TrySend(val)
			return
		}
		v.Send(val)
		return
	}
	H(-21)
	t.hold = 0
	c := waitOn(v)
	for !canSend(v) {
		c.add(t, true)
		Block(c)
	}
	v.Send(val)
	c.sent++
	mine := c.sent
	c.wake()
	if c.unbuf {
		for c.taken < mine {
			c.add(t, true)
			Block(c)
		}
		select {
		case <-c.ack:
		default:
		}
	}
	H(-22)
}

// Close is close.
//
//go:norace
func Close(ch interface{}) {
	H(-23)
	v := reflect.ValueOf(ch)
	v.Close()
	if c := stateOf(v.Pointer()); c != nil {
		c.wake()
	}
}

// Case is a case of a select statement.
type Case struct {
	v    reflect.Value
	send bool
}

// R is a case that receives.
func R(ch interface{}) Case { return Case{v: reflect.ValueOf(ch)} }

// S is a case that sends.
func S(ch interface{}) Case { return Case{reflect.ValueOf(ch), true} }

//go:norace
func (k *Case) ready() bool {
	if !k.send {
		return canRecv(k.v)
	}
	if !canSend(k.v) {
		return false
	}
	if c := stateOf(k.v.Pointer()); c != nil && c.unbuf {
		return c.recvs > 0
	}
	return true
}

// Select chooses a case of a select statement; -1 is the default.
//
//go:norace
func Select(def bool, cases ...Case) int {
	t := cur
	if t == nil || t.killed != 0 {
		return -1
	}
	H(-24)
	for {
		var ok []int
		for i := range cases {
			if cases[i].ready() {
				ok = append(ok, i)
			}
		}
		if len(ok) > 0 {
			// What was chosen happens before anybody else goes on.
			t.hold = 40
			return ok[Rand(len(ok))]
		}
		if def {
			return -1
		}
		for i := range cases {
			c := waitOn(cases[i].v)
			c.add(t, cases[i].send)
			if !cases[i].send {
				c.recvs++
				if c.unbuf {
					c.wake0(t)
				}
			}
		}
		Block(&never)
		for i := range cases {
			if !cases[i].send {
				waitOn(cases[i].v).recvs--
			}
		}
	}
}

// Dead ends a task that must not go on.
func Dead() string {
	runtime.Goexit()
	return ""
}

// Fatal ends the process as the runtime does when it cannot go on.
func Fatal(msg string) {
	fmt.Fprintln(os.Stderr, "fatal error: "+msg)
	os.Exit(2)
}
