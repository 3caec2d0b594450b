package simrt

import (
	"math/rand"
	randv2 "math/rand/v2"
	"reflect"
	"time"
)

// Clocks, timers and random numbers of code under simulation. Simulated time
// goes by with the steps taken, and jumps to the next timer when nobody can go
// on otherwise. Where it starts, and every random number, comes from the plan.

type timer struct {
	at   time.Duration
	fire func()
	next *timer
}

//go:norace
func (s *Sim) now() time.Duration { return s.jumped + time.Duration(s.steps)*s.tick() }

// tick is how long a step takes. On some machines, or some days, that is long.
//
//go:norace
func (s *Sim) tick() time.Duration {
	switch mix(s.mapSeed+0x71c) % 6 {
	case 0:
		return time.Second
	case 1:
		return time.Millisecond
	}
	return time.Microsecond
}

// Now is time.Now.
//
//go:norace
func Now() time.Time {
	H(-30)
	base := time.Unix(1700000000, 0)
	t := cur
	if t == nil {
		return base
	}
	return base.Add(time.Duration(mix(t.sim.mapSeed)%(1<<50)) + t.sim.now())
}

// Since is time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until is time.Until.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

//go:norace
func (s *Sim) addTimer(d time.Duration, fire func()) {
	t := &timer{at: s.now() + d, fire: fire}
	p := &s.timers
	for *p != nil && (*p).at <= t.at {
		p = &(*p).next
	}
	t.next = *p
	*p = t
}

// fireTimers fires what is due; when idle, the clock jumps to the next timer.
//
//go:norace
func (s *Sim) fireTimers(idle bool) bool {
	if s.timers == nil {
		return false
	}
	if idle && s.timers.at > s.now() {
		s.jumped += s.timers.at - s.now()
	}
	any := false
	for s.timers != nil && s.timers.at <= s.now() {
		t := s.timers
		s.timers = t.next
		t.fire()
		any = true
	}
	return any
}

// After is time.After.
//
//go:norace
func After(d time.Duration) <-chan time.Time {
	t := cur
	if t == nil {
		return time.After(d)
	}
	ch := make(chan time.Time, 1)
	s := t.sim
	s.addTimer(d, func() {
		select {
		case ch <- time.Unix(1700000000, 0).Add(s.now()):
		default:
		}
		if c := stateOf(reflect.ValueOf(ch).Pointer()); c != nil {
			c.wake()
		}
	})
	return ch
}

// Sleep is time.Sleep.
//
//go:norace
func Sleep(d time.Duration) {
	t := cur
	if t == nil || t.killed != 0 {
		return
	}
	H(-1)
	s := t.sim
	done := false
	s.addTimer(d, func() { done = true; Wake(t) })
	for !done && t.killed == 0 {
		Block(s)
	}
}

type source struct{}

func (source) Int63() int64   { return int64(source{}.Uint64() >> 1) }
func (source) Seed(int64)     {}
func (source) Uint64() uint64 { return uint64(Rand(1<<32))<<32 | uint64(Rand(1<<32)) }

// MathRand stands in for the functions of math/rand.
func MathRand() *rand.Rand { return rand.New(source{}) }

// MathRandV2 stands in for the functions of math/rand/v2.
func MathRandV2() *randv2.Rand { return randv2.New(source{}) }
