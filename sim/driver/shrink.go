package driver

import (
	"sync"
	"time"

	"verif.sim/simrt"
	"verif.sim/spec"
	"verif.sim/worlds"
)

type shrinker struct {
	race  bool
	class string
	best  *worlds.Plan
	rep   *worlds.Report
	until time.Time
	tries int
}

func (s *shrinker) same(rep *worlds.Report) bool {
	return !rep.Skip && rep.Violation != "" && rep.Class == s.class
}

// try runs candidates and takes the first in order that still fails.
func (s *shrinker) try(cands []*worlds.Plan) bool {
	const par = 8
	for i := 0; i < len(cands) && time.Now().Before(s.until); i += par {
		end := i + par
		if end > len(cands) {
			end = len(cands)
		}
		reps := make([]*worlds.Report, end-i)
		var wg sync.WaitGroup
		for k := i; k < end; k++ {
			k := k
			wg.Add(1)
			go func() {
				defer wg.Done()
				reps[k-i] = run(cands[k], s.race, 20*time.Second)
			}()
		}
		wg.Wait()
		s.tries += end - i
		for k := range reps {
			if s.same(reps[k]) {
				s.best, s.rep = cands[i+k], reps[k]
				return true
			}
		}
	}
	return false
}

func (s *shrinker) fix(gen func(p *worlds.Plan) []*worlds.Plan) bool {
	any := false
	for time.Now().Before(s.until) && s.try(gen(s.best)) {
		any = true
	}
	return any
}

// minimise makes a failing plan smaller.
func minimise(p *worlds.Plan, rep *worlds.Report, race bool, limit time.Duration) (*worlds.Plan, *worlds.Report, int) {
	s := &shrinker{race: race, class: rep.Class, best: p, rep: rep, until: time.Now().Add(limit)}
	if rep.Pin != nil {
		s.try([]*worlds.Plan{rep.Pin})
	}
	for round := 0; round < 3; round++ {
		a := s.fix(fewer)
		b := s.fix(simpler)
		c := s.fix(types)
		if !a && !b && !c {
			break
		}
	}
	// The schedule: as a trace, without what is not needed.
	if len(s.rep.Trace) > 0 && s.best.Policy.Kind != "seq" {
		q := s.best.Clone()
		if q.Policy.Kind != "replay" {
			q.Policy = simrt.Policy{Kind: "replay", Trace: s.rep.Trace}
		}
		if s.try([]*worlds.Plan{q}) {
			s.fix(lessTrace)
			s.fix(fewer)
			s.fix(lessTrace)
		}
	}
	return s.best, s.rep, s.tries
}

func lessTrace(p *worlds.Plan) []*worlds.Plan {
	var out []*worlds.Plan
	t := p.Policy.Trace
	for size := len(t) / 2; size >= 1; size /= 2 {
		for at := 0; at+size <= len(t); at += size {
			q := p.Clone()
			q.Policy.Trace = append(append([]simrt.Switch{}, t[:at]...), t[at+size:]...)
			out = append(out, q)
		}
		if len(out) > 200 {
			break
		}
	}
	return out
}

func mod(p *worlds.Plan, f func(q *worlds.Plan)) *worlds.Plan {
	q := p.Clone()
	f(q)
	return q
}

// fewer leaves out tasks, operations, faults and steps.
func fewer(p *worlds.Plan) []*worlds.Plan {
	var out []*worlds.Plan
	if len(p.Warm) > 0 {
		out = append(out, mod(p, func(q *worlds.Plan) { q.Warm = nil }))
		for i := range p.Warm {
			i := i
			out = append(out, mod(p, func(q *worlds.Plan) { q.Warm = append(q.Warm[:i], q.Warm[i+1:]...) }))
		}
	}
	if len(p.Tasks) > 1 {
		for i := range p.Tasks {
			i := i
			out = append(out, mod(p, func(q *worlds.Plan) {
				q.Tasks = append(q.Tasks[:i], q.Tasks[i+1:]...)
				var tr []simrt.Switch
				for _, sw := range q.Policy.Trace {
					if sw.From == i || sw.To == i {
						continue
					}
					if sw.From > i {
						sw.From--
					}
					if sw.To > i {
						sw.To--
					}
					tr = append(tr, sw)
				}
				q.Policy.Trace = tr
			}))
		}
	}
	for i := range p.Tasks {
		n := len(p.Tasks[i])
		for size := n / 2; size >= 1; size /= 2 {
			for at := 0; at+size <= n; at += size {
				i, at, size := i, at, size
				if size == n && len(p.Tasks) == 1 {
					continue
				}
				out = append(out, mod(p, func(q *worlds.Plan) {
					q.Tasks[i] = append(q.Tasks[i][:at], q.Tasks[i][at+size:]...)
				}))
			}
		}
	}
	for i := range p.Net {
		i := i
		out = append(out, mod(p, func(q *worlds.Plan) { q.Net = append(q.Net[:i], q.Net[i+1:]...) }))
	}
	if d := p.Disk; d != nil {
		for i := range d.Steps {
			i := i
			out = append(out, mod(p, func(q *worlds.Plan) { q.Disk.Steps = append(q.Disk.Steps[:i], q.Disk.Steps[i+1:]...) }))
		}
	}
	if t := p.Text; t != nil {
		for i := range t.Faults {
			i := i
			if len(t.Faults) > 1 {
				out = append(out, mod(p, func(q *worlds.Plan) { q.Text.Faults = append(q.Text.Faults[:i], q.Text.Faults[i+1:]...) }))
			}
		}
		for i := range t.Texts {
			rs := []rune(t.Texts[i])
			for size := len(rs) / 2; size >= 1 && len(out) < 400; size /= 2 {
				for at := 0; at+size <= len(rs); at += size {
					text := string(rs[:at]) + string(rs[at+size:])
					// The fault stays where it is, or moves with what is behind.
					for _, back := range []int{0, size} {
						out = append(out, mod(p, func(q *worlds.Plan) {
							q.Text.Texts[i] = text
							for k := range q.Text.Faults {
								if q.Text.Faults[k].At >= back {
									q.Text.Faults[k].At -= back
								}
							}
						}))
					}
				}
			}
		}
	}
	return out
}

// simpler makes operations plainer.
func simpler(p *worlds.Plan) []*worlds.Plan {
	var out []*worlds.Plan
	each := func(f func(o *worlds.Op) bool) {
		// All at once first, then one by one.
		q := p.Clone()
		changed := 0
		for i := range q.Tasks {
			for k := range q.Tasks[i] {
				if f(&q.Tasks[i][k]) {
					changed++
				}
			}
		}
		for k := range q.Warm {
			if f(&q.Warm[k]) {
				changed++
			}
		}
		if changed == 0 {
			return
		}
		out = append(out, q)
		if changed > 1 && changed < 30 {
			for i := range p.Tasks {
				for k := range p.Tasks[i] {
					q := p.Clone()
					if f(&q.Tasks[i][k]) {
						out = append(out, q)
					}
				}
			}
		}
	}
	each(func(o *worlds.Op) bool { c := o.Faults != nil; o.Faults = nil; return c })
	each(func(o *worlds.Op) bool {
		c := len(o.Faults) > 1
		if c {
			o.Faults = o.Faults[:1]
		}
		return c
	})
	each(func(o *worlds.Op) bool { c := o.Edits != nil; o.Edits = nil; return c })
	each(func(o *worlds.Op) bool {
		c := len(o.Edits) > 1
		if c {
			o.Edits = o.Edits[1:]
		}
		return c
	})
	each(func(o *worlds.Op) bool {
		c := len(o.Edits) > 1
		if c {
			o.Edits = o.Edits[:1]
		}
		return c
	})
	each(func(o *worlds.Op) bool { c := o.Cut != 0; o.Cut = 0; return c })
	each(func(o *worlds.Op) bool { c := o.Tail != 0; o.Tail = 0; return c })
	each(func(o *worlds.Op) bool { c := o.Hooked; o.Hooked = false; return c })
	each(func(o *worlds.Op) bool { c := o.ByVal; o.ByVal = false; return c })
	each(func(o *worlds.Op) bool { c := o.Dirty; o.Dirty = false; return c })
	each(func(o *worlds.Op) bool { c := o.Rep != 0; o.Rep = 0; return c })
	each(func(o *worlds.Op) bool { c := o.Rep > 1; o.Rep /= 2; return c })
	each(func(o *worlds.Op) bool {
		c := o.Rep > 1
		if c {
			o.Rep--
		}
		return c
	})
	each(func(o *worlds.Op) bool {
		c := len(o.Inner) > 0
		if c {
			o.Inner = o.Inner[1:]
		}
		return c
	})
	each(func(o *worlds.Op) bool {
		c := len(o.Inner) > 0
		if c {
			o.Inner = o.Inner[:len(o.Inner)-1]
		}
		return c
	})
	each(func(o *worlds.Op) bool {
		c := o.L > 1
		if c {
			o.L = 1
		}
		return c
	})
	for v := uint64(1); v <= 4; v++ {
		v := v
		each(func(o *worlds.Op) bool {
			c := o.V > v
			if c {
				o.V = v
			}
			return c
		})
	}
	if p.MapSeed != 0 {
		out = append(out, mod(p, func(q *worlds.Plan) { q.MapSeed = 0 }))
	}
	return out
}

// types leaves fields out of the types.
func types(p *worlds.Plan) []*worlds.Plan {
	var out []*worlds.Plan
	for ti := range p.Types {
		n := 0
		count(p.Types[ti], &n)
		for k := 0; k < n && k < 60; k++ {
			q := p.Clone()
			at := k
			if remove(q.Types[ti], &at) {
				out = append(out, q)
			}
		}
	}
	return out
}

func count(t *spec.T, n *int) {
	if t == nil {
		return
	}
	count(t.E, n)
	for _, f := range t.F {
		*n++
		count(f.T, n)
	}
}

// remove takes the k-th field out, if no other one depends on it.
func remove(t *spec.T, k *int) bool {
	if t == nil {
		return false
	}
	if remove(t.E, k) {
		return true
	}
	for i, f := range t.F {
		if *k == 0 {
			*k = -1
			if len(t.F) == 1 || t.Needed(f) {
				return false
			}
			t.F = append(t.F[:i], t.F[i+1:]...)
			return true
		}
		*k--
		if remove(f.T, k) {
			return true
		}
		if *k < 0 {
			return false
		}
	}
	return false
}
