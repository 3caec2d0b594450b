package driver

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif.sim/spec"
	"verif.sim/worlds"
)

// Main runs a subcommand.
func Main(cmd string, args []string) int {
	switch cmd {
	case "worker":
		return worker(args)
	case "exec":
		return execPlan(args)
	case "replay":
		return replay(args)
	case "check":
		return check(args)
	case "selftest":
		return selftest(args)
	case "plan":
		seed, _ := strconv.ParseUint(args[1], 10, 64)
		b, _ := json.MarshalIndent(worlds.New(args[0], seed, false), "", " ")
		fmt.Println(string(b))
		return 0
	}
	fmt.Fprintln(os.Stderr, "unknown command", cmd)
	return 2
}

func hashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

type proc struct {
	race  bool
	first uint64
	step  uint64

	mu    sync.Mutex
	last  uint64
	count int
	when  time.Time
	sum   *Summary
	found *Found
	err   error
	se    bytes.Buffer
	cmd   *exec.Cmd
	hang  bool
}

func (w *proc) start(prop string, seconds float64, thorough bool, wg *sync.WaitGroup) {
	w.cmd = exec.Command(bin(w.race), "worker", "-prop", prop, "-first", fmt.Sprint(w.first), "-stride", fmt.Sprint(w.step), "-seconds", fmt.Sprint(seconds), fmt.Sprintf("-thorough=%v", thorough))
	w.cmd.Env = environ()
	w.cmd.Stderr = &limited{w: &w.se}
	pipe, err := w.cmd.StdoutPipe()
	if err != nil {
		w.err = err
		return
	}
	w.when = time.Now()
	if err := w.cmd.Start(); err != nil {
		w.err = err
		return
	}
	wg.Add(1)
	go func() {
		defer wg.Done()
		r := bufio.NewReaderSize(pipe, 1<<20)
		for {
			l, err := r.ReadString('\n')
			if i := strings.Index(l, sentinel); i >= 0 {
				l = l[i+len(sentinel):]
				w.mu.Lock()
				w.when = time.Now()
				switch {
				case strings.HasPrefix(l, "S "):
					w.last, _ = strconv.ParseUint(strings.TrimSpace(l[2:]), 10, 64)
					w.count++
				case strings.HasPrefix(l, "V "):
					f := &Found{}
					if json.Unmarshal([]byte(l[2:]), f) == nil {
						w.found = f
					}
				case strings.HasPrefix(l, "R "):
					s := &Summary{}
					if json.Unmarshal([]byte(l[2:]), s) == nil {
						w.sum = s
					}
				}
				w.mu.Unlock()
			}
			if err != nil {
				break
			}
		}
		w.err = w.cmd.Wait()
	}()
}

const hangLimit = 60 * time.Second

// raceShare says how many of eight workers run with the race detector.
var raceShare = map[string]int{"C01": 4, "C02": 4, "C18": 4, "C14": 2}

type outcome struct {
	sum   Summary
	procs []*proc
	hash  map[uint64]bool
	bad   *proc
	wall  float64
}

func search(prop string, seed uint64, seconds float64, thorough bool) *outcome {
	out := &outcome{hash: map[uint64]bool{}}
	out.sum.Faults, out.sum.Max = map[string]int{}, map[string]int64{}
	const n = 8
	nr := 0
	if haveRace() {
		nr = raceShare[prop]
	}
	base := spec.Mix(seed*1000003+hashString(prop)) >> 16
	start := time.Now()
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		w := &proc{race: i < nr, first: base + uint64(i), step: n}
		out.procs = append(out.procs, w)
		w.start(prop, seconds, thorough, &wg)
	}
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
loop:
	for {
		select {
		case <-done:
			break loop
		case <-tick.C:
			stop := false
			for _, w := range out.procs {
				w.mu.Lock()
				if w.found != nil {
					stop = true
				}
				if w.sum == nil && time.Since(w.when) > hangLimit && !w.hang {
					w.hang = true
					stop = true
				}
				w.mu.Unlock()
			}
			if stop {
				for _, w := range out.procs {
					w.mu.Lock()
					if w.found == nil && w.cmd.Process != nil {
						if !w.hang {
							w.sum = &Summary{} // ended early, on purpose
						}
						w.cmd.Process.Kill()
					}
					w.mu.Unlock()
				}
				<-done
				break loop
			}
		}
	}
	out.wall = time.Since(start).Seconds()
	for _, w := range out.procs {
		if w.sum != nil {
			s := w.sum
			out.sum.Plans += s.Plans
			out.sum.Runs += s.Runs
			out.sum.Ops += s.Ops
			out.sum.Steps += s.Steps
			out.sum.Switches += s.Switches
			out.sum.Hot += s.Hot
			out.sum.Skipped += s.Skipped
			out.sum.Nontrivial += s.Nontrivial
			out.sum.Known += s.Known
			for k, v := range s.Faults {
				out.sum.Faults[k] += v
			}
			for k, v := range s.Max {
				if out.sum.Max[k] < v {
					out.sum.Max[k] = v
				}
			}
			for _, h := range s.Hashes {
				out.hash[h] = true
			}
			if len(out.sum.Samples) < 3 {
				out.sum.Samples = append(out.sum.Samples, s.Samples...)
			}
		}
	}
	// A finding with a plan first, then deaths.
	for _, w := range out.procs {
		if w.found != nil {
			out.bad = w
			return out
		}
	}
	for _, w := range out.procs {
		if w.sum == nil {
			out.bad = w
			return out
		}
	}
	return out
}

func env(name, def string) string {
	if v := os.Getenv(name); v != "" {
		return v
	}
	return def
}

// Tier seconds.
func seconds(tier string) float64 {
	if s, err := strconv.ParseFloat(os.Getenv("VERIF_SECONDS"), 64); err == nil {
		return s
	}
	if tier == "thorough" {
		return 600
	}
	return 36
}

func check(args []string) int {
	prop := args[0]
	verif := env("VERIF_DIR", "/verif")
	tier := env("VERIF_TIER", "quick")
	if len(args) > 1 {
		tier = args[1]
	}
	seed, _ := strconv.ParseUint(env("VERIF_SEED", "1"), 10, 64)
	start := time.Now()
	known := probes(verif, prop)
	out := search(prop, seed, seconds(tier), tier == "thorough")
	code := 0
	violations := 0
	if out.bad != nil {
		code = judge(prop, verif, tier, out)
		if code == 1 {
			violations = 1
		}
	} else if out.sum.Plans == 0 {
		fmt.Println("nothing was run")
		code = 2
	}
	evidence(verif, prop, tier, seed, out, violations, time.Since(start).Seconds(), known)
	if code == 0 {
		fmt.Printf("%s: held on %d plans (%d simulated executions, %d steps, %d distinct) in %.1f s\n", prop, out.sum.Plans, out.sum.Runs, out.sum.Steps, len(out.hash), out.wall)
		for _, k := range known {
			fmt.Println(k)
		}
	}
	return code
}

// judge confirms a violation in a fresh process, minimises it and reports it.
func judge(prop, verif, tier string, out *outcome) int {
	w := out.bad
	thorough := tier == "thorough"
	r := &Replay{Property: prop, Race: w.race}
	var plan *worlds.Plan
	var rep *worlds.Report
	if w.found != nil {
		r.Seed, plan, rep = w.found.Seed, w.found.Plan, w.found.Report
	} else {
		r.Seed = w.last
		rep = crashReport(w.se.String(), w.err, w.hang)
		if w.count == 0 || infra(rep) && !w.hang {
			fmt.Printf("a worker ended before it did anything: %v\n%s\n", w.err, tail(w.se.String(), 3000))
			if w.count == 0 {
				return 2
			}
		}
		plan = worlds.New(prop, w.last, thorough)
	}
	fmt.Printf("seed %d: %s\n", r.Seed, rep.Class)
	limit := hangLimit
	confirmed := (*worlds.Report)(nil)
	tries := 2
	if w.race {
		tries = 6
	}
	for i := 0; i < tries && confirmed == nil; i++ {
		if c := run(plan, w.race, limit); c.Violation != "" && !infra(c) {
			confirmed = c
		}
	}
	if confirmed != nil {
		limit := 20 * time.Second
		if thorough {
			limit = 120 * time.Second
		}
		p2, r2, n := minimise(plan, confirmed, w.race, limit)
		if p2.Policy.Kind != "replay" && p2.Policy.Kind != "seq" && len(r2.Trace) > 0 {
			q := p2.Clone()
			q.Policy.Kind, q.Policy.Trace = "replay", r2.Trace
			if c := run(q, w.race, limit); c.Violation != "" && c.Class == r2.Class {
				p2, r2 = q, c
			}
		}
		r.Plan, r.Class, r.Violation = p2, r2.Class, r2.Violation
		fmt.Printf("minimised in %d executions\n", n)
	} else {
		// It may need the history of the process it happened in.
		x := &Prefix{First: w.first, Stride: w.step, Count: w.count, Thorough: thorough}
		c := runPrefix(prop, x, w.race, 400*time.Second)
		if c.Violation == "" || infra(c) {
			fmt.Printf("the violation could not be reproduced; no verdict\nfirst seen as: %s\n%s\n", rep.Class, rep.Violation)
			return 2
		}
		r.Prefix, r.Class, r.Violation = x, c.Class, c.Violation
	}
	dir := filepath.Join(verif, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, r.Seed))
	r.How = fmt.Sprintf("cd /verif && ./replay %s", path)
	b, _ := json.MarshalIndent(r, "", " ")
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("class: %s\n%s\n", r.Class, r.Violation)
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	return 1
}

// selftest runs seeds twice, in different processes, and compares.
func selftest(args []string) int {
	prop := args[0]
	n := 50
	if len(args) > 1 {
		n, _ = strconv.Atoi(args[1])
	}
	bad := 0
	for _, race := range []bool{false, true} {
		if race && (!haveRace() || raceShare[prop] == 0) {
			continue
		}
		for s := uint64(0); s < uint64(n); s++ {
			p := worlds.New(prop, 77000+s, false)
			a := run(p, race, hangLimit)
			b := run(p, race, hangLimit)
			for _, x := range []*worlds.Report{a, b} {
				for k := range x.Max {
					if strings.Contains(k, "bytes") {
						delete(x.Max, k) // measured, not simulated
					}
				}
			}
			ja, _ := json.Marshal(a)
			jb, _ := json.Marshal(b)
			if !bytes.Equal(ja, jb) {
				bad++
				fmt.Printf("seed %d differs (race %v):\n%s\n%s\n", 77000+s, race, ja, jb)
				continue
			}
			if len(a.Trace) > 1 && p.Policy.Kind != "seq" {
				q := p.Clone()
				q.Policy.Kind, q.Policy.Trace = "replay", a.Trace
				c := run(q, race, hangLimit)
				if c.Hash != a.Hash || c.Violation != a.Violation {
					bad++
					fmt.Printf("seed %d: the replayed trace differs (race %v): %x %x\n", 77000+s, race, a.Hash, c.Hash)
				}
			}
		}
	}
	fmt.Println(prop, "selftest:", n, "seeds,", bad, "bad")
	if bad > 0 {
		return 1
	}
	return 0
}

func sortedKeys(m map[string]int) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
