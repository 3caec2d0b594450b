// Package driver searches seeds, confirms and minimises what it finds, and
// writes replay files and evidence.
package driver

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"syscall"
	"time"

	"verif.sim/simrt"
	"verif.sim/worlds"
)

// Summary is what a worker has done.
type Summary struct {
	Plans      int              `json:"plans"`
	Runs       int              `json:"runs"`
	Ops        int              `json:"ops"`
	Steps      int64            `json:"steps"`
	Switches   int64            `json:"switches"`
	Hot        int64            `json:"hot"`
	Skipped    int              `json:"skipped"`
	Nontrivial int              `json:"nontrivial"`
	Known      int              `json:"known"`
	Faults     map[string]int   `json:"faults"`
	Max        map[string]int64 `json:"max"`
	Hashes     []uint64         `json:"hashes"`
	Samples    []*worlds.Plan   `json:"samples"`
	Race       bool             `json:"race"`
}

// Found is a violation.
type Found struct {
	Seed   uint64         `json:"seed"`
	Plan   *worlds.Plan   `json:"plan"`
	Report *worlds.Report `json:"report"`
	Race   bool           `json:"race"`
}

func limits() {
	runtime.GOMAXPROCS(1)
	debug.SetMaxStack(1000 << 20)
	if !simrt.RaceBuild {
		lim := syscall.Rlimit{Cur: 5 << 30, Max: 5 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
}

// sentinel separates the protocol from anything the code under test prints.
const sentinel = "\x01simcheck "

func worker(args []string) int {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	first := fs.Uint64("first", 0, "")
	stride := fs.Uint64("stride", 1, "")
	seconds := fs.Float64("seconds", 5, "")
	count := fs.Int("count", 1<<40, "")
	thorough := fs.Bool("thorough", false, "")
	quiet := fs.Bool("quiet", false, "")
	fs.Parse(args)
	limits()
	out := bufio.NewWriter(os.Stdout)
	defer out.Flush()
	sum := Summary{Faults: map[string]int{}, Max: map[string]int64{}, Race: simrt.RaceBuild}
	seen := map[uint64]bool{}
	start := time.Now()
	seed := *first
	for n := 0; n < *count && time.Since(start).Seconds() < *seconds; n, seed = n+1, seed+*stride {
		if !*quiet {
			fmt.Fprintf(out, "%sS %d\n", sentinel, seed)
			out.Flush()
		}
		p := worlds.New(*prop, seed, *thorough)
		rep := worlds.Run(p)
		if rep.Skip {
			sum.Skipped++
			continue
		}
		sum.Plans++
		sum.Runs += rep.Runs
		sum.Ops += rep.Ops
		sum.Steps += rep.Steps
		sum.Switches += rep.Switches
		sum.Hot += rep.Hot
		sum.Known += rep.Known
		for k, v := range rep.Faults {
			sum.Faults[k] += v
		}
		for k, v := range rep.Max {
			if sum.Max[k] < v {
				sum.Max[k] = v
			}
		}
		if rep.Nontrivial {
			sum.Nontrivial++
			if len(seen) < 200000 {
				seen[rep.Hash] = true
			}
			if len(sum.Samples) < 2 && n >= 3 {
				sum.Samples = append(sum.Samples, p)
			}
		}
		if rep.Violation != "" {
			emit(out, "V", Found{seed, p, rep, simrt.RaceBuild})
			break
		}
	}
	for h := range seen {
		sum.Hashes = append(sum.Hashes, h)
	}
	emit(out, "R", sum)
	return 0
}

func emit(w *bufio.Writer, kind string, v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	fmt.Fprintf(w, "%s%s %s\n", sentinel, kind, b)
	w.Flush()
}

// execPlan runs one plan, read from standard input.
func execPlan(args []string) int {
	limits()
	b, err := io.ReadAll(os.Stdin)
	if err != nil {
		return 2
	}
	p := &worlds.Plan{}
	if err := json.Unmarshal(b, p); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	rep := worlds.Run(p)
	w := bufio.NewWriter(os.Stdout)
	emit(w, "P", rep)
	return 0
}
