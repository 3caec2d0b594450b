package driver

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"verif.sim/worlds"
)

func self() string {
	p, err := os.Executable()
	if err != nil {
		panic(err)
	}
	return p
}

func raceBin() string { return self() + "-race" }

func haveRace() bool {
	_, err := os.Stat(raceBin())
	return err == nil
}

func bin(race bool) string {
	if race {
		return raceBin()
	}
	return self()
}

func environ() []string {
	var out []string
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "GORACE=") && !strings.HasPrefix(e, "GOMAXPROCS=") && !strings.HasPrefix(e, "GODEBUG=") && !strings.HasPrefix(e, "GOGC=") && !strings.HasPrefix(e, "GOTRACEBACK=") {
			out = append(out, e)
		}
	}
	return append(out, "GORACE=halt_on_error=1 exitcode=66 history_size=3", "GOMAXPROCS=1", "GOTRACEBACK=single")
}

var hex0x = regexp.MustCompile(`0x[0-9a-f]+|\+0x[0-9a-f]+|goroutine [0-9]+|pid=[0-9]+|Goroutine [0-9]+`)

// crashReport turns the death of a process into a report.
func crashReport(stderr string, err error, hang bool) *worlds.Report {
	rep := &worlds.Report{}
	text := tail(stderr, 6000)
	switch {
	case hang:
		rep.Class = "hang"
		rep.Violation = "the execution did not end within its time limit"
	case strings.Contains(stderr, "WARNING: DATA RACE"):
		rep.Class = "race"
		i := strings.Index(stderr, "WARNING: DATA RACE")
		text = stderr[i:]
		if len(text) > 5000 {
			text = text[:5000]
		}
		rep.Violation = "data race\n" + text
		if !strings.Contains(text, "go-restruct/restruct") {
			rep.Class = "" // the harness's own
		}
	default:
		first := ""
		for _, l := range strings.Split(stderr, "\n") {
			if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") || strings.HasPrefix(l, "SIG") || strings.HasPrefix(l, "unexpected fault") {
				first = l
				break
			}
		}
		rep.Class = "crash " + hex0x.ReplaceAllString(first, "")
		if i := strings.Index(stderr, first); i >= 0 {
			text = stderr[i:]
			if len(text) > 5000 {
				text = text[:5000]
			}
		}
		rep.Violation = fmt.Sprintf("the process died: %v\n%s", err, text)
		if strings.Contains(stderr, "worlds.Run.func1") && !strings.Contains(stderr, "go-restruct/restruct") {
			rep.Class = "" // a mistake of the harness
		}
	}
	return rep
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// infra tells whether a process died for a reason that has nothing to do with
// the code under test.
func infra(rep *worlds.Report) bool {
	return rep.Class == "crash " || rep.Class == "" || strings.Contains(rep.Violation, "pthread_create failed")
}

// run executes a plan in a process of its own.
func run(p *worlds.Plan, race bool, limit time.Duration) *worlds.Report {
	b, _ := json.Marshal(p)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin(race), "exec")
	cmd.Env = environ()
	cmd.Stdin = bytes.NewReader(b)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &limited{w: &se}
	err := cmd.Run()
	for _, l := range strings.Split(so.String(), "\n") {
		if i := strings.Index(l, sentinel+"P "); i >= 0 {
			rep := &worlds.Report{}
			if json.Unmarshal([]byte(l[i+len(sentinel)+2:]), rep) == nil {
				return rep
			}
		}
	}
	return crashReport(se.String(), err, ctx.Err() != nil)
}

type limited struct {
	w *bytes.Buffer
}

func (l *limited) Write(b []byte) (int, error) {
	if l.w.Len() < 1<<20 {
		l.w.Write(b)
	}
	return len(b), nil
}

// Replay is the replay file.
type Replay struct {
	Property  string       `json:"property"`
	Seed      uint64       `json:"seed"`
	Race      bool         `json:"race,omitempty"`
	Class     string       `json:"class"`
	Violation string       `json:"violation"`
	Plan      *worlds.Plan `json:"plan,omitempty"`
	// Prefix replays a range of seeds in one process, when the violation
	// needs more history than one plan has.
	Prefix *Prefix `json:"prefix,omitempty"`
	How    string  `json:"how"`
}

// Prefix is a range of seeds.
type Prefix struct {
	First, Stride uint64
	Count         int
	Thorough      bool
}

func runPrefix(prop string, x *Prefix, race bool, limit time.Duration) *worlds.Report {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin(race), "worker", "-quiet", "-prop", prop, "-first", fmt.Sprint(x.First), "-stride", fmt.Sprint(x.Stride), "-count", fmt.Sprint(x.Count), "-seconds", "100000", fmt.Sprintf("-thorough=%v", x.Thorough))
	cmd.Env = environ()
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &limited{w: &se}
	err := cmd.Run()
	sum := false
	for _, l := range strings.Split(so.String(), "\n") {
		if i := strings.Index(l, sentinel+"V "); i >= 0 {
			f := &Found{}
			if json.Unmarshal([]byte(l[i+len(sentinel)+2:]), f) == nil {
				return f.Report
			}
		}
		if strings.Contains(l, sentinel+"R ") {
			sum = true
		}
	}
	if sum {
		return &worlds.Report{}
	}
	return crashReport(se.String(), err, ctx.Err() != nil)
}

func replay(args []string) int {
	if len(args) < 1 {
		fmt.Fprintln(os.Stderr, "usage: simcheck replay FILE")
		return 2
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	r := &Replay{}
	if err := json.Unmarshal(b, r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rep *worlds.Report
	if r.Prefix != nil {
		rep = runPrefix(r.Property, r.Prefix, r.Race, 900*time.Second)
	} else {
		rep = run(r.Plan, r.Race, 120*time.Second)
	}
	if rep.Violation == "" {
		fmt.Println("no violation")
		return 0
	}
	fmt.Printf("class: %s\n%s\n", rep.Class, rep.Violation)
	abs, _ := filepath.Abs(args[0])
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, abs)
	return 1
}
