package driver

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"time"
)

type finding struct {
	Kind       string   `json:"kind"` // finding or fixed
	ID         string   `json:"id,omitempty"`
	Properties []string `json:"properties"`
	What       string   `json:"what"`
	Commit     string   `json:"commit,omitempty"`
}

// probes looks whether the known findings are still there.
func probes(verif, prop string) []string {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.json"))
	if err != nil {
		return nil
	}
	var all struct {
		Findings []finding `json:"findings"`
	}
	if err := json.Unmarshal(b, &all); err != nil {
		fmt.Println("known_findings.json:", err)
		return nil
	}
	var out []string
	for _, f := range all.Findings {
		for _, p := range f.Properties {
			if p == prop && probe(f.ID) {
				out = append(out, fmt.Sprintf("KNOWN-FINDING: property=%s %s", prop, f.What))
			}
		}
	}
	return out
}

func evidence(verif, prop, tier string, seed uint64, out *outcome, violations int, wall float64, known []string) {
	s := out.sum
	perHour := func(n float64) int64 {
		if out.wall <= 0 {
			return 0
		}
		return int64(n / out.wall * 3600)
	}
	samples := []interface{}{}
	for _, p := range s.Samples {
		samples = append(samples, p)
	}
	if len(samples) == 0 {
		samples = append(samples, "no sample")
	}
	info := about[prop]
	races := 0
	for _, w := range out.procs {
		if w.race {
			races++
		}
	}
	cov := map[string]interface{}{
		"evaluations":                    s.Plans,
		"distinct_nontrivial":            len(out.hash),
		"rule":                           info.rule,
		"samples":                        samples,
		"simulated_executions":           s.Runs,
		"seeds_per_hour":                 perHour(float64(s.Plans)),
		"simulated_executions_per_hour":  perHour(float64(s.Runs)),
		"simulated_time_steps":           s.Steps,
		"library_operations_checked":     s.Ops,
		"task_switches":                  s.Switches,
		"task_switches_at_shared_state":  s.Hot,
		"faults_injected":                s.Faults,
		"plans_that_made_no_sense":       s.Skipped,
		"accepted_as_known_finding":      s.Known,
		"workers":                        len(out.procs),
		"workers_with_race_detector":     races,
		"maxima":                         s.Max,
		"distinct_measure":               info.distinct,
		"real_components":                "all packages of /repo's working tree (restruct, expr, formats/png), compiled with scheduling points, package sync, map iteration order, make and package initialisation behind the simulator's seams",
		"simulated_components":           info.stub,
		"simulated_time_unit":            "scheduling steps (the library has no clock or timer)",
		"known_findings_seen_this_run":   known,
		"search_ended_after_wall_second": int64(out.wall),
	}
	e := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": info.level,
		"coverage": cov, "wall_s": wall, "violations": violations,
		"assumptions": info.assume,
	}
	b, _ := json.MarshalIndent(e, "", " ")
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("evidence:", err)
	}
	_ = time.Now
}
