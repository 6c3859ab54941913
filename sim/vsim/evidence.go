package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"

	zs "github.com/dball/destructive/internal/zsim/simrt"
)

func writeEvidence(prop string, seed uint64, tier, out string, t *Summary, violations int, wall float64, f *Found) {
	var samples []any
	for i := range 3 {
		c := genCase(prop, caseSeed(prop, seed, i))
		samples = append(samples, map[string]any{"index": i, "seed": caseSeed(prop, seed, i), "case": c})
	}
	// A complete case may be long, so only the first is given in full.
	for i := 1; i < len(samples); i++ {
		m := samples[i].(map[string]any)
		c := m["case"].(*Case)
		m["case"] = fmt.Sprintf("domain %s, degree %d, %d setup operations, %d tasks, %d parts, strategy %s", c.Domain, c.Degree, len(c.Setup), len(c.Tasks), size(c), c.Strat.Kind)
	}
	switches := []string{}
	for _, i := range t.Preempted {
		if i < len(siteNames) && len(switches) < 40 {
			switches = append(switches, siteNames[i])
		}
	}
	faults := map[string]int{
		"preemption (a task was switched out between two statements)":   t.Switches,
		"stall (a preempted task did not run again for many steps)":     t.Stalls,
		"lock contention (a task blocked)":                              t.Blocks,
		"map order (the order of an iteration over a map was permuted)": t.MapPerms,
		"abandoned sequence":               t.Faults["abandon"],
		"panic in a consumer":              t.Faults["userpanic"],
		"exit of a consumer's goroutine":   t.Faults["goexit"],
		"database call in a consumer":      t.Faults["nested"],
		"request and response overwritten": t.Faults["mutate"],
		"rejected request":                 t.Stats.Rejected,
	}
	for k, n := range t.Faults {
		switch k {
		case "abandon", "userpanic", "goexit", "nested", "mutate":
		default:
			faults[k] = n
		}
	}
	mode := "plain"
	if zs.Race {
		mode = "race detector"
	}
	hours := max(wall, 0.001) / 3600
	ev := map[string]any{
		"property": prop,
		"tier":     tier,
		"seed":     seed,
		"level":    "exploration",
		"coverage": map[string]any{
			"evaluations":                    t.Cases,
			"distinct_nontrivial":            len(t.Hashes),
			"rule":                           "A case is a seeded workload, configuration, map order and schedule; each runs to completion in the simulator and its entire history is judged. Cases are distinct if their digests of (preemptions by task and statement, operations' intervals, observed states, results) differ, and non-trivial if at least one request was accepted.",
			"samples":                        samples,
			"runs_per_hour":                  int(float64(t.Cases) / hours),
			"seeds_per_run":                  "one: every run has its own seed, so seeds per hour are the runs per hour",
			"simulated_steps":                t.Steps,
			"simulated_time":                 "one step is one statement of the program; the program reads no clock, so simulated time is counted in steps",
			"faults_injected":                faults,
			"trivial_runs":                   t.Trivial,
			"struct_domain_runs":             t.Obj,
			"concurrent_runs":                t.Multi,
			"strategies":                     t.Strats,
			"operations":                     t.Stats.Ops,
			"accepted_requests":              t.Stats.Accepted,
			"rejected_requests":              t.Stats.Rejected,
			"open_outcomes":                  t.Stats.Open,
			"upserts":                        t.Stats.Upserts,
			"queries_in_runs":                t.Stats.Queries,
			"probe_queries":                  t.Stats.Probes,
			"states_observed":                t.Stats.States,
			"statements":                     len(siteNames),
			"statements_reached":             len(t.Sites),
			"statements_preempted_at":        len(t.Preempted),
			"statements_preempted_at_sample": switches,
			"other_properties_violated":      t.Other,
			"components": map[string]string{
				"real":      "internal/database, internal/index, internal/iterator, internal/structs/..., internal/sys, internal/types, pkg/database (instrumented copies of the working tree) and github.com/google/btree (as is)",
				"simulated": "package sync (mutexes, read-write locks, once, wait groups, conditions, pools), goroutine scheduling, map iteration order, the clock",
				"stub":      "none",
				"mode":      mode,
			},
			"digest": fmt.Sprintf("%016x", t.Digest),
		},
		"assumptions": []string{
			"Tasks are preempted between statements of this module, not within expressions or within dependencies.",
			"Except under the race detector, memory is sequentially consistent.",
		},
		"wall_s":     wall,
		"violations": violations,
	}
	if f != nil {
		ev["violation"] = map[string]any{"class": f.Viol.Class, "message": f.Viol.Msg, "seed": f.Seed, "index": f.Index}
	}
	path := filepath.Join(out, "evidence", prop+".json")
	if zs.Race {
		// The race detector's pass follows the plain one, and adds to its evidence.
		var plain map[string]any
		b, err := os.ReadFile(path)
		if err == nil && json.Unmarshal(b, &plain) == nil && plain["coverage"] != nil {
			cov := ev["coverage"].(map[string]any)
			delete(cov, "samples")
			plain["coverage"].(map[string]any)["race_detector_pass"] = cov
			plain["wall_s"] = plain["wall_s"].(float64) + wall
			plain["violations"] = violations
			plain["violation"] = ev["violation"]
			ev = plain
		}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(os.MkdirAll(filepath.Join(out, "evidence"), 0o755))
	must(os.WriteFile(path, b, 0o644))
}
