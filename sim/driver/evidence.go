package main

import (
	"fmt"
	"os"
	"time"
)

var ruleOf = map[string]string{
	"session":    "A run is one generated plan: documents drawn by a grammar over everything the library accepts, a history of operations over several documents and files, I/O faults with their offsets, crash points at instrumented statements, and a seed for hash iteration order. It counts as distinct and non-trivial if the hash over content, operations and faults was not seen before and at least two operations took effect and were compared with the reference model.",
	"concurrent": "A run is one generated plan: documents, one session per task, and a schedule that preempts tasks between instrumented statements. Each task is first run alone and then together with the others. It counts as distinct and non-trivial if the hash over content, sessions and preemption rate was not seen before and at least two operations took effect.",
	"rounds":     "A run is one generated plan: documents and a short history of operations and faults that is repeated 60 to 360 times, with other names in every round, and leaves the documents as they were; the instrumented statements of each round are counted, and the memory kept is measured after each third. It counts as distinct and non-trivial if the hash over content and operations was not seen before and at least two operations took effect.",
	"scale":      "A run is one generated plan executed on three (to confirm, four) documents that differ in size only: one container, text or nesting chosen by the seed is 1, 2, 4 (8) times as large; the instrumented statements of each operation are compared. It counts as distinct and non-trivial if the hash over content and operations was not seen before and at least two operations took effect.",
	"maps":       "A run is one generated history: up to three maps of the 21 map types, a key pool, up to four clients that take turns between operations, callbacks that re-enter, panic or end the task, values that fail to serialise. It counts as distinct and non-trivial if the hash over types, keys and operations was not seen before and at least two operations took effect.",
}

func ruleFor(prop string) string {
	switch prop {
	case "C12", "C13":
		return ruleOf["maps"]
	case "C22":
		return ruleOf["rounds"]
	case "C23":
		return ruleOf["scale"]
	case "C15":
		return ruleOf["concurrent"]
	case "C14":
		return ruleOf["concurrent"] + " About 40% of the runs are single-task sessions over several documents, where after every operation all other documents are compared with their models."
	}
	return ruleOf["session"]
}

func (c *checker) evidence(name string, nviol int, known []string) {
	wall := time.Since(c.begin).Seconds()
	perHour := 0.0
	if c.t.cpu > 0 {
		perHour = float64(c.t.runs) / c.t.cpu * 3600 * float64(nworkers)
	}
	samples := []interface{}{}
	for i, s := range c.t.samples {
		if i < 4 {
			samples = append(samples, s)
		}
	}
	var faults int64
	for _, n := range c.t.stats.Faults {
		faults += n
	}
	cov := map[string]interface{}{
		"evaluations":            c.t.runs,
		"distinct_nontrivial":    int64(len(c.t.hashes)) + c.t.moreD,
		"rule":                   ruleFor(c.prop),
		"samples":                samples,
		"simulated_runs":         c.t.runs,
		"seeds_per_hour":         int64(perHour),
		"cpu_seconds":            c.t.cpu,
		"simulated_time_s":       float64(c.t.stats.SimMs) / 1000,
		"simulated_steps":        c.t.stats.Steps,
		"context_switches":       c.t.stats.Switches,
		"distinct_interleavings": len(c.t.inter),
		"interleaving_measure":   "hash over all scheduling decisions of a run (which task, after how many statements); single-task sessions differ in it only by where they are killed",
		"distinct_histories":     len(c.t.traces),
		"history_measure":        "hash over the complete trace of a run: every operation with its outcome, every byte written, every fault",
		"operations":             c.t.stats.Ops,
		"faults_injected":        c.t.stats.Faults,
		"faults_total":           faults,
		"notable":                c.t.stats.Probes,
		"bytes_parsed":           c.t.stats.Bytes,
		"documents_left_out":     c.t.stats.GenBad,
		"determinism": map[string]interface{}{
			"same_seed_twice_in_process":   c.t.selfs,
			"same_seed_in_fresh_process":   c.t.fresh,
			"runs_that_depended_on_others": len(c.t.leaks),
		},
		"instrumentation": map[string]interface{}{"mode": c.b.Mode, "counts": c.b.Stats, "race_detector_runs": c.t.raceRuns},
		"components": map[string]interface{}{
			"real": []string{"every package of lib-go-raml from the working tree of /repo (parser, element types, maps, writer)", "github.com/Foxcapades/lib-go-yaml (instrumented copy of the module cache)", "gopkg.in/yaml.v3", "encoding/json", "the Go runtime, with one task running at a time"},
			"stub": []string{"task scheduler", "clock, timers and math/rand", "package sync (simulated locks)", "hash map iteration order", "sources and destinations of documents (io.Reader, io.Writer)", "the disk, with page cache, torn and lost writes"},
		},
		"violations_of_other_properties": c.t.other,
		"not_reproduced":                 c.t.unconf,
		"harness_errors":                 len(c.t.harness) + len(c.t.dead),
		"known_findings":                 known,
	}
	ev := map[string]interface{}{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"documents that the underlying YAML library cannot carry through its own encoder and decoder unchanged are left out (documents_left_out)",
			"a crash keeps only what the simulated disk made durable; process memory is gone",
			"yaml.v3, encoding/json and the Go runtime are trusted and not preempted inside",
		},
		"wall_s": wall, "violations": nviol,
	}
	if err := writeJSON(name, ev); err != nil {
		fmt.Fprintf(os.Stderr, "driver: %v\n", err)
	}
}
