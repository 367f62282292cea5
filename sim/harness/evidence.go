package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
)

func writeEvidence(p *Prop, tier Tier, m *merged, wall float64, viol int) {
	cov := map[string]any{
		"evaluations":         m.Runs,
		"distinct_nontrivial": len(m.cases),
		"rule":                p.Rule,
		"samples":             m.Samples,
		"runs_by_phase":       m.phase,
		"operations":          m.Ops,
		"oracle_evaluations":  m.Evals,
		"simulated_steps":     m.Steps,
		"simulated_time_s":    float64(m.SimNS) / 1e9,
		"runs_per_hour":       int64(float64(m.Runs) / wall * 3600),
		"seeds_per_hour":      int64(float64(m.Runs) / wall * 3600),
		"faults_injected":     m.Faults,
		"probes":              m.Probes,
		"event_log_hash":      fmt.Sprintf("%016x", m.EvHash),
		"real_components":     p.Real,
		"stubbed_components":  p.Stub,
		"map_orders_chosen":   m.MapIters,
	}
	if len(m.inter) > 0 {
		cov["context_switches"] = m.Switches
		cov["distinct_interleavings"] = len(m.inter)
		cov["interleaving_measure"] = "hash of the sequence (task left, statement it was preempted at, task resumed)"
		cov["distinct_switch_pairs"] = len(m.pairs)
		cov["switch_pair_measure"] = "(statement preempted at, statement the resumed task was parked at)"
	}
	if len(m.Max) > 0 {
		cov["worst_cases"] = m.Max
	}
	byFile := map[string]int{}
	total := map[string]int{}
	for _, s := range sites {
		total[s.File]++
		if _, ok := m.hits[uint64(s.ID)]; ok {
			byFile[s.File]++
		}
	}
	reach := map[string]string{}
	for f, n := range total {
		reach[f] = fmt.Sprintf("%d/%d", byFile[f], n)
	}
	cov["statements_reached"] = reach
	if len(m.Known) > 0 {
		cov["known_findings_hit"] = m.Known
	}
	if len(m.Samples) == 0 {
		cov["samples"] = []string{"(no run of this batch had a case small enough to write out)"}
	}
	seed := *fSeed
	ev := map[string]any{
		"property": p.ID, "tier": string(tier), "seed": seed, "level": p.Level,
		"coverage": cov, "wall_s": wall, "violations": viol,
		"assumptions": []string{
			"the code under test is compiled with a yield before each statement; its own statements are unchanged",
			"a context switch happens only between statements; the race detector pass covers accesses inside one",
			"a clean batch is evidence, not proof: the space of schedules, faults and documents is sampled",
		},
	}
	dir := filepath.Join(*fVerif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
	_ = sort.Strings
}
