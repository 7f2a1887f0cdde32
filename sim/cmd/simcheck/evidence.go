package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"time"

	"verifsim/core"
	"verifsim/rt"
)

func evidence(reps []*report, tmp string, start time.Time, searchWall float64, violations, compared, diverged int, classes, other, known map[string]int) {
	var runs, conc, faulty int
	var opsN, steps, switches, simNS, poolNew, poolUse int64
	fired := map[string]int{}
	cover := map[string]int{}
	var samples []json.RawMessage
	var wall float64
	for _, r := range reps {
		runs += r.Runs
		conc += r.Conc
		faulty += r.Faulty
		opsN += r.Ops
		steps += r.Steps
		switches += r.Switches
		simNS += r.SimNS
		poolNew += r.PoolNew
		poolUse += r.PoolUse
		if r.WallS > wall {
			wall = r.WallS
		}
		for k, n := range r.Fired {
			fired[k] += n
		}
		for k, n := range r.Cover {
			cover[k] += n
		}
		if len(samples) < 3 {
			samples = append(samples, r.Samples...)
		}
	}
	var hs []uint64
	for i := 0; i < *fWorkers; i++ {
		data, _ := os.ReadFile(filepath.Join(tmp, fmt.Sprintf("hash.%d", i)))
		for len(data) >= 8 {
			hs = append(hs, binary.LittleEndian.Uint64(data))
			data = data[8:]
		}
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
	distinct := 0
	for i, h := range hs {
		if i == 0 || h != hs[i-1] {
			distinct++
		}
	}
	if wall == 0 {
		wall = 1
	}
	var instr any
	if data, err := os.ReadFile(*fInstr); err == nil {
		json.Unmarshal(data, &instr)
	}
	if samples == nil {
		samples = []json.RawMessage{}
	}
	cov := map[string]any{
		"evaluations":         runs,
		"distinct_nontrivial": distinct,
		"rule":                "One case is one simulated run: a plan (configuration, operations of every task, fault script) and a scheduling policy, both drawn from hash(seed, property, run number). It is non-trivial if it made at least 3 operations and had at least two concurrent tasks or at least one fault that really fired. Distinct: by the hash of the complete event trace (every scheduling step with its task, every call on source, client and clock with its arguments and results), merged over all workers.",
		"samples":             samples,
		"runs_per_hour":       int64(float64(runs) / wall * 3600),
		"seeds_per_hour":      int64(float64(runs) / wall * 3600),
		"simulated_seconds":   float64(simNS) / 1e9,
		"operations":          opsN,
		"scheduling_steps":    steps,
		"task_switches":       switches,
		"concurrent_runs":     conc,
		"runs_with_faults":    faulty,
		"faults_fired":        fired,
		"situations":          cover,
		"search_wall_s":       searchWall,
		"workers":             len(reps),
		"determinism":         map[string]any{"runs_repeated_by_another_process": compared, "diverged": diverged},
		"map_order_by_seed":   rt.MapRandControlled,
		"data_race_oracle":    rt.RaceBuild,
		"pool":                map[string]int64{"reused": poolUse, "new": poolNew},
		"instrumentation":     instr,
		"components":          core.Components(*fCheck),
		"violation_classes":   classes,
		"known_finding_runs":  known,
		"other_property_runs": other,
	}
	ev := map[string]any{
		"property":    *fCheck,
		"tier":        *fTier,
		"seed":        *fSeed,
		"level":       "exploration",
		"coverage":    cov,
		"assumptions": core.Assumptions(*fCheck),
		"wall_s":      time.Since(start).Seconds(),
		"violations":  violations,
	}
	data, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		die(2, "%v", err)
	}
	dir := filepath.Join(*fVerif, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, *fCheck+".json"), append(data, '\n'), 0o644); err != nil {
		die(2, "%v", err)
	}
}
