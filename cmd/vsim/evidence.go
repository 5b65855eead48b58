package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

type evidence struct {
	buildS, simWall, wall   float64
	violations, unconfirmed int
	repeated, differing     int
	plain, race             int
	bin                     string
	base                    uint64
}

const rule = "A case is one simulated run: the seed determines a federation, the operations on it over time, faults and the scheduler's decisions, and the run is judged by the reference model and the invariants. It is non-trivial if at least one operation of the code under test ran, sent a request over the simulated network and the scheduler had more than one goroutine to choose from; runs are distinct if their digests (schedule, all requests with times, faults and answers, all results) differ."

func writeEvidence(prop, tier string, seed uint64, b budget, c *collector, e evidence) error {
	var samples []any
	for i := 0; i < 2; i++ {
		p, err := genPlan(e.bin, prop, e.base+uint64(i))
		if err == nil {
			samples = append(samples, sample(p))
		}
	}
	out := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":                  c.lines,
			"distinct_nontrivial":          len(c.nontr),
			"rule":                         rule,
			"samples":                      samples,
			"exhaustive":                   false,
			"runs_per_hour":                perHour(c.lines, e.simWall),
			"runs_with_race_detector":      e.race,
			"simulated_hours":              c.simS / 3600,
			"simulated_seconds_per_second": c.simS / (e.simWall + 0.001),
			"operations":                   c.agg.Ops,
			"requests":                     c.agg.Reqs,
			"scheduling_decisions":         c.agg.Choices,
			"yield_points_passed":          c.agg.Steps,
			"distinct_interleavings":       len(c.hash),
			"interleaving_measure":         "hash over the sequence of all decisions of the scheduler (which goroutine runs next, where it is preempted) of a run",
			"faults_injected":              c.agg.Faults,
			"checks_made":                  c.agg.Probes,
			"seeds_repeated":               e.repeated,
			"seeds_repeated_differently":   e.differing,
			"failures_not_confirmed":       e.unconfirmed,
			"real_components":              []string{"all packages of github.com/go-oidfed/lib (instrumented with yield points only)", "resty and net/http client above the transport", "jwx (signing and verification)", "TwiN/gocache, go-redis client, msgpack", "Go runtime (scheduler replaced by the seeded one, clock virtual)"},
			"stub_components":              []string{"HTTP transport and all remote parties (simulated federation)", "redis server (in memory, over net.Pipe)", "clock and timers (virtual)", "random numbers (seeded)"},
		},
		"assumptions": []string{
			"goroutines are preempted at synchronisation operations, I/O, and at sampled loop and function boundaries of the repository's packages, not between arbitrary instructions",
			"the reference model in /verif/sim is right",
		},
		"wall_s":     e.wall,
		"violations": e.violations,
	}
	dir := filepath.Join(verifDir(), "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	bs, err := json.MarshalIndent(out, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, prop+".json"), bs, 0o644)
}

func perHour(n int, s float64) int {
	if s <= 0 {
		return 0
	}
	return int(float64(n) / s * 3600)
}

// sample is a plan in short.
func sample(p plan) any {
	short := map[string]any{"seed": p["seed"], "sched": p["sched"], "cache": p["cache"], "faults": p["faults"], "latency_ms": p["latency_ms"], "ops": p["ops"]}
	var ns []string
	l, _ := p["nodes"].([]any)
	for _, n := range l {
		m, _ := n.(map[string]any)
		var subs []string
		sl, _ := m["subs"].([]any)
		for _, s := range sl {
			sm, _ := s.(map[string]any)
			subs = append(subs, fmt.Sprint(sm["id"]))
		}
		s := fmt.Sprint(m["id"])
		if len(subs) > 0 {
			s += " over " + strings.Join(subs, ", ")
		}
		if m["byz"] != nil {
			s += fmt.Sprint(" falsified: ", m["byz"])
		}
		ns = append(ns, s)
	}
	short["entities"] = ns
	return short
}

func cmdGen(prop, seed string) int {
	bin := filepath.Join(buildDir(), "simbin")
	cmd := exec.Command(bin, "gen", prop, seed)
	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
	if cmd.Run() != nil {
		return 2
	}
	return 0
}
