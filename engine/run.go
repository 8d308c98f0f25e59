package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

var profFile *os.File

func startProfile(p string) {
	if p != "" {
		profFile, _ = os.Create(p)
		pprof.StartCPUProfile(profFile)
	}
}
func stopProfile() {
	if profFile != nil {
		pprof.StopCPUProfile()
		profFile.Close()
	}
}

// HEntry is one harness as listed by the native binary.
type HEntry struct {
	Prop   string `json:"prop"`
	Name   string `json:"name"`
	Func   string `json:"func"`
	Bounds string `json:"bounds"`
	Tiers  string `json:"tiers"` // "", "quick", "thorough"
	Budget int    `json:"budget"`
	Panics bool   `json:"panics"`
	Race   bool   `json:"race"`
}

type Known struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Status   string `json:"status"`
}

func (e *Engine) knownKey(h, key string) bool { return e.known[key] }

type replayRes struct {
	Status string   `json:"status"` // ok, check, panic, assume, exit, timeout
	Key    string   `json:"key"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
	Log    []string `json:"log"`
	Keys   []string `json:"keys"`
}

// replay runs one assignment against the natively compiled harness.
func replay(bin, name, tier string, inputs []uint64, seconds int) replayRes {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(seconds)*time.Second)
	defer cancel()
	in := make([]string, len(inputs))
	for i, x := range inputs {
		in[i] = strconv.FormatUint(x, 10)
	}
	cmd := exec.CommandContext(ctx, "/bin/bash", "-c", "ulimit -v 8000000; exec \"$0\" \"$@\"", bin, "-run", name, "-tier", tier, "-inputs", strings.Join(in, ","))
	if strings.HasSuffix(bin, "race") {
		cmd = exec.CommandContext(ctx, bin, "-run", name, "-tier", tier, "-inputs", strings.Join(in, ","))
		cmd.Env = append(os.Environ(), "GORACE=exitcode=66 halt_on_error=1")
	}
	cmd.WaitDelay = time.Second
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	err := cmd.Run()
	if ctx.Err() != nil {
		return replayRes{Status: "timeout", Key: "hang", Msg: fmt.Sprintf("no result within %d s", seconds)}
	}
	if strings.Contains(errb.String(), "WARNING: DATA RACE") {
		return replayRes{Status: "race", Key: "data-race", Msg: firstLines(errb.String(), 12)}
	}
	// the result is the last line that parses
	lines := strings.Split(strings.TrimSpace(out.String()), "\n")
	for i := len(lines) - 1; i >= 0; i-- {
		if k := strings.Index(lines[i], "@@RESULT "); k >= 0 {
			var r replayRes
			if json.Unmarshal([]byte(lines[i][k+9:]), &r) == nil {
				return r
			}
		}
	}
	msg := errb.String()
	if strings.Contains(msg, "stack overflow") || strings.Contains(msg, "exceeds 1000000000-byte limit") {
		return replayRes{Status: "panic", Key: "panic:stack overflow", Msg: firstLines(msg, 3)}
	}
	if strings.Contains(msg, "out of memory") || strings.Contains(msg, "cannot allocate memory") {
		return replayRes{Status: "timeout", Key: "hang", Msg: "memory exhausted"}
	}
	if err != nil {
		return replayRes{Status: "exit", Key: "exit", Msg: "process ended: " + err.Error() + " " + firstLines(msg, 3)}
	}
	return replayRes{Status: "exit", Key: "exit", Msg: "process exited without result"}
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// replayBatch runs many assignments in one native process.
func replayBatch(bin, name, tier string, ss []Sample) ([]replayRes, error) {
	f, err := os.CreateTemp("", "symgo-batch")
	if err != nil {
		return nil, err
	}
	defer os.Remove(f.Name())
	var ins [][]uint64
	for _, s := range ss {
		ins = append(ins, s.Inputs)
	}
	json.NewEncoder(f).Encode(ins)
	f.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-run", name, "-tier", tier, "-batch", f.Name())
	cmd.WaitDelay = time.Second
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Run()
	var rs []replayRes
	for _, l := range strings.Split(out.String(), "\n") {
		if k := strings.Index(l, "@@RESULT "); k >= 0 {
			var r replayRes
			if json.Unmarshal([]byte(l[k+9:]), &r) == nil {
				rs = append(rs, r)
			}
		}
	}
	return rs, nil
}

func runProp(dir, pkg, prop, only, tier string, workers int, bin, outDir, level, knownFile string, budget time.Duration, verbose bool) int {
	t0 := time.Now()
	out, err := exec.Command(bin, "-list").Output()
	if err != nil {
		fmt.Fprintln(os.Stderr, "symgo: cannot list harnesses:", err)
		return 3
	}
	var all []HEntry
	if err := json.Unmarshal(out, &all); err != nil {
		fmt.Fprintln(os.Stderr, "symgo: bad harness list:", err)
		return 3
	}
	var hs []HEntry
	for _, h := range all {
		if h.Prop == prop && (h.Tiers == "" || h.Tiers == tier) && strings.Contains(h.Name, only) {
			hs = append(hs, h)
		}
	}
	if len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "symgo: no harness for", prop)
		return 3
	}
	var known []Known
	if b, err := os.ReadFile(knownFile); err == nil {
		if err := json.Unmarshal(b, &known); err != nil {
			fmt.Fprintln(os.Stderr, "symgo: known findings:", err)
			return 3
		}
	}
	e, err := loadEngine(dir, pkg)
	if err != nil {
		fmt.Fprintln(os.Stderr, "symgo:", err)
		return 3
	}
	if n, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		e.seed = uint64(n)
	}
	e.known = map[string]bool{}
	knownWhat := map[string]string{}
	for _, k := range known {
		if k.Property == prop && k.Status == "open" {
			e.known[k.Key] = true
			knownWhat[k.Key] = k.What
		}
	}
	e.cfg = Config{MaxPerKey: 3, SampleEvery: 64, MaxSamples: 400, Workers: workers, StepLimit: 3_000_000, MaxDepth: 700, AfterVio: 3 * time.Second, ForkSites: forkSites}
	defBudget := 40 * time.Second
	if tier == "thorough" {
		e.cfg.Tier = 1
		e.cfg.AllSolver = true
		e.cfg.MaxSamples = 2000
		e.cfg.StepLimit = 12_000_000
		defBudget = 400 * time.Second
	}
	var ws []*W
	for i := 0; i < workers; i++ {
		ws = append(ws, e.newW(i))
	}
	errc := make(chan error, len(ws))
	for _, w := range ws {
		w := w
		go func() { errc <- w.initAll() }()
	}
	for range ws {
		if err := <-errc; err != nil {
			fmt.Fprintln(os.Stderr, "symgo:", err)
			return 3
		}
	}
	loadS := time.Since(t0).Seconds()
	if verbose {
		fmt.Printf("loaded in %.1fs\n", loadS)
	}

	type confirmed struct {
		v *Violation
		r replayRes
	}
	var bad []confirmed
	knownHit := map[string]string{}
	var outs []*HOut
	traces, mismatches, unconfirmed := 0, 0, 0
	var notes []string
	funcs := map[string]bool{}
	replayDir := filepath.Join(outDir, "replays")
	for _, h := range hs {
		b := defBudget
		if h.Budget > 0 && tier != "thorough" {
			b = time.Duration(h.Budget) * time.Second
		}
		if budget > 0 {
			b = budget
		}
		if left := 700*time.Second - time.Since(t0); tier != "thorough" && b > left {
			// the quick check ends in time on a slow or loaded machine
			if b = left; b < 2*time.Second {
				b = 2 * time.Second
			}
		}
		o := e.runHarness(ws, h.Name, h.Func, b)
		outs = append(outs, o)
		for _, f := range o.FuncList {
			funcs[f] = true
		}
		isBad := func(r replayRes) bool {
			return r.Status == "check" || r.Status == "panic" || r.Status == "exit" || r.Status == "timeout" || r.Status == "race"
		}
		note := func(r replayRes, inputs []uint64, kind string) {
			keys := r.Keys
			if len(keys) == 0 {
				keys = []string{r.Key}
			}
			for _, k := range keys {
				if e.known[k] {
					knownHit[k] = knownWhat[k]
					continue
				}
				bad = append(bad, confirmed{&Violation{Harness: h.Name, Key: k, Msg: r.Msg, Inputs: inputs, Kind: kind}, r})
			}
		}
		rbin := bin
		if h.Race {
			rbin = bin + "-race"
		}
		for _, v := range o.Violations {
			secs := 10
			if h.Race {
				secs = 40
			}
			r := replay(rbin, h.Name, tier, v.Inputs, secs)
			if isBad(r) {
				note(r, v.Inputs, v.Kind)
			} else {
				unconfirmed++
				notes = append(notes, fmt.Sprintf("%s: solver assignment for %q not reproduced by the real code (%s)", h.Name, v.Key, r.Status))
				if verbose {
					fmt.Printf("UNCONFIRMED %s %s: %s inputs=%v native=%s obs=%q\n", h.Name, v.Key, v.Msg, v.Inputs, r.Status, r.Obs)
				}
			}
		}
		rs, err := replayBatch(bin, h.Name, tier, o.Samples)
		if err != nil {
			notes = append(notes, err.Error())
		}
		for i := range rs {
			if i >= len(o.Samples) {
				break
			}
			traces++
			r := rs[i]
			if isBad(r) {
				// the real code violates the property where the encoding did not
				r2 := replay(rbin, h.Name, tier, o.Samples[i].Inputs, 10)
				if isBad(r2) {
					note(r2, o.Samples[i].Inputs, "native")
				}
				continue
			}
			if r.Status != "ok" || strings.Join(r.Obs, "\x00") != strings.Join(o.Samples[i].Obs, "\x00") {
				mismatches++
				if mismatches <= 5 {
					notes = append(notes, fmt.Sprintf("%s: encoding and real code differ on %v: %s %q vs %q", h.Name, o.Samples[i].Inputs, r.Status, r.Obs, o.Samples[i].Obs))
				}
				if verbose && mismatches <= 5 {
					fmt.Printf("MISMATCH %s\n  native %q\n  engine %q\n", h.Name, r.Obs, o.Samples[i].Obs)
				}
			}
		}
		if len(rs) < len(o.Samples) && verbose {
			fmt.Printf("batch replay of %s returned %d of %d\n", h.Name, len(rs), len(o.Samples))
		}
		if verbose {
			fmt.Printf("%-32s paths=%d completed=%d stops=%v exhausted=%v forks=%d asserts=%d/%d queries=%d (%d sat %d unsat %d unk) solver=%.1fs steps=%dM wall=%.1fs vars<=%d reach=%v\n",
				h.Name, o.Paths, o.Completed, o.Stops, o.Exhausted, o.Forks, o.Asserts, o.SymAsserts, o.Queries, o.Sat, o.Unsat, o.Unknown, o.SolverS, o.Steps/1e6, o.WallS, o.MaxVars, o.Reach)
			cuts := []string{}
			for k := range o.Cut {
				cuts = append(cuts, k)
			}
			sort.Slice(cuts, func(i, j int) bool { return o.Cut[cuts[i]] > o.Cut[cuts[j]] })
			for i, k := range cuts {
				if i > 8 {
					break
				}
				fmt.Printf("    cut %6d  %s\n", o.Cut[k], k)
			}
		}
		if len(bad) > 0 && tier == "quick" {
			break
		}
	}

	// report
	keys := []string{}
	for k := range knownHit {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, k, knownHit[k])
	}
	code := 0
	seen := map[string]bool{}
	for i, c := range bad {
		id := c.v.Harness + "/" + c.v.Key
		if seen[id] {
			continue
		}
		seen[id] = true
		os.MkdirAll(replayDir, 0o755)
		rp := filepath.Join(replayDir, fmt.Sprintf("%s-%d.json", prop, i))
		rec := map[string]any{"property": prop, "harness": c.v.Harness, "key": c.v.Key, "kind": c.v.Kind, "tier": tier, "inputs": c.v.Inputs,
			"native_status": c.r.Status, "native_message": c.r.Msg, "log": c.r.Log,
			"how": fmt.Sprintf("bash /verif/replay.sh %s", rp)}
		bs, _ := json.MarshalIndent(rec, "", " ")
		os.WriteFile(rp, bs, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
		fmt.Printf("  harness %s, %s: %s %s\n", c.v.Harness, c.v.Key, c.r.Status, firstLines(c.r.Msg, 4))
		for _, l := range c.r.Log {
			fmt.Printf("    %s\n", l)
		}
		code = 1
		if len(seen) >= 5 {
			break
		}
	}

	// evidence
	var paths, forks, forced, queries, nsat, nunsat, nunk, asserts, symA, steps int64
	var solverS float64
	exhaustive := true
	harn := []any{}
	samples := []any{}
	for i, o := range outs {
		paths += o.Completed
		forks += o.Forks
		forced += o.Forced
		queries += o.Queries
		nsat += o.Sat
		nunsat += o.Unsat
		nunk += o.Unknown
		asserts += o.Asserts
		symA += o.SymAsserts
		steps += o.Steps
		solverS += o.SolverS
		if !o.Exhausted || len(o.Cut) > 0 {
			exhaustive = false
		}
		for j := 0; j < len(o.Samples) && j < 2; j++ {
			samples = append(samples, map[string]any{"harness": o.Name, "solver_model": o.Samples[j].Inputs, "observed": o.Samples[j].Obs})
		}
		harn = append(harn, map[string]any{"harness": o.Name, "bounds": hs[i].Bounds, "paths": o.Paths, "path_ends": o.Stops, "space_exhausted": o.Exhausted,
			"cut_paths": o.Cut, "reachability_witness": o.Reach, "repo_functions_encoded": o.Functions, "queries": o.Queries, "solver_s": round(o.SolverS), "wall_s": round(o.WallS),
			"assertions": o.Asserts, "assertions_sent_to_solver": o.SymAsserts, "max_symbolic_inputs": o.MaxVars})
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, strings.ReplaceAll(f, e.repoMod+"/", ""))
	}
	sort.Strings(fl)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if len(samples) > 12 {
		samples = samples[:12]
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.Since(t0).Seconds()), "violations": len(seen),
		"coverage": map[string]any{
			"states": paths, "transitions": forks + forced, "traces_validated_against_impl": traces, "samples": samples, "exhaustive": exhaustive,
			"explanation":                       "states = symbolic paths run to completion (each stands for every input satisfying its path condition); transitions = symbolic branches decided (forked or forced); traces = solver models of such paths replayed by the natively compiled harness and compared with what the encoding observed",
			"ssa_instructions_executed":         steps,
			"queries":                           map[string]any{"total": queries, "sat": nsat, "unsat": nunsat, "unknown": nunk, "solver_s": round(solverS)},
			"assertions_evaluated":              asserts,
			"assertions_sent_to_solver":         symA,
			"functions_encoded":                 fl,
			"harnesses":                         harn,
			"encoding_vs_native_mismatches":     mismatches,
			"solver_assignments_not_reproduced": unconfirmed,
			"notes":                             notes,
			"known_findings_seen":               keys,
		},
		"assumptions": []string{
			"the SSA encoder (engine/) models Go semantics of the executed instructions; sampled paths are cross-checked natively on every run",
			"standard-library functions listed in engine/natives.go are stubs with their documented behaviour; error texts are not modelled",
			"what lies outside the bounds stated per harness is not covered",
		},
	}
	os.MkdirAll(filepath.Join(outDir, "evidence"), 0o755)
	bs, _ := json.MarshalIndent(ev, "", " ")
	if only == "" {
		os.WriteFile(filepath.Join(outDir, "evidence", prop+".json"), append(bs, '\n'), 0o644)
	}
	vac := false
	for _, o := range outs {
		if o.Completed == 0 && len(o.Violations) == 0 {
			vac = true
			fmt.Printf("note: harness %s completed no path: %v\n", o.Name, o.Cut)
		}
	}
	_ = vac
	fmt.Printf("%s %s: %d paths, %d queries (%.1fs solver), %d traces replayed, %d mismatches, exhausted=%v, %.1fs\n", prop, tier, paths, queries, solverS, traces, mismatches, exhaustive, time.Since(t0).Seconds())
	return code
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }
