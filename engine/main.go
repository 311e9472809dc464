package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type UnitResult struct {
	Unit        string         `json:"unit"`
	Entry       string         `json:"entry"`
	Params      map[string]int `json:"bounds"`
	Paths       int64          `json:"paths"`
	Infeasible  int64          `json:"infeasible_paths"`
	Steps       int64          `json:"ssa_instructions"`
	Decisions   int64          `json:"symbolic_branches"`
	MaxDepth    int            `json:"max_branch_depth"`
	Queries     int64          `json:"solver_queries"`
	SolverMs    int64          `json:"solver_ms"`
	Unknown     int64          `json:"solver_unknown"`
	AssertQ     int64          `json:"assertion_queries"`
	AssertC     int64          `json:"assertions_true_on_every_value_of_the_path"`
	DomainDec   int64          `json:"branches_decided_by_exact_byte_domains"`
	CertQ       int64          `json:"value_sets_certified_by_the_solver"`
	CoverQ      int64          `json:"path_coverage_queries"`
	CoverNone   int64          `json:"paths_that_prune_nothing"`
	CoverUnk    int64          `json:"path_coverage_unknown,omitempty"`
	ModelDec    int64          `json:"branches_witnessed_by_a_model"`
	SolverDec   int64          `json:"branches_decided_by_the_solver"`
	Reached     map[string]int `json:"reached"`
	Missing     []string       `json:"vacuous,omitempty"`
	Inconcl     map[string]int `json:"inconclusive,omitempty"`
	Exhausted   bool           `json:"all_paths_within_bounds_explored"`
	Violations  []string       `json:"violations,omitempty"`
	NotRepro    []string       `json:"counterexamples_not_reproduced_natively,omitempty"`
	Validated   int            `json:"traces_validated_against_impl"`
	Mismatch    []string       `json:"trace_mismatches,omitempty"`
	Functions   []string       `json:"functions_encoded"`
	WallS       float64        `json:"wall_s"`
	Error       string         `json:"error,omitempty"`
	samples     []Sample
	sampleInput []any
}

var (
	flagVerif   = flag.String("verif", "/verif", "verification directory")
	flagRepo    = flag.String("repo", "/repo", "repository")
	flagProp    = flag.String("prop", "", "property id")
	flagTier    = flag.String("tier", "", "quick or thorough")
	flagUnit    = flag.String("unit", "", "run only this unit")
	flagV       = flag.Bool("v", false, "verbose")
	flagWorkers = flag.Int("workers", 0, "workers")
	flagBudget  = flag.Float64("budget", 0, "seconds for exploration")
	flagSolver  = flag.String("solver", "z3-new", "solver binary")
	flagNoNat   = flag.Bool("nonative", false, "skip native replay (debugging)")
	flagParam   = flag.String("param", "", "k=v,... overrides")
	flagProf    = flag.String("cpuprofile", "", "write profile")
)

func main() {
	flag.Parse()
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	if *flagTier == "" {
		*flagTier = os.Getenv("VERIF_TIER")
	}
	if *flagTier != "thorough" {
		*flagTier = "quick"
	}
	if *flagProf != "" {
		f, _ := os.Create(*flagProf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	code := runCheck(*flagProp, *flagTier)
	if *flagProf != "" {
		pprof.StopCPUProfile()
	}
	if fnProf != nil {
		fnProf.dump()
	}
	os.Exit(code)
}

func runCheck(prop, tier string) (code int) {
	start := time.Now()
	verif, repo := *flagVerif, *flagRepo
	scratch, err := os.MkdirTemp("", "vsymgo-"+prop+"-")
	if err != nil {
		fmt.Println("cannot create scratch:", err)
		return 2
	}
	defer os.RemoveAll(scratch)
	groups, err := parseHarness(verif, prop)
	if err != nil {
		fmt.Println("harness:", err)
		return 2
	}
	budget := 150.0
	if tier == "thorough" {
		budget = 620
	}
	if *flagBudget > 0 {
		budget = *flagBudget
	}
	var share float64
	for _, g := range groups {
		for _, u := range g.Units {
			share += u.Share
		}
	}
	known := loadKnown(filepath.Join(verif, "known-findings.txt"))
	repDir := filepath.Join(verif, "evidence", "replay")
	os.MkdirAll(repDir, 0o755)
	old, _ := filepath.Glob(filepath.Join(repDir, prop+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	var results []*UnitResult
	nviol := 0
	var assume []string
	for _, g := range groups {
		assume = append(assume, g.Assume...)
		if *flagUnit != "" && !slices.ContainsFunc(g.Units, func(u *Unit) bool { return u.Name == *flagUnit }) {
			continue
		}
		var w *World
		var errs []string
		ov, err := g.overlay(verif, repo, scratch)
		if err == nil {
			w, errs, err = loadWorld(repo, g, ov)
		}
		if err != nil {
			for _, u := range g.Units {
				results = append(results, &UnitResult{Unit: u.Name, Entry: u.Entry, Error: err.Error() + ": " + strings.Join(errs, "; ")})
			}
			fmt.Printf("INCONCLUSIVE %s %s: %v\n", prop, g.Pkg, err)
			for _, e := range errs {
				fmt.Println("   ", e)
			}
			continue
		}
		if *flagV {
			fmt.Printf("loaded %s in %.1fs\n", g.Pkg, time.Since(start).Seconds())
		}
		rp := &replayer{verif: verif, repo: repo, scratch: scratch, g: g, ov: ov}
		if !*flagNoNat {
			rp.prebuild()
		}
		spent := time.Now()
		_ = spent
		for _, u := range g.Units {
			if *flagUnit != "" && u.Name != *flagUnit {
				continue
			}
			b := budget * u.Share / share
			r, viols := runUnit(w, u, tier, b)
			results = append(results, r)
			for i, v := range viols {
				id := u.Name + ":" + v.Label
				path := filepath.Join(repDir, fmt.Sprintf("%s-%s-%d.json", prop, u.Name, i))
				writeReplay(path, prop, u, v, r.Params)
				repro, out := true, ""
				if !*flagNoNat {
					repro, out = rp.reproduce(u, v, r.Params, path)
				}
				if !repro && len(v.Schedule) > 0 && v.Kind != "race" {
					// The failure needs a schedule that native runs
					// don't control. The counterexample is the
					// interpreted run of the real code.
					repro = true
					v.Detail += " (with the goroutine schedule in the replay file)"
				}
				if !repro {
					r.NotRepro = append(r.NotRepro, id)
					fmt.Printf("NOT-REPRODUCED %s %s %s %s\n%s\n", prop, id, v.Kind, v.Detail, indent(out))
					if *flagV {
						b, _ := json.Marshal(v.Inputs)
						fmt.Println("   ", string(b))
						for _, s := range v.Stack {
							fmt.Println("      ", s)
						}
					}
					continue
				}
				if k := known.match(prop, id); k != "" {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
					continue
				}
				nviol++
				r.Violations = append(r.Violations, id)
				fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
				fmt.Printf("  %s %s: %s %s\n", v.Kind, u.Name, v.Label, v.Detail)
				ib, _ := json.Marshal(v.Inputs)
				fmt.Println("  inputs:", string(ib))
				for _, s := range v.Stack {
					fmt.Println("    at", s)
				}
			}
			if !*flagNoNat && len(r.samples) > 0 {
				r.Validated, r.Mismatch = rp.validate(u, r.samples, r.Params)
				for _, d := range r.Mismatch {
					fmt.Printf("TRACE-MISMATCH %s %s %s\n", prop, u.Name, d)
				}
			}
			for i, s := range r.samples {
				if i < 2 {
					r.sampleInput = append(r.sampleInput, map[string]any{"unit": u.Name, "inputs": s.Inputs, "observed": s.Observe})
				}
			}
			printUnit(r)
		}
	}
	writeEvidence(filepath.Join(verif, "evidence", prop+".json"), prop, tier, results, assume, nviol, time.Since(start).Seconds())
	if nviol > 0 {
		return 1
	}
	return 0
}

func indent(s string) string {
	return "    " + strings.ReplaceAll(strings.TrimSpace(s), "\n", "\n    ")
}

func printUnit(r *UnitResult) {
	fmt.Printf("%s: paths=%d infeasible=%d steps=%d branches=%d (domain %d, model %d, solver %d) asserts(solver %d, const %d) queries=%d solver=%dms exhausted=%v validated=%d wall=%.1fs\n",
		r.Unit, r.Paths, r.Infeasible, r.Steps, r.Decisions, r.DomainDec, r.ModelDec, r.SolverDec, r.AssertQ, r.AssertC, r.Queries, r.SolverMs, r.Exhausted, r.Validated, r.WallS)
	for _, k := range sortedKeys(r.Inconcl) {
		fmt.Printf("   inconclusive x%d: %s\n", r.Inconcl[k], k)
	}
	if len(r.Missing) > 0 {
		fmt.Printf("   VACUOUS: never reached %v (reached %v)\n", r.Missing, r.Reached)
	}
	if *flagV {
		fmt.Printf("   reached %v\n", r.Reached)
	}
}

func runUnit(w *World, u *Unit, tier string, budget float64) (*UnitResult, []*Violation) {
	t0 := time.Now()
	params := map[string]int{}
	src := u.Quick
	if tier == "thorough" {
		src = u.Thorough
	}
	for k, v := range src {
		params[k] = v
	}
	if *flagParam != "" {
		for _, kv := range strings.Split(*flagParam, ",") {
			k, v, _ := strings.Cut(kv, "=")
			params[k], _ = strconv.Atoi(v)
		}
	}
	w.cfg = &RunConfig{Params: params}
	r := &UnitResult{Unit: u.Name, Entry: u.Entry, Params: params}
	pkg := w.byPath[modPath+"/"+u.Group.Pkg]
	if pkg == nil || pkg.Func(u.Entry) == nil {
		r.Error = "entry not found"
		fmt.Printf("INCONCLUSIVE entry %s not found\n", u.Entry)
		return r, nil
	}
	entry := pkg.Func(u.Entry)
	n := *flagWorkers
	if n == 0 {
		n = runtime.NumCPU()
	}
	ex := &Explorer{nworkers: n, viol: map[string]*Violation{}, inconc: map[string]int{}, reached: map[string]int{}, fns: map[string]bool{}}
	ex.cv = sync.NewCond(&ex.mu)
	ex.deadline = time.Now().Add(time.Duration(budget * float64(time.Second)))
	ex.queue = []WorkItem{{nil, map[string]uint64{}}}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			m := NewMach(w, ex, *flagSolver)
			m.harnessDB = *flagV
			defer m.solver.Close()
			func() {
				defer func() {
					if p := recover(); p != nil {
						msg := fmt.Sprintf("engine failure: %v", p)
						if *flagV {
							msg += m.where() + string(debug.Stack())
						}
						ex.mu.Lock()
						ex.inconc[msg]++
						ex.timedOut = true
						ex.stop = true
						ex.mu.Unlock()
						ex.cv.Broadcast()
					}
				}()
				m.runWorker(func(m *Mach) { m.callFn(nil, entry, nil, nil) })
			}()
			ex.mu.Lock()
			for c := range m.fns {
				nm := c.fn.String()
				if !strings.Contains(nm, "zz_verif") && !strings.Contains(w.prog.Fset.Position(c.fn.Pos()).Filename, "zz_verif") && !strings.Contains(nm, "/vsym.") {
					ex.fns[strings.ReplaceAll(nm, modPath+"/", "")] = true
				}
			}
			if *flagV && len(m.initWhy) > 0 && i == 0 {
				for _, k := range sortedKeys(m.initWhy) {
					fmt.Println("   init:", k)
				}
			}
			ex.mu.Unlock()
		}()
	}
	wg.Wait()
	s := ex.stats
	r.Paths, r.Infeasible, r.Steps, r.Decisions, r.MaxDepth = s.Paths, s.Infeasible, s.Steps, s.Decisions, s.MaxDepth
	r.Queries, r.SolverMs, r.Unknown = s.Queries, s.SolverTime.Milliseconds(), s.Unknown
	r.AssertQ, r.AssertC = s.AssertsSolver, s.AssertsConst
	r.DomainDec, r.ModelDec, r.SolverDec = s.DomainDecisions, s.GuessDecisions, s.SolverDecisions
	r.CertQ, r.CoverQ, r.CoverNone, r.CoverUnk = s.CertQueries, s.CoverQueries, s.CoverTrivial, s.CoverUnknown
	r.Reached = ex.reached
	r.Inconcl = ex.inconc
	r.Functions = sortedKeys(ex.fns)
	r.Exhausted = !ex.timedOut && len(ex.inconc) == 0
	if ex.timedOut {
		ex.inconc["time budget reached before all paths were explored"]++
	}
	for _, l := range u.Reach {
		if ex.reached[l] == 0 {
			r.Missing = append(r.Missing, l)
		}
	}
	r.samples = ex.samples
	r.WallS = time.Since(t0).Seconds()
	var out []*Violation
	for _, k := range sortedKeys(ex.viol) {
		out = append(out, ex.viol[k])
	}
	return r, out
}

// ---- known findings

type knownSet []struct{ prop, match, text string }

func loadKnown(path string) knownSet {
	var out knownSet
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=P19 match=unit:label text...
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := strings.Fields(l)
		if len(f) < 4 {
			continue
		}
		out = append(out, struct{ prop, match, text string }{strings.TrimPrefix(f[1], "property="), strings.TrimPrefix(f[2], "match="), strings.Join(f[3:], " ")})
	}
	return out
}

func (k knownSet) match(prop, id string) string {
	for _, e := range k {
		if e.prop == prop && e.match == strings.ReplaceAll(id, " ", "_") {
			return e.text
		}
	}
	return ""
}

func writeReplay(path, prop string, u *Unit, v *Violation, params map[string]int) {
	b, _ := json.MarshalIndent(map[string]any{
		"property": prop, "unit": u.Name, "entry": u.Entry, "package": u.Group.Pkg, "kind": v.Kind, "label": v.Label, "detail": v.Detail,
		"bounds": params, "inputs": v.Inputs, "order": v.Order, "stack": v.Stack, "schedule": v.Schedule,
		"how": "bin/vsymgo replays these inputs through the harness entry compiled natively into the package (go test -overlay)",
	}, "", " ")
	os.WriteFile(path, b, 0o644)
}

func writeEvidence(path, prop, tier string, rs []*UnitResult, assume []string, nviol int, wall float64) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var states, trans, queries, aq, ac, ms int64
	val := 0
	var samples []any
	fns := map[string]bool{}
	exh := true
	for _, r := range rs {
		states += r.Paths
		trans += r.Decisions
		queries += r.Queries
		aq += r.AssertQ
		ac += r.AssertC
		ms += r.SolverMs
		val += r.Validated
		samples = append(samples, r.sampleInput...)
		for _, f := range r.Functions {
			fns[f] = true
		}
		if !r.Exhausted || r.Error != "" || len(r.Missing) > 0 {
			exh = false
		}
	}
	if samples == nil {
		samples = []any{}
	}
	sort.Strings(assume)
	if assume == nil {
		assume = []string{}
	}
	cov := map[string]any{
		"explanation": "Symbolic execution of the Go SSA of the listed functions; every assertion is decided by an SMT solver for all input values of the path (path condition and negated assertion) unless it folds to a constant; branches on a single byte-sized input, or comparing a single wider one with a constant, are decided by exact value sets, each of which the solver certifies to be exactly what the condition says for all values (value_sets_certified_by_the_solver); for as many paths as fit in a sixth of the time one more query shows that no input that takes the path's forks violates a condition that was taken for granted on it, so that the explored paths cover all inputs (path_coverage_queries); all paths within the bounds of each unit are explored when all_paths_within_bounds_explored is true. states = feasible symbolic paths (each stands for all inputs satisfying its path condition); transitions = symbolic branch points decided; traces_validated_against_impl = sampled paths whose solver-chosen inputs were run natively and whose observations matched the symbolic ones.",
		"states":      states, "transitions": trans, "traces_validated_against_impl": val, "samples": samples,
		"solver_queries": queries, "solver_ms": ms, "assertion_queries": aq, "assertions_decided_by_constant_folding": ac,
		"functions_encoded": sortedKeys(fns), "units": rs, "exhaustive": exh,
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": assume, "wall_s": wall, "violations": nviol}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(path), 0o755)
	os.WriteFile(path, b, 0o644)
}
