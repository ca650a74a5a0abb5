package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Check struct {
	Property    string   `json:"property"`
	Title       string   `json:"title"`
	InPackage   []string `json:"in_package,omitempty"`
	Quick       []*Job   `json:"quick"`
	Thorough    []*Job   `json:"thorough,omitempty"`
	Bounds      []string `json:"bounds"`
	Assumptions []string `json:"assumptions"`
}

type finding struct {
	property string
	harness  string
	match    *regexp.Regexp
	what     string
}

func loadFindings(path string) ([]finding, error) {
	b, err := os.ReadFile(path)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var fs []finding
	// finding: property=C01 harness=H match=/re/ what...
	re := regexp.MustCompile(`^finding:\s+property=(\S+)\s+harness=(\S+)\s+match=/(.*)/\s+(.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		x := re.FindStringSubmatch(l)
		if x == nil {
			return nil, fmt.Errorf("bad line in %s: %s", path, l)
		}
		r, err := regexp.Compile(x[3])
		if err != nil {
			return nil, err
		}
		fs = append(fs, finding{x[1], x[2], r, x[4]})
	}
	return fs, nil
}

func envInt(k string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return def
}

type paramFlag map[string]int

func (p paramFlag) String() string { return "" }
func (p paramFlag) Set(s string) error {
	i := strings.IndexByte(s, '=')
	if i < 0 {
		return fmt.Errorf("name=value")
	}
	v, err := strconv.Atoi(s[i+1:])
	p[s[:i]] = v
	return err
}

func solverPath() string {
	for _, p := range []string{os.Getenv("VERIF_SOLVER"), "/opt/veriftools/pyvenv/bin/z3", "/usr/local/bin/z3-new", "/usr/bin/z3"} {
		if p == "" {
			continue
		}
		if _, err := os.Stat(p); err == nil {
			return p
		}
	}
	return "z3"
}

func main() {
	debug.SetGCPercent(300)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: engine check|run|replay ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("engine", flag.ExitOnError)
	verif := fs.String("verif", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	prop := fs.String("property", "", "")
	tier := fs.String("tier", "", "")
	harness := fs.String("harness", "", "")
	params := paramFlag{}
	fs.Var(params, "param", "name=value")
	delays := fs.Int("delays", 0, "")
	budget := fs.Int("budget", 0, "seconds")
	nw := fs.Int("workers", 0, "")
	inpkg := fs.String("inpkg", "", "")
	race := fs.Bool("race", false, "look for data races")
	verbose := fs.Bool("v", false, "")
	prof := fs.String("cpuprofile", "", "")
	nsamp := fs.Int("samples", -1, "")
	keep := fs.Bool("keep", false, "")
	file := fs.String("file", "", "counterexample to replay")
	fs.Parse(os.Args[2:])
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
		if *tier == "" {
			*tier = "quick"
		}
	}
	if *nw == 0 {
		*nw = runtime.NumCPU()
		if *nw > 8 {
			*nw = 8
		}
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	var ck *Check
	switch os.Args[1] {
	case "replay":
		abs, _ := filepath.Abs(*file)
		os.Exit(replayFile(*verif, *repo, abs))
	case "check":
		b, err := os.ReadFile(filepath.Join(*verif, "checks", *prop+".json"))
		if err != nil {
			die("%v", err)
		}
		ck = &Check{}
		if err := json.Unmarshal(b, ck); err != nil {
			die("checks/%s.json: %v", *prop, err)
		}
		ck.Property = *prop
	case "run":
		ck = &Check{Property: "DEV"}
		if *inpkg != "" {
			ck.InPackage = strings.Split(*inpkg, ",")
		}
		for _, h := range strings.Split(*harness, ",") {
			ck.Quick = append(ck.Quick, &Job{Harness: h, Params: params, Delays: *delays, Race: *race})
		}
		*tier = "quick"
	default:
		die("unknown command %s", os.Args[1])
	}
	if *nsamp < 0 {
		*nsamp = 12
		if *tier == "thorough" {
			*nsamp = 40
		}
	}
	code := runCheck(ck, *verif, *repo, *tier, *budget, *nw, *nsamp, *verbose, os.Args[1] == "run", *keep)
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}

func die(f string, a ...interface{}) {
	fmt.Printf("ERROR: "+f+"\n", a...)
	os.Exit(2)
}

func runCheck(ck *Check, verif, repo, tier string, budget, nw, nsamp int, verbose, dev, keep bool) int {
	t0 := time.Now()
	seed := envInt("VERIF_SEED", 1)
	jobs := ck.Quick
	if tier == "thorough" && len(ck.Thorough) > 0 {
		jobs = ck.Thorough
	}
	if budget == 0 {
		budget = 600
		if tier == "thorough" {
			budget = 780
		}
	}
	findings, err := loadFindings(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		die("%v", err)
	}
	prog, vh, err := loadProgram(verif, repo, ck.InPackage)
	if err != nil {
		fmt.Printf("ERROR: cannot load the program: %v\n", err)
		return 2
	}
	tLoad := time.Since(t0)
	ex := &Explorer{prog: prog, vh: vh, solver: solverPath(), verbose: verbose, nsamples: nsamp, seed: int64(seed)}
	ex.initFn = prog.get(vh.Func("init"))
	for i, j := range jobs {
		fn := vh.Func(j.Harness)
		if fn == nil {
			die("no harness %s", j.Harness)
		}
		j.id = i
		j.fn = prog.get(fn)
		if j.MaxSteps == 0 {
			j.MaxSteps = 4000000
		}
		if os.Getenv("VERIF_RACE") != "" {
			j.Race = true
		}
		j.params = map[string]int{}
		for k, v := range j.Params {
			j.params[k] = v
		}
		j.concLimit = j.ConcLimit
		if j.concLimit == 0 {
			j.concLimit = 300
		}
		j.maxAlloc = j.MaxAlloc
		if j.maxAlloc == 0 {
			j.maxAlloc = 128
		}
	}
	ex.deadline = t0.Add(time.Duration(budget) * time.Second)
	ex.explore(jobs, nw)
	tExplore := time.Since(t0) - tLoad

	// ---- replay on the compiled code ----
	rp := &replayer{verif: verif, repo: repo, extra: ck.InPackage, keep: keep}
	defer rp.close()
	outDir := filepath.Join(verif, "out", "replays")
	os.MkdirAll(outDir, 0755)
	var viols []*foundViolation
	inconclusive := []string{}
	for _, j := range jobs {
		viols = append(viols, j.viol...)
	}
	known := map[string]bool{}
	var reported []*foundViolation
	for i, v := range viols {
		v.replay = filepath.Join(outDir, fmt.Sprintf("%s-%d.json", ck.Property, i))
		writeReplay(v.replay, ck, v)
		how, ok, detail := rp.confirm(ex, v)
		v.confirm = how
		if !ok {
			inconclusive = append(inconclusive, fmt.Sprintf("counterexample of %s (%s) does not reproduce: %s", v.job.name(), v.msg, detail))
			continue
		}
		matched := false
		for _, f := range findings {
			if f.property == ck.Property && (f.harness == "*" || f.harness == v.job.Harness) && f.match.MatchString(v.msg) {
				matched = true
				if !known[f.what] {
					known[f.what] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", ck.Property, f.what)
				}
				break
			}
		}
		if !matched {
			reported = append(reported, v)
		}
		writeReplay(v.replay, ck, v)
	}
	// ---- validate sampled paths ----
	validated, mismatches := 0, []string{}
	nreplayed := 0
	if len(reported) == 0 {
		validated, nreplayed, mismatches = rp.validate(jobs, nw)
	}
	for _, mm := range mismatches {
		inconclusive = append(inconclusive, "native run differs from the encoding: "+mm)
	}
	// ---- vacuity and completeness ----
	var notes []string
	var decided int64
	for _, j := range jobs {
		decided += j.complete
	}
	for _, j := range jobs {
		if j.certErr != "" {
			inconclusive = append(inconclusive, fmt.Sprintf("%s: internal: %s", j.name(), j.certErr))
		}
		if j.leftover > 0 && !j.stopped {
			notes = append(notes, fmt.Sprintf("%s: time budget reached, %d queued branches not explored", j.name(), j.leftover))
		}
		for k, n := range j.unsupported {
			notes = append(notes, fmt.Sprintf("%s: reduced bound, not decided: %s (%d paths)", j.name(), k, n))
		}
		for k, n := range j.incomplete {
			notes = append(notes, fmt.Sprintf("%s: reduced bound, not decided: %s (%d paths)", j.name(), k, n))
		}
		if len(j.viol) == 0 {
			// a job that the time did not suffice for has decided less than
			// its bounds say, which the evidence records; one that ran to
			// the end without getting anywhere is a fault of the harness
			vac := &inconclusive
			if j.leftover > 0 && !j.stopped && decided > 0 {
				vac = &notes
			}
			for _, r := range j.Reach {
				if j.reached[r] == 0 {
					*vac = append(*vac, fmt.Sprintf("%s: never reached %q (vacuous)", j.name(), r))
				}
			}
			if j.complete == 0 {
				*vac = append(*vac, fmt.Sprintf("%s: no path completed (vacuous)", j.name()))
			}
		}
	}
	if !dev {
		writeEvidence(ck, ex, jobs, verif, tier, seed, t0, tLoad, tExplore, validated, nreplayed, reported, known, notes, inconclusive)
	}
	for _, j := range jobs {
		fmt.Printf("%s: paths=%d complete=%d infeasible=%d out-of-bound=%d forks=%d asserts=%d (solver %d, constant %d) instrs=%d depth=%d sched=%d\n",
			j.name(), j.paths, j.complete, j.infeasible, j.bound, j.forks, j.asserts, j.discharged, j.trivial, j.steps, j.maxDepth, j.schedPts)
		if verbose {
			var rs []string
			for r, n := range j.reached {
				rs = append(rs, fmt.Sprintf("%s:%d", r, n))
			}
			sort.Strings(rs)
			fmt.Println("   reached", strings.Join(rs, " "))
		}
	}
	q, qt := ex.queries()
	var cp, cl int64
	for _, j := range jobs {
		cp += j.certPaths
		cl += j.certLits
	}
	fmt.Printf("solver certificates: %d paths, %d branch decisions\n", cp, cl)
	fmt.Printf("load %.1fs explore %.1fs queries %d (%.1fs solver) fast %d; %d of %d sampled paths agree with the compiled code; total %.1fs\n",
		tLoad.Seconds(), tExplore.Seconds(), q, qt.Seconds(), ex.fast(), validated, nreplayed, time.Since(t0).Seconds())
	for _, n := range notes {
		fmt.Println("NOTE:", firstLines(n, 30))
	}
	for _, s := range inconclusive {
		fmt.Println("INCONCLUSIVE:", firstLines(s, 30))
	}
	for _, w := range ex.workers {
		w.sol.Close()
	}
	if len(reported) > 0 {
		for _, v := range reported {
			fmt.Printf("  %s: %s\n    confirmed by: %s\n    at %s\n    inputs: %s\n", v.job.name(), firstLines(v.msg, 40), v.confirm, v.where, v.inputText())
			for _, o := range v.obs {
				fmt.Println("    observed", o)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.Property, reported[0].replay)
		return 1
	}
	if len(inconclusive) > 0 {
		return 2
	}
	return 0
}

func firstLines(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = append(ls[:n], "...")
	}
	return strings.Join(ls, "\n")
}

func (v *foundViolation) inputText() string {
	var ks []string
	for k := range v.values {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&sb, "%s=%d ", k, v.values[k])
	}
	return sb.String()
}

func (ex *Explorer) queries() (int64, time.Duration) {
	var q int64
	var t time.Duration
	for _, w := range ex.workers {
		q += w.sol.Queries + w.qTotal.Queries
		t += w.sol.Time + w.qTotal.Time
	}
	return q, t
}

func (ex *Explorer) fast() int64 {
	var q int64
	for _, w := range ex.workers {
		q += w.st.fast
	}
	return q
}

func writeEvidence(ck *Check, ex *Explorer, jobs []*Job, verif, tier string, seed int, t0 time.Time, tLoad, tExplore time.Duration,
	validated, nreplayed int, reported []*foundViolation, known map[string]bool, notes, inconclusive []string) {
	cov := map[string]interface{}{}
	var certP, certL int64
	var paths, complete, infeasible, bound, steps, asserts, disch, triv, forks, sched int64
	var hs []map[string]interface{}
	var samples []interface{}
	exhaustive := true
	for _, j := range jobs {
		paths += j.paths
		complete += j.complete
		infeasible += j.infeasible
		bound += j.bound
		steps += j.steps
		asserts += j.asserts
		disch += j.discharged
		triv += j.trivial
		forks += j.forks
		sched += j.schedPts
		certP += j.certPaths
		certL += j.certLits
		if j.leftover > 0 || len(j.incomplete) > 0 || len(j.unsupported) > 0 {
			exhaustive = false
		}
		hs = append(hs, map[string]interface{}{
			"harness": j.name(), "bound": j.Bound, "paths": j.paths, "completed": j.complete, "infeasible": j.infeasible,
			"out_of_bound_paths": j.bound, "assertions_checked": j.asserts, "assertions_by_solver": j.discharged,
			"assertions_constant_on_path": j.trivial, "ssa_instructions": j.steps, "forks": j.forks, "scheduling_points": j.schedPts,
			"delay_bound": j.Delays, "reached": j.reached, "unexplored_branches_at_budget": j.leftover, "max_path_steps": j.MaxSteps,
		})
		for i, s := range j.samples {
			if i >= 2 {
				break
			}
			samples = append(samples, map[string]interface{}{"harness": j.name(), "inputs": s.values, "observed": s.obs, "native": s.status})
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "no completed path")
	}
	fset := map[string]bool{}
	for _, w := range ex.workers {
		for _, f := range w.encFuncs {
			fset[f.name] = true
		}
	}
	var fns []string
	for f := range fset {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	q, qt := ex.queries()
	var sat, unsat, unk int64
	for _, w := range ex.workers {
		sat += w.sol.Sat + w.qTotal.Sat
		unsat += w.sol.Unsat + w.qTotal.Unsat
		unk += w.sol.Unknown + w.qTotal.Unknown
	}
	cov["states"] = complete
	cov["transitions"] = steps
	cov["traces_validated_against_impl"] = validated
	cov["samples"] = samples
	cov["exhaustive"] = exhaustive
	cov["paths_started"] = paths
	cov["paths_infeasible"] = infeasible
	cov["paths_outside_bounds"] = bound
	cov["forks"] = forks
	cov["scheduling_points"] = sched
	cov["assertions_checked"] = asserts
	cov["assertions_discharged_by_solver"] = disch
	cov["assertions_constant_on_path"] = triv
	cov["solver_queries"] = q
	cov["solver_sat"] = sat
	cov["solver_unsat"] = unsat
	cov["solver_unknown"] = unk
	cov["solver_time_s"] = qt.Seconds()
	cov["branches_decided_by_truth_table"] = ex.fast()
	cov["paths_certified_by_solver"] = certP
	cov["fast_decisions_certified_by_solver"] = certL
	cov["solver"] = ex.solver
	cov["functions_encoded"] = fns
	cov["functions_encoded_count"] = len(fns)
	cov["harnesses"] = hs
	cov["bounds"] = ck.Bounds
	cov["native_replays"] = nreplayed
	cov["notes"] = notes
	cov["inconclusive"] = inconclusive
	cov["load_s"] = tLoad.Seconds()
	cov["explore_s"] = tExplore.Seconds()
	cov["explanation"] = "states = completed paths of the symbolic execution of the real code (each stands for every input that satisfies its path condition); transitions = SSA instructions executed; an assertion is decided by the solver for all values on its path"
	var kf []string
	for k := range known {
		kf = append(kf, k)
	}
	cov["known_findings_seen"] = kf
	ev := map[string]interface{}{
		"property": ck.Property, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": ck.Assumptions, "wall_s": time.Since(t0).Seconds(), "violations": len(reported),
	}
	if ck.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		die("evidence: %v", err)
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", ck.Property+".json"), b, 0644); err != nil {
		die("evidence: %v", err)
	}
}

func writeReplay(path string, ck *Check, v *foundViolation) {
	all := map[string]uint64{}
	for i, val := range v.vals {
		if i < len(v.names) {
			all[v.names[i].name] = val
		}
	}
	b, _ := json.MarshalIndent(map[string]interface{}{
		"all_variables": all, "delay_bound": v.job.Delays, "max_steps": v.job.MaxSteps,
		"conc_limit": v.job.concLimit, "max_alloc": v.job.maxAlloc, "in_package": ck.InPackage,
		"property": ck.Property, "harness": v.job.Harness, "params": v.job.params, "values": v.values, "message": v.msg,
		"kind": v.kind, "delays_used": v.delays, "where": v.where, "confirmed_by": v.confirm, "decisions": v.trace,
		"how_to_replay": "the values are the inputs of the harness function of that name in /verif/harness/vh; 'bash /verif/replay.sh FILE' runs it against the compiled code of /repo",
	}, "", " ")
	os.WriteFile(path, b, 0644)
}
