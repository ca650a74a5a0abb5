package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Job is one harness with its parameters.
type Job struct {
	Harness   string         `json:"harness"`
	Params    map[string]int `json:"params,omitempty"`
	Delays    int            `json:"delays,omitempty"`
	MaxSteps  int64          `json:"max_steps,omitempty"`
	ConcLimit int            `json:"conc_limit,omitempty"`
	MaxAlloc  int            `json:"max_alloc,omitempty"`
	Reach     []string       `json:"reach,omitempty"`
	Race      bool           `json:"race,omitempty"`   // look for data races
	Nondet    bool           `json:"nondet,omitempty"` // observations depend on the schedule
	NoReplay  bool           `json:"no_replay,omitempty"`
	Weight    int            `json:"weight,omitempty"`
	Bound     string         `json:"bound,omitempty"`

	params    map[string]int
	concLimit int
	maxAlloc  int
	fn        *Func
	id        int

	// results, guarded by the explorer's mutex
	paths, complete, infeasible, bound int64
	steps                              int64
	asserts, discharged, trivial       int64
	forks                              int64
	schedPts                           int64
	reached                            map[string]int64
	viol                               []*foundViolation
	incomplete                         map[string]int64
	unsupported                        map[string]int64
	samples                            []*pathSample
	maxDepth                           int
	stopped                            bool
	certPaths, certLits                int64
	certErr                            string
	pending                            int64
	leftover                           int64
	used                               time.Duration // time spent on this job's paths
	parked                             []*item       // paths set aside: the job has had its share of the time
}

func (j *Job) name() string {
	var ks []string
	for k, v := range j.Params {
		ks = append(ks, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(ks)
	s := j.Harness
	if len(ks) > 0 {
		s += "(" + strings.Join(ks, ",") + ")"
	}
	if j.Delays > 0 {
		s += fmt.Sprintf("+delays=%d", j.Delays)
	}
	return s
}

type foundViolation struct {
	job     *Job
	msg     string
	kind    string
	values  map[string]uint64
	inputs  []string
	obs     []string
	trace   []uint64
	vals    []uint64
	names   []VarInfo
	delays  int
	conc    bool // more than one go-routine
	where   string
	confirm string
	replay  string
}

type pathSample struct {
	values  map[string]uint64
	obs     []string
	reached []string
	status  string
	sched   bool
}

type wstats struct {
	fast       int64
	outOfBound int64
}

type Worker struct {
	id         int
	ex         *Explorer
	ts         *Terms
	sol        *Solver
	truths     map[*Term]*dom
	tvars      map[*Term][]int32
	lins       map[*Term]*linForm
	stdGlobals []*Value
	methods    map[methKey]*Func
	impls      map[[2]types.Type]bool
	rtErrT     types.Type
	rtErrM     map[string]*Func
	st         wstats
	deque      []*item
	encoded    map[int]bool
	encFuncs   []*Func
	booted     bool
	paths      int64
	certTime   time.Duration
	fixed      map[string]uint64 // concrete re-execution
	qTotal     Solver            // accumulated counters of closed solvers
}

var rtErrNamed = func() types.Type {
	pkg := types.NewPackage("runtime", "runtime")
	tn := types.NewTypeName(token.NoPos, pkg, "Error", nil)
	st := types.NewStruct([]*types.Var{types.NewField(token.NoPos, pkg, "msg", types.Typ[types.String], false)}, nil)
	return canon(types.NewNamed(tn, st, nil))
}()

var reflectStub = func() types.Type {
	pkg := types.NewPackage("reflectstub", "reflectstub")
	tn := types.NewTypeName(token.NoPos, pkg, "Type", nil)
	return canon(types.NewNamed(tn, types.NewStruct(nil, nil), nil))
}()

func (w *Worker) rtErrMethod(name string) *Func {
	if f, ok := w.rtErrM[name]; ok {
		return f
	}
	f := &Func{name: "runtime.Error." + name, id: -1}
	f.intr = func(m *Machine, g *G, a []Value) (Value, istat) {
		if name == "Error" {
			return a[0].(Struct)[0], stDone
		}
		return nil, stDone
	}
	w.rtErrM[name] = f
	return f
}

type Explorer struct {
	prog     *Program
	vh       *ssa.Package
	mu       sync.Mutex
	cond     *sync.Cond
	workers  []*Worker
	busy     int
	queued   int
	deadline time.Time
	share    time.Duration // of the workers' time, for each job before another has had its own
	t0       time.Time
	stop     bool
	jobs     []*Job
	solver   string
	verbose  bool
	timedOut bool
	nsamples int
	initFn   *Func
	fatalErr string
	seed     int64
}

func (w *Worker) reset() {
	if w.sol != nil {
		w.qTotal.Queries += w.sol.Queries
		w.qTotal.Sat += w.sol.Sat
		w.qTotal.Unsat += w.sol.Unsat
		w.qTotal.Unknown += w.sol.Unknown
		w.qTotal.Time += w.sol.Time
		w.qTotal.Errors = append(w.qTotal.Errors, w.sol.Errors...)
		w.sol.Close()
	}
	w.ts = newTerms()
	w.sol = newSolver(w.ts, w.ex.solver, []string{"-in"}, 20000)
	w.truths = map[*Term]*dom{}
	w.tvars = map[*Term][]int32{}
	w.lins = map[*Term]*linForm{}
}

func newWorker(ex *Explorer, id int) *Worker {
	w := &Worker{id: id, ex: ex, methods: map[methKey]*Func{}, impls: map[[2]types.Type]bool{}, rtErrT: rtErrNamed,
		rtErrM: map[string]*Func{}, encoded: map[int]bool{}}
	w.reset()
	return w
}

func (w *Worker) newMachine(j *Job) *Machine {
	m := &Machine{
		prog: w.ex.prog, w: w, ts: w.ts, sol: w.sol, job: j,
		dom: map[int32]*dom{}, ent: map[int32]bool{}, ranges: map[*Term]ival{}, pcSet: map[*Term]bool{},
		now: uint64(0), mutexes: map[interface{}]*mutexSt{}, conds: map[interface{}]*condSt{}, wgs: map[interface{}]*wgSt{},
		tmap: map[interface{}]*timerSt{}, avals: map[interface{}]Value{}, names: map[string]int{},
		encoded: w.encoded, notes: map[string]bool{}, digitDone: map[*Term][]Value{},
		maxSteps: 1 << 40,
	}
	if j.Race {
		m.race = true
		m.shadows = map[interface{}]*shadow{}
		m.atomics = map[*Value]*vclock{}
	}
	m.model = m.ts.newModel(nil)
	return m
}

// runInit interprets the package initialisers.
func (m *Machine) runInit() {
	f := m.w.ex.initFn
	g := m.newG(f, nil, nil, "init")
	m.main = g
	m.runAll()
	m.mainDone = false
	m.gs = nil
	m.runq = nil
}

type pathResult struct {
	status string // done, violation, infeasible, bound, steplimit, unsupported, internal
	msg    string
	kind   string
}

func (w *Worker) runItem(it *item) (m *Machine, res pathResult) {
	if w.ts.n > 4000000 {
		w.reset()
	}
	j := it.job
	m = w.newMachine(j)
	// translate the model into this worker's variables
	vals := it.vals
	if it.owner != nil {
		same := it.owner == w && len(it.names) <= len(w.ts.vars) && (len(it.names) == 0 || &it.names[0] == &w.ts.vars[0] || sameVars(it.names, w.ts.vars))
		if !same {
			nv := make([]uint64, 0, len(w.ts.vars)+len(it.names))
			for i, v := range it.vals {
				if i >= len(it.names) {
					break
				}
				t := w.ts.Var(it.names[i].name, it.names[i].sort)
				for len(nv) <= int(t.k) {
					nv = append(nv, 0)
				}
				nv[t.k] = v
			}
			vals = nv
		}
	}
	m.model = m.ts.newModel(vals)
	m.prefix = it.prefix
	defer func() {
		if r := recover(); r != nil {
			switch p := r.(type) {
			case violation:
				res = pathResult{"violation", p.msg, p.kind}
			case pathAbort:
				res = pathResult{p.kind, p.msg, ""}
			case unsupportedErr:
				where := ""
				if m.cur != nil {
					where = m.where(m.cur)
				}
				res = pathResult{"unsupported", p.msg + " at " + where, ""}
			case string:
				res = pathResult{"internal", p, ""}
			default:
				res = pathResult{"internal", fmt.Sprintf("%v\n%s", r, trimStack()), ""}
			}
		}
	}()
	m.runInit()
	m.maxSteps = m.steps + j.MaxSteps
	m.steps0 = m.steps
	m.started = true
	m.delays = j.Delays
	m.main = m.newG(j.fn, nil, nil, "harness")
	m.runAll()
	return m, pathResult{status: "done"}
}

func sameVars(a, b []VarInfo) bool {
	for i := range a {
		if a[i].name != b[i].name {
			return false
		}
	}
	return true
}

func (ex *Explorer) next(w *Worker) *item {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.busy--
	for {
		if ex.stop {
			ex.cond.Broadcast()
			return nil
		}
		if time.Now().After(ex.deadline) {
			ex.stop = true
			for _, x := range ex.workers {
				for _, it := range x.deque {
					it.job.leftover++
				}
			}
			for _, j := range ex.jobs {
				j.leftover += int64(len(j.parked))
			}
			ex.timedOut = true
			ex.cond.Broadcast()
			return nil
		}
		var it *item
		if n := len(w.deque); n > 0 {
			it = w.deque[n-1]
			w.deque = w.deque[:n-1]
		} else {
			var victim *Worker
			for _, x := range ex.workers {
				if len(x.deque) > 0 && (victim == nil || len(x.deque) > len(victim.deque)) {
					victim = x
				}
			}
			if victim != nil {
				it = victim.deque[0]
				victim.deque = victim.deque[1:]
			}
		}
		if it != nil {
			if it.job.stopped {
				it.job.leftover++
				continue
			}
			if it.job.used > ex.share {
				// the other jobs first
				it.job.parked = append(it.job.parked, it)
				continue
			}
			ex.busy++
			return it
		}
		var least *Job
		for _, j := range ex.jobs {
			if len(j.parked) > 0 && (least == nil || j.used < least.used) {
				least = j
			}
		}
		if least != nil {
			n := len(least.parked)
			it = least.parked[n-1]
			least.parked = least.parked[:n-1]
			if least.stopped {
				least.leftover++
				continue
			}
			ex.busy++
			return it
		}
		if ex.busy == 0 {
			ex.stop = true
			ex.cond.Broadcast()
			return nil
		}
		ex.cond.Wait()
	}
}

func (w *Worker) loop() {
	ex := w.ex
	for {
		it := ex.next(w)
		if it == nil {
			return
		}
		tItem := time.Now()
		m, res := w.runItem(it)
		w.paths++
		ncert, cerr, didCert := 0, "", false
		if res.status == "done" && w.certTime <= time.Since(ex.t0)/8 {
			ncert, cerr = m.certify()
			didCert = true
		}
		for _, f := range m.encodedNew {
			w.encFuncs = append(w.encFuncs, f)
		}
		j := it.job
		ex.mu.Lock()
		j.paths++
		j.used += time.Since(tItem)
		j.steps += m.steps - m.steps0
		j.asserts += m.asserts
		j.discharged += m.discharged
		j.trivial += m.trivial
		j.forks += m.forks
		j.schedPts += int64(m.nsched)
		if len(m.trace) > j.maxDepth {
			j.maxDepth = len(m.trace)
		}
		if didCert {
			j.certPaths++
			j.certLits += int64(ncert)
			if cerr != "" {
				j.certErr = cerr
			}
		}
		if m.incomplete != "" {
			j.incomplete[m.incomplete]++
		}
		switch res.status {
		case "done":
			j.complete++
			for _, r := range m.reached {
				j.reached[r]++
			}
			w.sample(m, j)
		case "infeasible":
			j.infeasible++
		case "bound":
			j.bound++
			for _, r := range m.reached {
				j.reached[r]++
			}
		case "violation":
			j.complete++
			for _, r := range m.reached {
				j.reached[r]++
			}
			w.addViolation(m, j, res)
		case "budget":
			j.leftover++
		case "steplimit":
			j.complete++
			res.msg = "does not terminate within the step bound: " + res.msg
			w.addViolation(m, j, pathResult{"violation", res.msg, "steplimit"})
		default:
			j.unsupported[res.status+": "+res.msg]++
		}
		// children: last pushed is explored first
		w.deque = append(w.deque, m.alts...)
		if len(m.alts) > 0 {
			ex.cond.Broadcast()
		}
		ex.mu.Unlock()
	}
}

func (m *Machine) inputValues() map[string]uint64 {
	r := map[string]uint64{}
	for _, in := range m.inputs {
		r[in.name] = m.evalT(in.t)
	}
	return r
}

func (m *Machine) obsText(v Value) string {
	i, ok := v.(Iface)
	if !ok {
		return m.show(v)
	}
	if i.T == nil {
		return "nil"
	}
	ti := tinfoOf(i.T)
	switch ti.k {
	case kString:
		return m.show(i.V)
	case kBool:
		return fmt.Sprint(m.evalInt(i.V) == 1)
	case kInt:
		u := m.evalInt(i.V)
		if ti.signed {
			return fmt.Sprint(sx(u, ti.w))
		}
		return fmt.Sprint(u)
	case kSlice:
		if isByteSlice(ti) {
			s := i.V.(Slice)
			raw := make([]byte, len(s))
			for k, x := range s {
				raw[k] = byte(m.evalInt(x))
			}
			return fmt.Sprintf("%q", string(raw))
		}
	}
	return "error"
}

func (m *Machine) obsList() []string {
	var r []string
	for _, o := range m.obs {
		r = append(r, o.name+"="+m.obsText(o.v))
	}
	return r
}

// sample keeps a bounded, deterministic selection of completed paths for
// native replay (validation of the encoding against the compiled code).
func (w *Worker) sample(m *Machine, j *Job) {
	if j.NoReplay {
		return
	}
	n := w.ex.nsamples
	if len(j.samples) >= n {
		// reservoir: keep spreading over the exploration
		if j.complete%int64(1+j.complete/int64(n)) != 0 {
			return
		}
	}
	s := &pathSample{values: m.inputValues(), obs: m.obsList(), reached: append([]string(nil), m.reached...), sched: m.delayed > 0}
	if len(j.samples) < n {
		j.samples = append(j.samples, s)
	} else {
		j.samples[int(j.complete)%n] = s
	}
}

func (w *Worker) addViolation(m *Machine, j *Job, res pathResult) {
	if len(j.viol) >= 8 {
		return
	}
	for _, v := range j.viol {
		if v.msg == res.msg {
			return
		}
	}
	v := &foundViolation{job: j, msg: res.msg, kind: res.kind, values: m.inputValues(), obs: m.obsList(),
		trace: append([]uint64(nil), m.trace...), vals: append([]uint64(nil), m.model.vals...), names: m.ts.vars,
		delays: m.delayed, conc: m.ngs > 1}
	if m.cur != nil && len(m.cur.stack) > 0 {
		v.where = m.where(m.cur)
	}
	j.viol = append(j.viol, v)
	if w.ex.verbose {
		fmt.Fprintf(os.Stderr, "  [%s] %s: %s\n", j.name(), res.kind, res.msg)
	}
	if len(j.viol) >= 3 {
		j.stopped = true
	}
	if os.Getenv("VERIF_FIRST") != "" && j.Harness != "StalledClient" { // development: one violation is enough
		for _, x := range w.ex.jobs {
			x.stopped = true
		}
	}
}

// explore runs all jobs to the end or to the deadline.
func (ex *Explorer) explore(jobs []*Job, nworkers int) {
	ex.cond = sync.NewCond(&ex.mu)
	ex.jobs = jobs
	ex.t0 = time.Now()
	ex.stop = false
	if len(ex.workers) == 0 {
		for i := 0; i < nworkers; i++ {
			ex.workers = append(ex.workers, newWorker(ex, i))
		}
	}
	for i, j := range jobs {
		j.reached = map[string]int64{}
		j.incomplete = map[string]int64{}
		j.unsupported = map[string]int64{}
		w := ex.workers[i%len(ex.workers)]
		w.deque = append([]*item{{job: j}}, w.deque...)
	}
	ex.share = time.Until(ex.deadline) * time.Duration(len(ex.workers)) / time.Duration(len(jobs)+1)
	ex.busy = len(ex.workers)
	var wg sync.WaitGroup
	tick := time.AfterFunc(time.Until(ex.deadline)+time.Second, func() { ex.cond.Broadcast() })
	for _, w := range ex.workers {
		wg.Add(1)
		w := w
		go func() { defer wg.Done(); w.loop() }()
	}
	wg.Wait()
	tick.Stop()
}
