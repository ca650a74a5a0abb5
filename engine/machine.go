package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"time"
)

// Machine is the state of one execution path.
type Machine struct {
	rnd     *rand.Rand // math/rand, crypto/rand
	prog    *Program
	w       *Worker
	ts      *Terms
	sol     *Solver
	job     *Job
	globals []*Value

	// path condition
	pc    []*Term
	model *Model
	dom   map[int32]*dom
	ent   map[int32]bool

	ranges map[*Term]ival
	spc    []*Term // the path condition as the solver gets it: linNorm of pc
	pcSet  map[*Term]bool

	prefix []uint64
	di     int
	trace  []uint64
	alts   []*item

	// goroutines
	gs       []*G
	runq     []*G
	cur      *G
	main     *G
	mainDone bool
	ngs      int
	stopG    bool
	quiesce  []*G
	delays   int // remaining delay budget
	delayed  int // delays used
	nsched   int
	schedOn  bool
	race     bool
	inTimer  bool
	timerVC  vclock
	shadows  map[interface{}]*shadow
	atomics  map[*Value]*vclock
	started  bool // the harness proper is running (inits are done)

	// virtual time
	now    Value // ns since start of the path, signed 64
	timers []*timerSt
	tseq   int

	mutexes map[interface{}]*mutexSt
	conds   map[interface{}]*condSt
	wgs     map[interface{}]*wgSt
	tmap    map[interface{}]*timerSt
	avals   map[interface{}]Value
	nchan   int

	steps    int64
	maxSteps int64
	steps0   int64

	names      map[string]int // symbolic input names used on this path
	inputs     []inputRec
	obs        []obsRec
	reached    []string
	asserts    int64
	discharged int64
	trivial    int64
	forks      int64

	encoded    map[int]bool
	encodedNew []*Func
	notes      map[string]bool
	digitDone  map[*Term][]Value
	incomplete string
	elemW      uint8
	implied    []impliedLit // decisions taken without the solver, for certify
}

type impliedLit struct {
	npc int // length of the path condition at that moment
	t   *Term
}

type dom struct {
	bits [4]uint64
}

type inputRec struct {
	name string
	t    *Term
	sort uint8
}

type obsRec struct {
	name string
	v    Value
}

type violation struct {
	msg  string
	kind string
}

type item struct {
	job    *Job
	prefix []uint64
	vals   []uint64
	names  []VarInfo // names of the variables vals refers to
	owner  *Worker
	depth  int
}

func (d *dom) has(v uint64) bool { return d.bits[v>>6]&(1<<(v&63)) != 0 }

func domSize(w uint8) int {
	if w == 0 {
		return 2
	}
	return 1 << w
}

func fullDom(w uint8) *dom {
	d := &dom{}
	n := domSize(w)
	for i := 0; i < n; i++ {
		d.bits[i>>6] |= 1 << (uint(i) & 63)
	}
	return d
}

// truth returns the set of values of the single variable of t for which t holds.
func (m *Machine) truth(t *Term) *dom {
	if d, ok := m.w.truths[t]; ok {
		return d
	}
	w := m.ts.vars[t.v].sort
	n := domSize(w)
	d := &dom{}
	vals := make([]uint64, t.v+1)
	for i := 0; i < n; i++ {
		vals[t.v] = uint64(i)
		mod := m.ts.newModel(vals)
		if m.ts.Eval(t, mod) == 1 {
			d.bits[i>>6] |= 1 << (uint(i) & 63)
		}
	}
	m.w.truths[t] = d
	return d
}

func (m *Machine) unary(t *Term) bool {
	return t.nv == 1 && m.ts.vars[t.v].sort <= 8 && !m.ent[t.v]
}

func (m *Machine) domOf(v int32) *dom {
	if d, ok := m.dom[v]; ok {
		return d
	}
	d := fullDom(m.ts.vars[v].sort)
	m.dom[v] = d
	return d
}

// addPC conjoins t to the path condition.
func (m *Machine) addPC(t *Term) {
	if t.op == OConst {
		if t.k == 0 {
			panic(pathAbort{"infeasible", "false path condition"})
		}
		return
	}
	m.pc = append(m.pc, t)
	m.pcSet[t] = true
	// under the intervals of what is known so far
	n := m.linNorm(t)
	m.spc = append(m.spc, n)
	if n != t && n.op != OConst {
		m.pcSet[n] = true
	}
	if c := m.canonical(t); c != t {
		m.pcSet[c] = true
	}
	if t.nv != 1 || m.ts.vars[t.v].sort > 8 {
		m.refine(t)
	}
	if t.nv == 1 {
		if m.ts.vars[t.v].sort <= 8 {
			tr := m.truth(t)
			d := m.domOf(t.v)
			nd := &dom{}
			for i := range nd.bits {
				nd.bits[i] = d.bits[i] & tr.bits[i]
			}
			m.dom[t.v] = nd
		} else {
			m.ent[t.v] = true
		}
		return
	}
	for _, v := range m.varsOf(t) {
		m.ent[v] = true
	}
}

func (m *Machine) varsOf(t *Term) []int32 {
	if vs, ok := m.w.tvars[t]; ok {
		return vs
	}
	seen := map[*Term]bool{}
	set := map[int32]bool{}
	var walk func(x *Term)
	walk = func(x *Term) {
		if x == nil || x.nv == 0 || seen[x] {
			return
		}
		seen[x] = true
		if x.nv == 1 {
			set[x.v] = true
			return
		}
		walk(x.a)
		walk(x.b)
		walk(x.c)
	}
	walk(t)
	vs := make([]int32, 0, len(set))
	for v := range set {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
	m.w.tvars[t] = vs
	return vs
}

func (m *Machine) frontier() bool { return m.di >= len(m.prefix) }

func (m *Machine) evalT(t *Term) uint64 { return m.ts.Eval(t, m.model) }

func (m *Machine) evalInt(v Value) uint64 {
	switch x := v.(type) {
	case uint64:
		return x
	case *Term:
		return m.evalT(x)
	case bool:
		if x {
			return 1
		}
		return 0
	}
	panic(fmt.Sprintf("evalInt %T", v))
}

// feasible decides whether pc ∧ t is satisfiable.
func (m *Machine) feasible(t *Term) (Result, []uint64) {
	if t.op == OConst {
		if t.k == 0 {
			return Unsat, nil
		}
		return SatR, m.model.vals
	}
	if m.unary(t) {
		m.w.st.fast++
		d := m.domOf(t.v)
		tr := m.truth(t)
		for i := 0; i < 4; i++ {
			if x := d.bits[i] & tr.bits[i]; x != 0 {
				k := 0
				for x&1 == 0 {
					x >>= 1
					k++
				}
				return SatR, m.modelWith(t.v, uint64(i*64+k))
			}
		}
		m.implied = append(m.implied, impliedLit{len(m.pc), t})
		return Unsat, nil
	}
	if t.nv == 1 {
		// a variable that no path condition constrains and a trivially satisfiable shape
		if !m.ent[t.v] && m.dom[t.v] == nil && (t.op == OEq && t.a.op == OVar && t.b.op == OConst) {
			return SatR, m.modelWith(t.v, t.b.k)
		}
	}
	if m.decide(t) == 0 {
		m.w.st.fast++
		m.implied = append(m.implied, impliedLit{len(m.pc), t})
		return Unsat, nil
	}
	m.checkBudget()
	r, vals := m.sol.Check(m.spc, m.linNorm(t))
	if r == UnknownR {
		m.noteIncomplete("solver answered unknown: " + m.where(m.cur))
	}
	return r, vals
}

func (m *Machine) modelWith(v int32, val uint64) []uint64 {
	n := len(m.model.vals)
	if int(v) >= n {
		n = int(v) + 1
	}
	vals := make([]uint64, n)
	copy(vals, m.model.vals)
	vals[v] = val
	return vals
}

func (m *Machine) noteIncomplete(s string) {
	if m.incomplete == "" {
		m.incomplete = s
	}
}

func (m *Machine) pushAlt(dec uint64, vals []uint64) {
	p := make([]uint64, len(m.trace)+1)
	copy(p, m.trace)
	p[len(m.trace)] = dec
	m.forks++
	m.alts = append(m.alts, &item{job: m.job, prefix: p, vals: vals, names: m.ts.vars, owner: m.w, depth: len(p)})
}

// forkBool returns the truth value of v on this path; when both are possible
// the other one is queued as a path of its own.
func (m *Machine) forkBool(v Value, why string) bool {
	if b, ok := v.(bool); ok {
		return b
	}
	t := v.(*Term)
	if m.di < len(m.prefix) {
		d := m.prefix[m.di]
		m.di++
		m.trace = append(m.trace, d)
		b := d&1 == 1
		if d < 2 {
			if b {
				m.addPC(t)
			} else {
				m.addPC(m.ts.Not(t))
			}
		}
		return b
	}
	b := m.evalT(t) == 1
	cond, other := t, m.ts.Not(t)
	if !b {
		cond, other = other, cond
	}
	r, vals := m.feasible(other)
	if r == Unsat {
		if b {
			m.trace = append(m.trace, 3)
		} else {
			m.trace = append(m.trace, 2)
		}
		return b
	}
	if r == SatR {
		if b {
			m.pushAlt(0, vals)
		} else {
			m.pushAlt(1, vals)
		}
	}
	if b {
		m.trace = append(m.trace, 1)
	} else {
		m.trace = append(m.trace, 0)
	}
	m.addPC(cond)
	return b
}

// concretize returns the value of t on this path, queueing one path for every
// other feasible value.
func (m *Machine) concretize(t *Term, why string) uint64 {
	if t.op == OConst {
		return t.k
	}
	if m.di < len(m.prefix) {
		d := m.prefix[m.di]
		m.di++
		m.trace = append(m.trace, d)
		m.addPC(m.ts.Eq(t, m.ts.Const(d, t.sort)))
		return d
	}
	v := m.evalT(t)
	if m.unary(t) {
		m.w.st.fast++
		d := m.domOf(t.v)
		w := m.ts.vars[t.v].sort
		seen := map[uint64]bool{v: true}
		defer func(npc int) {
			if len(seen) <= 20 {
				none := m.ts.Bool(true)
				for x := range seen {
					none = m.ts.And(none, m.ts.Not(m.ts.Eq(t, m.ts.Const(x, t.sort))))
				}
				m.implied = append(m.implied, impliedLit{npc, none})
			}
		}(len(m.pc))
		for i := 0; i < domSize(w); i++ {
			if !d.has(uint64(i)) {
				continue
			}
			vals := m.modelWith(t.v, uint64(i))
			x := m.ts.Eval(t, m.ts.newModel(vals))
			if !seen[x] {
				seen[x] = true
				m.pushAlt(x, vals)
			}
		}
		// evaluating with other models clobbered the memo of the current one
		m.model = m.ts.newModel(m.model.vals)
	} else {
		excl := m.ts.Not(m.ts.Eq(t, m.ts.Const(v, t.sort)))
		for n := 0; ; n++ {
			if n > m.job.concLimit {
				m.noteIncomplete(fmt.Sprintf("more than %d values for a concretised term (%s) at %s", m.job.concLimit, why, m.where(m.cur)))
				break
			}
			r, vals := m.feasible(excl)
			if r != SatR {
				break
			}
			x := m.ts.Eval(t, m.ts.newModel(vals))
			m.model = m.ts.newModel(m.model.vals)
			m.pushAlt(x, vals)
			excl = m.ts.And(excl, m.ts.Not(m.ts.Eq(t, m.ts.Const(x, t.sort))))
		}
	}
	m.trace = append(m.trace, v)
	m.addPC(m.ts.Eq(t, m.ts.Const(v, t.sort)))
	return v
}

func (m *Machine) concInt(v Value, why string) int64 {
	switch x := v.(type) {
	case uint64:
		return int64(x)
	case *Term:
		return sx(m.concretize(x, why), x.sort)
	}
	panic(fmt.Sprintf("concInt of %T", v))
}

func (m *Machine) concIntTi(v Value, ti *tinfo, why string) int64 {
	switch x := v.(type) {
	case uint64:
		if ti != nil && ti.signed {
			return sx(x, ti.w)
		}
		return int64(x)
	case *Term:
		c := m.concretize(x, why)
		if ti != nil && ti.signed {
			return sx(c, x.sort)
		}
		return int64(c)
	}
	panic(fmt.Sprintf("concInt of %T", v))
}

// concByteStr makes a string value fully concrete on this path.
func (m *Machine) concString(v Value, why string) string {
	if s, ok := concStr(v); ok {
		return s
	}
	b := strBytes(v)
	raw := make([]byte, len(b))
	for i, x := range b {
		raw[i] = byte(m.concInt(x, why))
	}
	return string(raw)
}

func (m *Machine) assume(v Value) {
	if b, ok := v.(bool); ok {
		if !b {
			panic(pathAbort{"infeasible", "assumption is false"})
		}
		return
	}
	t := v.(*Term)
	if m.di < len(m.prefix) {
		m.addPC(t)
		return
	}
	if m.evalT(t) != 1 {
		r, vals := m.feasible(t)
		if r != SatR {
			panic(pathAbort{"infeasible", "assumption cannot hold"})
		}
		m.model = m.ts.newModel(vals)
	}
	m.addPC(t)
}

func (m *Machine) assert(v Value, msg string) {
	if m.di < len(m.prefix) {
		return // decided on the path this one was forked from
	}
	m.asserts++
	if b, ok := v.(bool); ok {
		if !b {
			panic(violation{msg: msg, kind: "assert"})
		}
		m.trivial++
		return
	}
	t := v.(*Term)
	if m.evalT(t) != 1 {
		panic(violation{msg: msg, kind: "assert"})
	}
	m.checkBudget()
	r, vals := m.sol.Check(m.spc, m.linNorm(m.ts.Not(t)))
	switch r {
	case Unsat:
		m.discharged++
	case SatR:
		m.model = m.ts.newModel(vals)
		if m.evalT(t) == 1 {
			m.noteIncomplete("solver model does not falsify the assertion: " + msg)
			return
		}
		panic(violation{msg: msg, kind: "assert"})
	default:
		m.noteIncomplete("solver answered unknown for assertion: " + msg)
	}
}

func (m *Machine) input(name string, w uint8) *Term {
	n := m.names[name]
	m.names[name] = n + 1
	full := name
	if n > 0 {
		full = fmt.Sprintf("%s~%d", name, n)
	}
	if m.w.fixed != nil {
		v := m.w.fixed[full] & mask1(w)
		return m.ts.constOf(v, w)
	}
	t := m.ts.Var(full, w)
	m.inputs = append(m.inputs, inputRec{full, t, w})
	return t
}

// freshBool is an internal choice variable (schedule, map order).
func (ts *Terms) constOf(v uint64, w uint8) *Term {
	if w == 0 {
		return ts.Bool(v == 1)
	}
	return ts.Const(v, w)
}

func (m *Machine) freshBool(kind string) *Term {
	n := m.names[kind]
	m.names[kind] = n + 1
	if m.w.fixed != nil {
		return m.ts.Bool(m.w.fixed[fmt.Sprintf("%s!%d", kind, n)] == 1)
	}
	return m.ts.Var(fmt.Sprintf("%s!%d", kind, n), 0)
}

// ---- scheduling ----

// schedPoint is called before every visible operation. True: the goroutine
// was delayed and must stop now (it will execute the same instruction later).
func (m *Machine) schedPoint(g *G) bool {
	if !m.started || m.delays <= 0 || len(m.runq) == 0 {
		return false
	}
	m.nsched++
	if m.forkBool(boolVal(m.freshBool("sched")), "delay") {
		m.delays--
		m.delayed++
		m.runq = append(m.runq, g)
		return true
	}
	return false
}

func (m *Machine) uncaughtPanic(g *G, v Value, pos string) {
	panic(violation{msg: "uncaught panic: " + m.showPanic(v) + " in " + pos, kind: "panic"})
}

func (m *Machine) showPanic(v Value) string {
	if i, ok := v.(Iface); ok && i.T != nil {
		if s, ok := i.V.(Struct); ok && len(s) == 1 {
			return m.show(s[0])
		}
		if p, ok := i.V.(*Value); ok && p != nil {
			return m.show(*p)
		}
	}
	return m.show(v)
}

// runAll drives the goroutines until the main one has finished.
func (m *Machine) runAll() {
	for !m.mainDone {
		if len(m.runq) > 0 {
			g := m.runq[0]
			m.runq = m.runq[1:]
			if g.state != gRunnable {
				continue
			}
			m.stopG = false
			m.runG(g)
			continue
		}
		// quiescent
		if len(m.quiesce) > 0 {
			q := m.quiesce
			m.quiesce = nil
			for _, g := range q {
				m.hbJoinHarness(g)
				m.ready(g)
			}
			continue
		}
		if m.fireTimers() {
			continue
		}
		var sb strings.Builder
		for _, g := range m.gs {
			if g.state == gBlocked {
				fmt.Fprintf(&sb, "\n  goroutine %d blocked: %s at %s", g.id, g.why, m.where(g))
			}
		}
		panic(violation{msg: "deadlock: the harness is blocked and nothing can run" + sb.String(), kind: "deadlock"})
	}
}

// certify has the SMT solver confirm, with one query, every branch of this
// path that was decided without it (by truth table or interval reasoning),
// each under the path condition of its moment, and, with another one, that the
// path condition is satisfiable.
func (m *Machine) certify() (n int, err string) {
	w := m.w
	if len(m.pc) == 0 && len(m.implied) == 0 {
		return 0, ""
	}
	t0 := time.Now()
	m.sol.noModel = true
	defer func() { m.sol.noModel = false; w.certTime += time.Since(t0) }()
	q := m.ts.Bool(false)
	conj := m.ts.Bool(true)
	k := 0
	for _, l := range m.implied {
		for k < l.npc {
			conj = m.ts.And(conj, m.spc[k])
			k++
		}
		q = m.ts.Or(q, m.ts.And(conj, l.t))
	}
	if q.op != OConst || q.k != 0 {
		if r, _ := m.sol.Check(nil, q); r == SatR {
			return 0, "the solver refutes a branch decision taken without it"
		} else if r == Unsat {
			n = len(m.implied)
		}
	}
	for k < len(m.pc) {
		conj = m.ts.And(conj, m.spc[k])
		k++
	}
	if conj.op != OConst {
		if r, _ := m.sol.Check(nil, conj); r == Unsat {
			return 0, "the solver refutes the path condition of a completed path"
		}
	}
	return n, ""
}

// checkBudget gives a path up when the time of the whole run is over.
func (m *Machine) checkBudget() {
	if m.started && time.Now().After(m.w.ex.deadline.Add(3*time.Second)) {
		panic(pathAbort{"budget", "out of time"})
	}
}
