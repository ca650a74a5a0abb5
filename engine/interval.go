package main

import "math/bits"

// Unsigned intervals: a sound over-approximation of the values of a term on
// the current path. A comparison that the intervals decide needs no query.

type ival struct{ lo, hi uint64 }

func (m *Machine) rng(t *Term) ival {
	if t.op == OConst {
		return ival{t.k, t.k}
	}
	if r, ok := m.ranges[t]; ok {
		return r
	}
	r := m.rng1(t)
	m.ranges[t] = r
	return r
}

func (m *Machine) rng1(t *Term) ival {
	full := ival{0, mask(t.sort)}
	if t.sort == 0 {
		return ival{0, 1}
	}
	if t.nv == 1 && m.ts.vars[t.v].sort <= 8 {
		if t.op == OVar || t.sort > 8 && t.op != OZext {
			return m.enumRange(t)
		}
		if t.sort <= 8 {
			return m.enumRange(t)
		}
	}
	switch t.op {
	case OZext:
		return m.rng(t.a)
	case OSext:
		r := m.rng(t.a)
		if r.hi < 1<<(t.a.sort-1) {
			return r
		}
	case OAdd:
		a, b := m.rng(t.a), m.rng(t.b)
		hi, c := bits.Add64(a.hi, b.hi, 0)
		if c == 0 && hi <= full.hi {
			return ival{a.lo + b.lo, hi}
		}
		if t.b.op == OConst { // addition of a negative constant
			n := (-t.b.k) & full.hi
			if a.lo >= n {
				return ival{a.lo - n, a.hi - n}
			}
		}
	case OSub:
		a, b := m.rng(t.a), m.rng(t.b)
		if a.lo >= b.hi {
			return ival{a.lo - b.hi, a.hi - b.lo}
		}
	case OMul:
		a, b := m.rng(t.a), m.rng(t.b)
		h, l := bits.Mul64(a.hi, b.hi)
		if h == 0 && l <= full.hi {
			return ival{a.lo * b.lo, l}
		}
	case OUdiv:
		a, b := m.rng(t.a), m.rng(t.b)
		if b.lo > 0 {
			return ival{a.lo / b.hi, a.hi / b.lo}
		}
	case OUrem:
		a, b := m.rng(t.a), m.rng(t.b)
		if b.lo > 0 {
			if a.hi < b.lo {
				return a
			}
			return ival{0, b.hi - 1}
		}
	case OSdiv:
		a, b := m.rng(t.a), m.rng(t.b)
		if s := uint64(1) << (t.sort - 1); a.hi < s && b.hi < s && b.lo > 0 {
			return ival{a.lo / b.hi, a.hi / b.lo}
		}
	case OSrem:
		a, b := m.rng(t.a), m.rng(t.b)
		if s := uint64(1) << (t.sort - 1); a.hi < s && b.hi < s && b.lo > 0 {
			if a.hi < b.lo {
				return a
			}
			return ival{0, b.hi - 1}
		}
	case OBand:
		a, b := m.rng(t.a), m.rng(t.b)
		if b.hi < a.hi {
			a.hi = b.hi
		}
		return ival{0, a.hi}
	case OLshr:
		if t.b.op == OConst && t.b.k < 64 {
			a := m.rng(t.a)
			return ival{a.lo >> t.b.k, a.hi >> t.b.k}
		}
	case OExtract:
		a := m.rng(t.a)
		if t.k&0xff == 0 && a.hi <= full.hi {
			return a
		}
	case OIte:
		a, b := m.rng(t.b), m.rng(t.c)
		if b.lo < a.lo {
			a.lo = b.lo
		}
		if b.hi > a.hi {
			a.hi = b.hi
		}
		return a
	}
	return full
}

// enumRange: the exact range of a term over one small variable.
func (m *Machine) enumRange(t *Term) ival {
	d := m.domOf(t.v)
	n := domSize(m.ts.vars[t.v].sort)
	vals := make([]uint64, t.v+1)
	r := ival{^uint64(0), 0}
	for i := 0; i < n; i++ {
		if !d.has(uint64(i)) {
			continue
		}
		x := uint64(i)
		if t.op != OVar {
			vals[t.v] = x
			x = m.ts.Eval(t, m.ts.newModel(vals))
		}
		if x < r.lo {
			r.lo = x
		}
		if x > r.hi {
			r.hi = x
		}
	}
	if t.op != OVar { // the evaluations clobbered the memo of the current model
		m.model = m.ts.newModel(m.model.vals)
	}
	if r.lo > r.hi {
		return ival{0, mask(t.sort)}
	}
	return r
}

// refine narrows the ranges of the operands of a literal that holds.
func (m *Machine) refine(t *Term) {
	neg := false
	if t.op == ONot {
		neg = true
		t = t.a
	}
	switch t.op {
	case OAnd:
		if !neg {
			m.refine(t.a)
			m.refine(t.b)
		}
		return
	case OOr:
		if neg {
			m.refine(m.ts.Not(t.a))
			m.refine(m.ts.Not(t.b))
		}
		return
	}
	if t.a == nil || t.b == nil || t.a.sort == 0 {
		return
	}
	op := t.op
	a, b := m.rng(t.a), m.rng(t.b)
	s := uint64(1) << (t.a.sort - 1)
	switch op {
	case OSlt, OSle:
		if a.hi >= s || b.hi >= s {
			// 0 <= a when a >= a non-negative constant
			if op == OSlt && neg && t.b.op == OConst && t.b.k < s || op == OSle && neg && t.b.op == OConst && t.b.k < s {
				m.narrow(t.a, t.b.k, s-1)
			}
			if !neg && t.a.op == OConst && t.a.k < s {
				m.narrow(t.b, t.a.k, s-1)
			}
			return
		}
		if op == OSlt {
			op = OUlt
		} else {
			op = OUle
		}
	}
	switch op {
	case OEq:
		if !neg {
			if t.b.op == OConst {
				m.narrow(t.a, t.b.k, t.b.k)
			}
		} else if t.b.op == OConst {
			if t.b.k == a.lo && a.lo < a.hi {
				m.narrow(t.a, a.lo+1, a.hi)
			} else if t.b.k == a.hi && a.lo < a.hi {
				m.narrow(t.a, a.lo, a.hi-1)
			}
		}
	case OUlt, OUle:
		x, y, strict := t.a, t.b, op == OUlt
		if neg { // not (a < b)  =  b <= a
			x, y, strict = t.b, t.a, !strict
			a, b = b, a
		}
		// x < y or x <= y
		hi, lo := b.hi, a.lo
		if strict {
			if hi == 0 || lo == mask(t.a.sort) {
				return
			}
			hi--
			lo++
		}
		m.narrow(x, 0, hi)
		m.narrow(y, lo, mask(t.a.sort))
	}
}

func (m *Machine) narrow(t *Term, lo, hi uint64) {
	if t.op == OConst {
		return
	}
	r := m.rng(t)
	n := r
	if lo > n.lo {
		n.lo = lo
	}
	if hi < n.hi {
		n.hi = hi
	}
	if n != r && n.lo <= n.hi {
		m.ranges[t] = n
		if t.op == OZext && n.hi <= mask(t.a.sort) {
			m.narrow(t.a, n.lo, n.hi)
		}
	}
}

// decide answers t from the path condition's literals and the intervals:
// 1 true, 0 false, -1 not decided.
func (m *Machine) decide(t *Term) int {
	if t.op == OConst {
		return int(t.k)
	}
	if m.pcSet[t] {
		return 1
	}
	if m.pcSet[m.ts.Not(t)] {
		return 0
	}
	switch t.op {
	case ONot:
		if d := m.decide(t.a); d >= 0 {
			return 1 - d
		}
		return -1
	case OAnd, OOr:
		x, y := m.decide(t.a), m.decide(t.b)
		if t.op == OAnd {
			if x == 0 || y == 0 {
				return 0
			}
			if x == 1 && y == 1 {
				return 1
			}
		} else {
			if x == 1 || y == 1 {
				return 1
			}
			if x == 0 && y == 0 {
				return 0
			}
		}
		return -1
	}
	if t.a == nil || t.b == nil || t.a.sort == 0 {
		return -1
	}
	if n := m.linNorm(t); n != t {
		if n.op == OConst {
			return int(n.k)
		}
		if m.pcSet[n] {
			return 1
		}
		if m.pcSet[m.ts.Not(n)] {
			return 0
		}
	}
	a, b := m.rng(t.a), m.rng(t.b)
	op := t.op
	if op == OSlt || op == OSle {
		s := uint64(1) << (t.a.sort - 1)
		switch {
		case a.hi < s && b.hi < s, a.lo >= s && b.lo >= s:
			if op == OSlt {
				op = OUlt
			} else {
				op = OUle
			}
			if c := m.ts.cmp(op, t.a, t.b); c != t {
				if m.pcSet[c] {
					return 1
				}
				if m.pcSet[m.ts.Not(c)] {
					return 0
				}
			}
		case a.hi < s && b.lo >= s:
			return 0
		case a.lo >= s && b.hi < s:
			return 1
		default:
			return -1
		}
	}
	// x+y < x is false where the sum does not wrap
	if op == OUlt && m.noWrapSum(t.a, t.b) {
		return 0
	}
	if op == OUle && m.noWrapSum(t.b, t.a) {
		return 1
	}
	// x < y  and  not (y <= x) are the same literal
	switch op {
	case OUlt:
		if a.hi < b.lo {
			return 1
		}
		if a.lo >= b.hi {
			return 0
		}
		if c := m.ts.cmp(OUle, t.b, t.a); m.pcSet[c] {
			return 0
		} else if m.pcSet[m.ts.Not(c)] {
			return 1
		}
	case OUle:
		if a.hi <= b.lo {
			return 1
		}
		if a.lo > b.hi {
			return 0
		}
		if c := m.ts.cmp(OUlt, t.b, t.a); m.pcSet[c] {
			return 0
		} else if m.pcSet[m.ts.Not(c)] {
			return 1
		}
	case OEq:
		if a.hi < b.lo || b.hi < a.lo {
			return 0
		}
		if a.lo == a.hi && a == b {
			return 1
		}
	}
	return -1
}

// canonical rewrites a signed comparison of operands that are both
// non-negative on this path into the unsigned one.
func (m *Machine) canonical(t *Term) *Term {
	if t.op == ONot {
		return m.ts.Not(m.canonical(t.a))
	}
	if t.op == OSlt || t.op == OSle {
		s := uint64(1) << (t.a.sort - 1)
		if m.rng(t.a).hi < s && m.rng(t.b).hi < s {
			if t.op == OSlt {
				return m.ts.Ult(t.a, t.b)
			}
			return m.ts.Ule(t.a, t.b)
		}
	}
	return t
}

// noWrapSum: t is a sum with x as one operand that does not wrap around.
func (m *Machine) noWrapSum(t, x *Term) bool {
	if t.op != OAdd || (t.a != x && t.b != x) {
		return false
	}
	hi, c := bits.Add64(m.rng(t.a).hi, m.rng(t.b).hi, 0)
	return c == 0 && hi <= mask(t.sort)
}
