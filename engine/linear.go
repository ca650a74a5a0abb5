package main

import (
	"math/bits"
	"sort"
)

// Linear normal forms. A comparison of 32- or 64-bit sums is rewritten, under
// the intervals of the current path, into one of sums with coprime
// coefficients in as few bits as the values need. (Durations are milliseconds
// times a million: the solver would spend its time on the multiplications.)

type linForm struct {
	atoms []*Term // by id
	coef  []int64
	k     int64
}

func addOvf(a, b int64) (int64, bool) {
	c := a + b
	return c, (c > a) == (b > 0)
}

func mulOvf(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	neg := (a < 0) != (b < 0)
	ua, ub := uint64(a), uint64(b)
	if a < 0 {
		ua = -ua
	}
	if b < 0 {
		ub = -ub
	}
	h, l := bits.Mul64(ua, ub)
	if h != 0 || l >= 1<<63 {
		return 0, false
	}
	if neg {
		return -int64(l), true
	}
	return int64(l), true
}

func (f *linForm) scale(c int64) (*linForm, bool) {
	r := &linForm{atoms: f.atoms, coef: make([]int64, len(f.coef))}
	var ok bool
	for i, x := range f.coef {
		if r.coef[i], ok = mulOvf(x, c); !ok {
			return nil, false
		}
	}
	r.k, ok = mulOvf(f.k, c)
	if c == 0 {
		return &linForm{}, true
	}
	return r, ok
}

func (f *linForm) add(g *linForm) (*linForm, bool) {
	r := &linForm{}
	var ok bool
	if r.k, ok = addOvf(f.k, g.k); !ok && f.k != 0 && g.k != 0 {
		return nil, false
	}
	i, j := 0, 0
	for i < len(f.atoms) || j < len(g.atoms) {
		switch {
		case j == len(g.atoms) || i < len(f.atoms) && f.atoms[i].id < g.atoms[j].id:
			r.atoms, r.coef = append(r.atoms, f.atoms[i]), append(r.coef, f.coef[i])
			i++
		case i == len(f.atoms) || g.atoms[j].id < f.atoms[i].id:
			r.atoms, r.coef = append(r.atoms, g.atoms[j]), append(r.coef, g.coef[j])
			j++
		default:
			c := f.coef[i] + g.coef[j]
			if (f.coef[i] > 0) == (g.coef[j] > 0) && (c > 0) != (f.coef[i] > 0) {
				return nil, false
			}
			if c != 0 {
				r.atoms, r.coef = append(r.atoms, f.atoms[i]), append(r.coef, c)
			}
			i++
			j++
		}
	}
	return r, len(r.atoms) <= 12
}

// lin: t equals the form modulo 2^width of t.
func (m *Machine) lin(t *Term) *linForm {
	if f, ok := m.w.lins[t]; ok {
		return f
	}
	f := m.lin1(t)
	if f == nil {
		f = &linForm{atoms: []*Term{t}, coef: []int64{1}}
	}
	m.w.lins[t] = f
	return f
}

func (m *Machine) lin1(t *Term) *linForm {
	var r *linForm
	ok := false
	switch t.op {
	case OConst:
		return &linForm{k: sx(t.k, t.sort)}
	case OAdd:
		r, ok = m.lin(t.a).add(m.lin(t.b))
	case OSub:
		if g, o := m.lin(t.b).scale(-1); o {
			r, ok = m.lin(t.a).add(g)
		}
	case ONeg:
		r, ok = m.lin(t.a).scale(-1)
	case OMul:
		if t.b.op == OConst {
			r, ok = m.lin(t.a).scale(sx(t.b.k, t.sort))
		} else if t.a.op == OConst {
			r, ok = m.lin(t.b).scale(sx(t.a.k, t.sort))
		}
	case OShl:
		if t.b.op == OConst && t.b.k < 62 {
			r, ok = m.lin(t.a).scale(1 << t.b.k)
		}
	}
	if !ok {
		return nil
	}
	return r
}

// span is the exact range of the form over the integers.
func (m *Machine) span(f *linForm) (lo, hi int64, ok bool) {
	lo, hi = f.k, f.k
	for i, a := range f.atoms {
		r := m.rng(a)
		if r.hi >= 1<<63 || a.sort < 64 && r.hi >= 1<<(a.sort-1) {
			return 0, 0, false
		}
		x, o1 := mulOvf(f.coef[i], int64(r.lo))
		y, o2 := mulOvf(f.coef[i], int64(r.hi))
		if !o1 || !o2 {
			return 0, 0, false
		}
		if x > y {
			x, y = y, x
		}
		lo1, hi1 := lo+x, hi+y
		if x < 0 && lo1 > lo || x > 0 && lo1 < lo || y < 0 && hi1 > hi || y > 0 && hi1 < hi {
			return 0, 0, false
		}
		lo, hi = lo1, hi1
	}
	return lo, hi, true
}

// exact: the signed (or unsigned) value of t is the value of its form.
func (m *Machine) exact(t *Term, signed bool) (*linForm, bool) {
	f := m.lin(t)
	lo, hi, ok := m.span(f)
	if !ok {
		return nil, false
	}
	if t.sort < 64 && (lo < -(1<<(t.sort-1)) || hi >= 1<<(t.sort-1)) {
		return nil, false
	}
	if !signed && lo < 0 {
		return nil, false
	}
	return f, true
}

func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	if a < 0 {
		return -a
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// linNorm returns a literal equivalent to t under the current intervals.
func (m *Machine) linNorm(t *Term) *Term {
	ts := m.ts
	switch t.op {
	case ONot:
		if a := m.linNorm(t.a); a != t.a {
			return ts.Not(a)
		}
		return t
	case OAnd:
		return ts.And(m.linNorm(t.a), m.linNorm(t.b))
	case OOr:
		return ts.Or(m.linNorm(t.a), m.linNorm(t.b))
	case OEq, OSlt, OSle, OUlt, OUle:
	default:
		return t
	}
	if t.a == nil || t.a.sort < 16 {
		return t
	}
	fa, ok := m.exact(t.a, t.op != OUlt && t.op != OUle)
	if !ok {
		return t
	}
	fb, ok := m.exact(t.b, t.op != OUlt && t.op != OUle)
	if !ok {
		return t
	}
	na, ok := fa.scale(-1)
	if !ok {
		return t
	}
	d, ok := fb.add(na)
	if !ok {
		return t
	}
	lo, hi, ok := m.span(d)
	if !ok {
		return t
	}
	// a = b: d = 0;  a < b: d >= 1;  a <= b: d >= 0
	var g int64
	for _, c := range d.coef {
		g = gcd(g, c)
	}
	eq := t.op == OEq
	if t.op == OSlt || t.op == OUlt {
		d = &linForm{atoms: d.atoms, coef: d.coef, k: d.k - 1}
		if d.k > 0 && d.k+1 < 0 {
			return t
		}
		lo, hi = lo-1, hi-1
	}
	if eq {
		if lo > 0 || hi < 0 {
			return ts.Bool(false)
		}
		if g == 0 {
			return ts.Bool(d.k == 0)
		}
		if d.k%g != 0 {
			return ts.Bool(false)
		}
	} else {
		if lo >= 0 {
			return ts.Bool(true)
		}
		if hi < 0 {
			return ts.Bool(false)
		}
	}
	if g == 0 {
		return t
	}
	// sum c/g x >= -(k/g), rounded up: k/g rounded down
	type part struct {
		c uint64
		t *Term
	}
	var pos, neg []part
	for i, c := range d.coef {
		if c > 0 {
			pos = append(pos, part{uint64(c / g), d.atoms[i]})
		} else {
			neg = append(neg, part{uint64(-(c / g)), d.atoms[i]})
		}
	}
	k := floorDiv(d.k, g)
	kp, kn := uint64(0), uint64(0)
	if k > 0 {
		kp = uint64(k)
	} else {
		kn = uint64(-k)
	}
	max := func(ps []part, k uint64) uint64 {
		s := k
		for _, p := range ps {
			h, l := bits.Mul64(p.c, m.rng(p.t).hi)
			s1, c := bits.Add64(s, l, 0)
			if h != 0 || c != 0 {
				return ^uint64(0)
			}
			s = s1
		}
		return s
	}
	mx := max(pos, kp)
	if n := max(neg, kn); n > mx {
		mx = n
	}
	w := uint8(bits.Len64(mx))
	if w < 4 {
		w = 4
	}
	if w >= t.a.sort {
		return t
	}
	sum := func(ps []part, k uint64) *Term {
		s := ts.Const(k, w)
		for _, p := range ps {
			x := p.t
			for x.op == OZext && x.sort > w && x.a.sort <= w {
				x = x.a
			}
			x = ts.Resize(x, w, false)
			if p.c != 1 {
				x = ts.Bin(OMul, x, ts.Const(p.c, w))
			}
			s = ts.Bin(OAdd, s, x)
		}
		return s
	}
	sort.Slice(pos, func(i, j int) bool { return pos[i].t.id < pos[j].t.id })
	p, n := sum(pos, kp), sum(neg, kn)
	if eq {
		return ts.Eq(p, n)
	}
	return ts.Ule(n, p)
}

// linDiv divides a non-negative linear term by a positive constant where the
// part that is not a multiple of it stays below it.
func (m *Machine) linDiv(t *Term, c uint64) (*Term, bool) {
	if c == 0 || c >= 1<<62 || t.sort != 64 {
		return nil, false
	}
	f, ok := m.exact(t, false)
	if !ok {
		return nil, false
	}
	q, r := &linForm{}, &linForm{}
	for i, a := range f.atoms {
		if f.coef[i]%int64(c) == 0 {
			q.atoms, q.coef = append(q.atoms, a), append(q.coef, f.coef[i]/int64(c))
		} else {
			r.atoms, r.coef = append(r.atoms, a), append(r.coef, f.coef[i])
		}
	}
	if len(q.atoms) == 0 {
		return nil, false
	}
	q.k = floorDiv(f.k, int64(c))
	r.k = f.k - q.k*int64(c)
	lo, hi, ok := m.span(r)
	if !ok || lo < 0 || hi >= int64(c) {
		return nil, false
	}
	s := m.ts.Const(uint64(q.k), 64)
	for i, a := range q.atoms {
		s = m.ts.Bin(OAdd, s, m.ts.Bin(OMul, a, m.ts.Const(uint64(q.coef[i]), 64)))
	}
	return s, true
}
