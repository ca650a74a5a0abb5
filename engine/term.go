package main

import (
	"fmt"
	"math/bits"
)

// Terms: hash-consed expression DAG over Bool and fixed-width bit-vectors.
// One table per worker; never shared between workers.

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OIte
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBand
	OBor
	OBxor
	OBnot
	ONeg
	OShl
	OLshr
	OAshr
	OExtract // k = hi<<8|lo
	OZext
	OSext
)

// Term is an immutable node. sort 0 is Bool, 1..64 is a bit-vector width.
type Term struct {
	id      int32
	op      Op
	sort    uint8
	nv      int8 // 0 none, 1 exactly one distinct variable, 2 more
	k       uint64
	v       int32 // the single variable's index when nv==1
	a, b, c *Term
	evalGen uint64
	evalVal uint64
	defined int32 // solver generation in which it has a define-fun
}

type tkey struct {
	op      Op
	sort    uint8
	k       uint64
	a, b, c int32
}

type VarInfo struct {
	name string
	sort uint8
	term *Term
}

type Terms struct {
	tab     map[tkey]*Term
	n       int32
	vars    []VarInfo
	varIdx  map[string]int32
	tTrue   *Term
	tFalse  *Term
	evalGen uint64
}

func newTerms() *Terms {
	t := &Terms{tab: map[tkey]*Term{}, varIdx: map[string]int32{}}
	t.tTrue = t.mk(OConst, 0, 1, nil, nil, nil)
	t.tFalse = t.mk(OConst, 0, 0, nil, nil, nil)
	return t
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (ts *Terms) mk(op Op, sort uint8, k uint64, a, b, c *Term) *Term {
	key := tkey{op, sort, k, tid(a), tid(b), tid(c)}
	if t, ok := ts.tab[key]; ok {
		return t
	}
	t := &Term{id: ts.n, op: op, sort: sort, k: k, a: a, b: b, c: c, v: -1}
	ts.n++
	if op == OVar {
		t.nv = 1
		t.v = int32(k)
	} else {
		for _, s := range [3]*Term{a, b, c} {
			if s == nil || s.nv == 0 {
				continue
			}
			if s.nv == 2 {
				t.nv = 2
				t.v = -1
				break
			}
			if t.nv == 0 {
				t.nv = 1
				t.v = s.v
			} else if t.v != s.v {
				t.nv = 2
				t.v = -1
				break
			}
		}
	}
	ts.tab[key] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func (ts *Terms) Var(name string, sort uint8) *Term {
	if i, ok := ts.varIdx[name]; ok {
		if ts.vars[i].sort != sort {
			panic("variable redeclared with another sort: " + name)
		}
		return ts.vars[i].term
	}
	i := int32(len(ts.vars))
	t := ts.mk(OVar, sort, uint64(i), nil, nil, nil)
	ts.vars = append(ts.vars, VarInfo{name, sort, t})
	ts.varIdx[name] = i
	return t
}

func (ts *Terms) Const(v uint64, w uint8) *Term {
	return ts.mk(OConst, w, v&mask(w), nil, nil, nil)
}

func (ts *Terms) Bool(b bool) *Term {
	if b {
		return ts.tTrue
	}
	return ts.tFalse
}

func (t *Term) isConst() bool { return t.op == OConst }

func (ts *Terms) Not(a *Term) *Term {
	if a.op == OConst {
		return ts.Bool(a.k == 0)
	}
	if a.op == ONot {
		return a.a
	}
	return ts.mk(ONot, 0, 0, a, nil, nil)
}

func (ts *Terms) And(a, b *Term) *Term {
	if a.op == OConst {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return ts.tFalse
	}
	return ts.mk(OAnd, 0, 0, a, b, nil)
}

func (ts *Terms) Or(a, b *Term) *Term {
	if a.op == OConst {
		if a.k == 1 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.k == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return ts.tTrue
	}
	return ts.mk(OOr, 0, 0, a, b, nil)
}

func (ts *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return ts.tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq on different sorts %d %d", a.sort, b.sort))
	}
	if a.op == OConst && b.op == OConst {
		return ts.Bool(a.k == b.k)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if a.sort == 0 {
		if b.op == OConst {
			if b.k == 1 {
				return a
			}
			return ts.Not(a)
		}
	}
	if b.op == OConst {
		switch a.op {
		case OZext:
			if b.k&^mask(a.a.sort) != 0 {
				return ts.tFalse
			}
			return ts.Eq(a.a, ts.Const(b.k, a.a.sort))
		case OSext:
			if uint64(sx(b.k&mask(a.a.sort), a.a.sort))&mask(a.sort) != b.k {
				return ts.tFalse
			}
			return ts.Eq(a.a, ts.Const(b.k, a.a.sort))
		case OIte:
			// push equality with a constant into an ite whose arms are constants
			if a.b.op == OConst || a.c.op == OConst {
				return ts.Ite(a.a, ts.Eq(a.b, b), ts.Eq(a.c, b))
			}
		case OAdd:
			if a.b.op == OConst {
				return ts.Eq(a.a, ts.Const(b.k-a.b.k, a.sort))
			}
		case OBxor:
			if a.b.op == OConst {
				return ts.Eq(a.a, ts.Const(b.k^a.b.k, a.sort))
			}
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return ts.mk(OEq, 0, 0, a, b, nil)
}

func (ts *Terms) Ite(c, a, b *Term) *Term {
	if c.op == OConst {
		if c.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.sort == 0 {
		if a.op == OConst {
			if a.k == 1 {
				return ts.Or(c, b)
			}
			return ts.And(ts.Not(c), b)
		}
		if b.op == OConst {
			if b.k == 1 {
				return ts.Or(ts.Not(c), a)
			}
			return ts.And(c, a)
		}
	}
	if c.op == ONot {
		return ts.Ite(c.a, b, a)
	}
	return ts.mk(OIte, a.sort, 0, c, a, b)
}

func (ts *Terms) cmp(op Op, a, b *Term) *Term {
	w := a.sort
	if a.sort != b.sort {
		panic("compare on different widths")
	}
	if a.op == OConst && b.op == OConst {
		return ts.Bool(evalOp(op, w, a.k, b.k) == 1)
	}
	if a == b {
		return ts.Bool(op == OUle || op == OSle)
	}
	// zero-extended operand against constant: narrow
	if op == OUlt || op == OUle || op == OSlt || op == OSle {
		if a.op == OZext && b.op == OConst {
			n := a.a.sort
			signedNeg := (op == OSlt || op == OSle) && sx(b.k, w) < 0
			if signedNeg {
				return ts.tFalse
			}
			if b.k > mask(n) {
				return ts.tTrue
			}
			uop := OUlt
			if op == OUle || op == OSle {
				uop = OUle
			}
			return ts.cmp(uop, a.a, ts.Const(b.k, n))
		}
		if b.op == OZext && a.op == OConst {
			n := b.a.sort
			signedNeg := (op == OSlt || op == OSle) && sx(a.k, w) < 0
			if signedNeg {
				return ts.tTrue
			}
			if a.k > mask(n) {
				return ts.tFalse
			}
			uop := OUlt
			if op == OUle || op == OSle {
				uop = OUle
			}
			return ts.cmp(uop, ts.Const(a.k, n), b.a)
		}
		if a.op == OZext && b.op == OZext && a.a.sort == b.a.sort {
			uop := OUlt
			if op == OUle || op == OSle {
				uop = OUle
			}
			return ts.cmp(uop, a.a, b.a)
		}
	}
	switch op {
	case OUlt:
		if b.op == OConst && b.k == 0 {
			return ts.tFalse
		}
		if a.op == OConst && a.k == mask(w) {
			return ts.tFalse
		}
	case OUle:
		if a.op == OConst && a.k == 0 {
			return ts.tTrue
		}
		if b.op == OConst && b.k == mask(w) {
			return ts.tTrue
		}
	}
	return ts.mk(op, 0, 0, a, b, nil)
}

func (ts *Terms) Ult(a, b *Term) *Term { return ts.cmp(OUlt, a, b) }
func (ts *Terms) Ule(a, b *Term) *Term { return ts.cmp(OUle, a, b) }
func (ts *Terms) Slt(a, b *Term) *Term { return ts.cmp(OSlt, a, b) }
func (ts *Terms) Sle(a, b *Term) *Term { return ts.cmp(OSle, a, b) }

func evalOp(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUdiv:
		if y == 0 {
			return m
		}
		return x / y
	case OUrem:
		if y == 0 {
			return x
		}
		return x % y
	case OSdiv:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			if a >= 0 {
				return m
			}
			return 1
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OSrem:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OBand:
		return x & y
	case OBor:
		return x | y
	case OBxor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx(x, w)>>y) & m
	case OUlt:
		return b2u(x < y)
	case OUle:
		return b2u(x <= y)
	case OSlt:
		return b2u(sx(x, w) < sx(y, w))
	case OSle:
		return b2u(sx(x, w) <= sx(y, w))
	}
	panic("evalOp")
}

// Bin builds a bit-vector binary operation.
func (ts *Terms) Bin(op Op, a, b *Term) *Term {
	w := a.sort
	if a.sort != b.sort {
		panic(fmt.Sprintf("Bin %d on widths %d %d", op, a.sort, b.sort))
	}
	if a.op == OConst && b.op == OConst {
		return ts.Const(evalOp(op, w, a.k, b.k), w)
	}
	switch op {
	case OAdd, OMul, OBand, OBor, OBxor:
		if a.op == OConst {
			a, b = b, a
		}
	}
	if b.op == OConst {
		switch op {
		case OAdd:
			if b.k == 0 {
				return a
			}
			if a.op == OAdd && a.b.op == OConst {
				return ts.Bin(OAdd, a.a, ts.Const(a.b.k+b.k, w))
			}
		case OSub:
			return ts.Bin(OAdd, a, ts.Const(-b.k, w))
		case OMul:
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
		case OUdiv, OSdiv:
			if b.k == 1 {
				return a
			}
			if op == OUdiv && b.k != 0 && b.k&(b.k-1) == 0 {
				return ts.Bin(OLshr, a, ts.Const(uint64(bits.TrailingZeros64(b.k)), w))
			}
		case OUrem:
			if b.k != 0 && b.k&(b.k-1) == 0 {
				return ts.Bin(OBand, a, ts.Const(b.k-1, w))
			}
		case OBand:
			if b.k == 0 {
				return b
			}
			if b.k == mask(w) {
				return a
			}
		case OBor, OBxor:
			if b.k == 0 {
				return a
			}
			if op == OBor && b.k == mask(w) {
				return b
			}
		case OShl, OLshr, OAshr:
			if b.k == 0 {
				return a
			}
			if b.k >= uint64(w) && op != OAshr {
				return ts.Const(0, w)
			}
		}
	}
	if a == b {
		switch op {
		case OSub, OBxor:
			return ts.Const(0, w)
		case OBand, OBor:
			return a
		}
	}
	return ts.mk(op, w, 0, a, b, nil)
}

func (ts *Terms) BNot(a *Term) *Term {
	if a.op == OConst {
		return ts.Const(^a.k, a.sort)
	}
	return ts.mk(OBnot, a.sort, 0, a, nil, nil)
}

func (ts *Terms) Neg(a *Term) *Term {
	if a.op == OConst {
		return ts.Const(-a.k, a.sort)
	}
	return ts.mk(ONeg, a.sort, 0, a, nil, nil)
}

func (ts *Terms) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == a.sort {
		return a
	}
	if a.op == OConst {
		return ts.Const(a.k>>lo, w)
	}
	if lo == 0 && (a.op == OZext || a.op == OSext) {
		if w == a.a.sort {
			return a.a
		}
		if w < a.a.sort {
			return ts.Extract(a.a, hi, 0)
		}
		if a.op == OZext {
			return ts.Zext(a.a, w)
		}
		return ts.Sext(a.a, w)
	}
	return ts.mk(OExtract, w, uint64(hi)<<8|uint64(lo), a, nil, nil)
}

func (ts *Terms) Zext(a *Term, w uint8) *Term {
	if w == a.sort {
		return a
	}
	if a.op == OConst {
		return ts.Const(a.k, w)
	}
	if a.op == OZext {
		return ts.Zext(a.a, w)
	}
	if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
		return ts.Ite(a.a, ts.Const(a.b.k, w), ts.Const(a.c.k, w))
	}
	return ts.mk(OZext, w, 0, a, nil, nil)
}

func (ts *Terms) Sext(a *Term, w uint8) *Term {
	if w == a.sort {
		return a
	}
	if a.op == OConst {
		return ts.Const(uint64(sx(a.k, a.sort)), w)
	}
	if a.op == OZext {
		return ts.Zext(a.a, w)
	}
	return ts.mk(OSext, w, 0, a, nil, nil)
}

// Resize converts to width w, extending by signedness.
func (ts *Terms) Resize(a *Term, w uint8, signed bool) *Term {
	switch {
	case w == a.sort:
		return a
	case w < a.sort:
		return ts.Extract(a, w-1, 0)
	case signed:
		return ts.Sext(a, w)
	default:
		return ts.Zext(a, w)
	}
}

// Model maps variable index to value; missing means 0.
type Model struct {
	vals []uint64
	gen  uint64
}

func (m *Model) get(i int32) uint64 {
	if int(i) < len(m.vals) {
		return m.vals[i]
	}
	return 0
}

func (ts *Terms) newModel(vals []uint64) *Model {
	ts.evalGen++
	return &Model{vals: vals, gen: ts.evalGen}
}

// Eval computes the value of t under m (Bool as 0/1).
func (ts *Terms) Eval(t *Term, m *Model) uint64 {
	if t.op == OConst {
		return t.k
	}
	if t.evalGen == m.gen {
		return t.evalVal
	}
	var r uint64
	switch t.op {
	case OVar:
		r = m.get(int32(t.k)) & mask1(t.sort)
	case ONot:
		r = 1 - ts.Eval(t.a, m)
	case OAnd:
		r = ts.Eval(t.a, m)
		if r == 1 {
			r = ts.Eval(t.b, m)
		}
	case OOr:
		r = ts.Eval(t.a, m)
		if r == 0 {
			r = ts.Eval(t.b, m)
		}
	case OEq:
		if ts.Eval(t.a, m) == ts.Eval(t.b, m) {
			r = 1
		}
	case OIte:
		if ts.Eval(t.a, m) == 1 {
			r = ts.Eval(t.b, m)
		} else {
			r = ts.Eval(t.c, m)
		}
	case OBnot:
		r = ^ts.Eval(t.a, m) & mask(t.sort)
	case ONeg:
		r = -ts.Eval(t.a, m) & mask(t.sort)
	case OExtract:
		r = (ts.Eval(t.a, m) >> (t.k & 0xff)) & mask(t.sort)
	case OZext:
		r = ts.Eval(t.a, m)
	case OSext:
		r = uint64(sx(ts.Eval(t.a, m), t.a.sort)) & mask(t.sort)
	default:
		r = evalOp(t.op, t.a.sort, ts.Eval(t.a, m), ts.Eval(t.b, m))
	}
	t.evalGen = m.gen
	t.evalVal = r
	return r
}

func mask1(s uint8) uint64 {
	if s == 0 {
		return 1
	}
	return mask(s)
}
