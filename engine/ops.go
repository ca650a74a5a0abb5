package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

func b2t(b bool) Value { return b }

func (m *Machine) binop(tok token.Token, ti, ti2 *tinfo, a, b Value) Value {
	switch tok {
	case token.EQL:
		return m.eqVal(a, b)
	case token.NEQ:
		return m.notV(m.eqVal(a, b))
	}
	switch ti.k {
	case kInt:
		return m.intOp(tok, ti, ti2, a, b)
	case kString:
		return m.strOp(tok, a, b)
	case kFloat:
		return m.floatOp(tok, ti, a, b)
	case kBool:
		// & | on bools do not exist in Go; && || are control flow
	case kComplex:
		x, y := a.(complex128), b.(complex128)
		switch tok {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		}
	}
	panic(unsupported(fmt.Sprintf("binary %s on %s", tok, ti.t)))
}

func (m *Machine) intOp(tok token.Token, ti, ti2 *tinfo, a, b Value) Value {
	w := ti.w
	x, xok := a.(uint64)
	y, yok := b.(uint64)
	if tok == token.SHL || tok == token.SHR {
		return m.shift(tok, ti, ti2, a, b)
	}
	if xok && yok {
		var op Op
		switch tok {
		case token.ADD:
			return (x + y) & mask(w)
		case token.SUB:
			return (x - y) & mask(w)
		case token.MUL:
			return (x * y) & mask(w)
		case token.QUO, token.REM:
			if y == 0 {
				panic(goPanic{m.rtErr("integer divide by zero")})
			}
			if tok == token.QUO {
				op = OUdiv
				if ti.signed {
					op = OSdiv
				}
			} else {
				op = OUrem
				if ti.signed {
					op = OSrem
				}
			}
			return evalOp(op, w, x, y)
		case token.AND:
			return x & y
		case token.OR:
			return x | y
		case token.XOR:
			return x ^ y
		case token.AND_NOT:
			return x &^ y
		case token.LSS:
			if ti.signed {
				return sx(x, w) < sx(y, w)
			}
			return x < y
		case token.LEQ:
			if ti.signed {
				return sx(x, w) <= sx(y, w)
			}
			return x <= y
		case token.GTR:
			if ti.signed {
				return sx(x, w) > sx(y, w)
			}
			return x > y
		case token.GEQ:
			if ti.signed {
				return sx(x, w) >= sx(y, w)
			}
			return x >= y
		}
		panic(unsupported("int op " + tok.String()))
	}
	ts := m.ts
	tx, ty := m.intTerm(a, w), m.intTerm(b, w)
	lt, le := ts.Ult, ts.Ule
	if ti.signed {
		lt, le = ts.Slt, ts.Sle
	}
	switch tok {
	case token.ADD:
		return intVal(ts.Bin(OAdd, tx, ty))
	case token.SUB:
		return intVal(ts.Bin(OSub, tx, ty))
	case token.MUL:
		return intVal(ts.Bin(OMul, tx, ty))
	case token.QUO, token.REM:
		if m.forkBool(boolVal(ts.Eq(ty, ts.Const(0, w))), "division by zero") {
			panic(goPanic{m.rtErr("integer divide by zero")})
		}
		op := OUdiv
		if tok == token.REM {
			op = OUrem
		}
		if ti.signed {
			if tok == token.QUO {
				op = OSdiv
			} else {
				op = OSrem
			}
		}
		if tok == token.QUO && ty.op == OConst && (!ti.signed || sx(ty.k, w) > 0) {
			if q, ok := m.linDiv(tx, ty.k); ok {
				return intVal(q)
			}
		}
		return intVal(ts.Bin(op, tx, ty))
	case token.AND:
		return intVal(ts.Bin(OBand, tx, ty))
	case token.OR:
		return intVal(ts.Bin(OBor, tx, ty))
	case token.XOR:
		return intVal(ts.Bin(OBxor, tx, ty))
	case token.AND_NOT:
		return intVal(ts.Bin(OBand, tx, ts.BNot(ty)))
	case token.LSS:
		return boolVal(lt(tx, ty))
	case token.LEQ:
		return boolVal(le(tx, ty))
	case token.GTR:
		return boolVal(lt(ty, tx))
	case token.GEQ:
		return boolVal(le(ty, tx))
	}
	panic(unsupported("int op " + tok.String()))
}

func (m *Machine) shift(tok token.Token, ti, ti2 *tinfo, a, b Value) Value {
	w := ti.w
	if y, ok := b.(uint64); ok {
		if ti2.signed && sx(y, ti2.w) < 0 {
			panic(goPanic{m.rtErr("negative shift amount")})
		}
		op := OShl
		if tok == token.SHR {
			op = OLshr
			if ti.signed {
				op = OAshr
			}
		}
		if x, ok := a.(uint64); ok {
			return evalOp(op, w, x, y)
		}
		if y > 64 {
			y = 64
		}
		if y >= uint64(w) {
			if op != OAshr {
				return uint64(0)
			}
			y = uint64(w) - 1
		}
		return intVal(m.ts.Bin(op, a.(*Term), m.ts.Const(y, w)))
	}
	ty := b.(*Term)
	ts := m.ts
	if ti2.signed {
		if m.forkBool(boolVal(ts.Slt(ty, ts.Const(0, ty.sort))), "negative shift") {
			panic(goPanic{m.rtErr("negative shift amount")})
		}
	}
	tx := m.intTerm(a, w)
	var cnt *Term
	big := ts.tFalse
	if ty.sort > w {
		big = ts.Not(ts.Ult(ty, ts.Const(uint64(w), ty.sort)))
		cnt = ts.Extract(ty, w-1, 0)
	} else {
		cnt = ts.Zext(ty, w)
		big = ts.Not(ts.Ult(cnt, ts.Const(uint64(w), w)))
		if mask(w) < uint64(w) {
			big = ts.tFalse
		}
	}
	switch {
	case tok == token.SHL:
		return intVal(ts.Ite(big, ts.Const(0, w), ts.Bin(OShl, tx, cnt)))
	case ti.signed:
		sign := ts.Bin(OAshr, tx, ts.Const(uint64(w)-1, w))
		return intVal(ts.Ite(big, sign, ts.Bin(OAshr, tx, cnt)))
	default:
		return intVal(ts.Ite(big, ts.Const(0, w), ts.Bin(OLshr, tx, cnt)))
	}
}

func (m *Machine) concat(a, b Value) Value {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x + y
	}
	if strLen(a) == 0 {
		return b
	}
	if strLen(b) == 0 {
		return a
	}
	r := make([]Value, 0, strLen(a)+strLen(b))
	r = append(r, strBytes(a)...)
	r = append(r, strBytes(b)...)
	return mkStr(r)
}

// strLess is the lexicographic order as a condition.
func (m *Machine) strLess(a, b []Value) Value {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	acc := m.ts.Bool(len(a) < len(b))
	for i := n - 1; i >= 0; i-- {
		x, y := m.intTerm(a[i], 8), m.intTerm(b[i], 8)
		acc = m.ts.Or(m.ts.Ult(x, y), m.ts.And(m.ts.Eq(x, y), acc))
	}
	return boolVal(acc)
}

func (m *Machine) strOp(tok token.Token, a, b Value) Value {
	if tok == token.ADD {
		return m.concat(a, b)
	}
	x, ok1 := concStr(a)
	y, ok2 := concStr(b)
	if ok1 && ok2 {
		switch tok {
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		case token.GEQ:
			return x >= y
		}
	}
	sa, sb := strBytes(a), strBytes(b)
	switch tok {
	case token.LSS:
		return m.strLess(sa, sb)
	case token.LEQ:
		return m.notV(m.strLess(sb, sa))
	case token.GTR:
		return m.strLess(sb, sa)
	case token.GEQ:
		return m.notV(m.strLess(sa, sb))
	}
	panic(unsupported("string op " + tok.String()))
}

func (m *Machine) concFloat(v Value) float64 {
	switch x := v.(type) {
	case float64:
		return x
	case *SymFloat:
		return float64(sx(m.concretize(x.t, "float"), 64))
	}
	panic(fmt.Sprintf("concFloat %T", v))
}

func (m *Machine) floatOp(tok token.Token, ti *tinfo, a, b Value) Value {
	x, xok := a.(float64)
	y, yok := b.(float64)
	if !(xok && yok) {
		ts := m.ts
		toT := func(v Value) *Term {
			switch f := v.(type) {
			case *SymFloat:
				return f.t
			case float64:
				if f == math.Trunc(f) && math.Abs(f) < 1<<53 {
					return ts.Const(uint64(int64(f)), 64)
				}
			}
			return nil
		}
		tx, ty := toT(a), toT(b)
		if tx != nil && ty != nil {
			switch tok {
			case token.MUL:
				if tx.isConst() || ty.isConst() {
					return m.mkFloat(ts.Bin(OMul, tx, ty))
				}
			case token.ADD:
				return m.mkFloat(ts.Bin(OAdd, tx, ty))
			case token.SUB:
				return m.mkFloat(ts.Bin(OSub, tx, ty))
			case token.QUO:
				if ty.isConst() && ty.k == 1 {
					return a
				}
			case token.LSS:
				return boolVal(ts.Slt(tx, ty))
			case token.LEQ:
				return boolVal(ts.Sle(tx, ty))
			case token.GTR:
				return boolVal(ts.Slt(ty, tx))
			case token.GEQ:
				return boolVal(ts.Sle(ty, tx))
			}
		}
		x, y = m.concFloat(a), m.concFloat(b)
	}
	r := func(f float64) Value {
		if ti.f32 {
			return float64(float32(f))
		}
		return f
	}
	switch tok {
	case token.ADD:
		return r(x + y)
	case token.SUB:
		return r(x - y)
	case token.MUL:
		return r(x * y)
	case token.QUO:
		return r(x / y)
	case token.LSS:
		return x < y
	case token.LEQ:
		return x <= y
	case token.GTR:
		return x > y
	case token.GEQ:
		return x >= y
	}
	panic(unsupported("float op " + tok.String()))
}

func (m *Machine) mkFloat(t *Term) Value {
	if t.isConst() {
		return float64(int64(t.k))
	}
	return &SymFloat{t}
}

func (m *Machine) convert(to, from *tinfo, v Value) Value {
	switch to.k {
	case kInt:
		switch from.k {
		case kInt:
			switch x := v.(type) {
			case uint64:
				if from.signed {
					return uint64(sx(x, from.w)) & mask(to.w)
				}
				return x & mask(to.w)
			case *Term:
				return intVal(m.ts.Resize(x, to.w, from.signed))
			}
		case kFloat:
			switch x := v.(type) {
			case float64:
				if to.signed {
					return uint64(int64(x)) & mask(to.w)
				}
				if x < 0 {
					return uint64(int64(x)) & mask(to.w)
				}
				return uint64(x) & mask(to.w)
			case *SymFloat:
				return intVal(m.ts.Resize(x.t, to.w, true))
			}
		case kUnsafe:
			panic(unsupported("pointer to integer conversion"))
		}
	case kFloat:
		switch from.k {
		case kInt:
			switch x := v.(type) {
			case uint64:
				var f float64
				if from.signed {
					f = float64(sx(x, from.w))
				} else {
					f = float64(x)
				}
				if to.f32 {
					f = float64(float32(f))
				}
				return f
			case *Term:
				return &SymFloat{m.ts.Resize(x, 64, from.signed)}
			}
		case kFloat:
			if f, ok := v.(float64); ok && to.f32 {
				return float64(float32(f))
			}
			return v
		}
	case kString:
		switch from.k {
		case kString:
			return v
		case kInt:
			if t, ok := v.(*Term); ok {
				return m.runeString(t, from)
			}
			c := m.concIntTi(v, from, "rune to string")
			if c < 0 || c > utf8.MaxRune {
				c = utf8.RuneError
			}
			return string(rune(c))
		case kSlice:
			s := v.(Slice)
			if isByteSlice(from) {
				m.rdSlice(s)
				return mkStr(append([]Value(nil), s...))
			}
			var out []Value
			for _, r := range s {
				out = append(out, m.encodeRune(r)...)
			}
			return mkStr(out)
		}
	case kSlice:
		if from.k == kString {
			if isByteSlice(to) {
				return Slice(append(make([]Value, 0, roundBytes(strLen(v))), strBytes(v)...))
			}
			out := Slice{}
			b := strBytes(v)
			for i := 0; i < len(b); {
				r, n := m.decodeRune(b[i:])
				out = append(out, r)
				i += n
			}
			return out
		}
		return v
	case kPtr:
		if from.k == kUnsafe {
			u := v.(UPtr)
			if u.p == nil {
				return (*Value)(nil)
			}
			et := to.under.(*types.Pointer).Elem()
			if u.T == nil || types.Identical(u.T, et) || sameLayout(u.T, et) {
				return u.p
			}
			if p, ok := u.p.(*Value); ok {
				return &CastPtr{p, u.T}
			}
			return u.p
		}
		return v
	case kUnsafe:
		if from.k == kPtr {
			if p, ok := v.(*Value); ok && p == nil {
				return UPtr{}
			}
			if c, ok := v.(*CastPtr); ok {
				return UPtr{c.p, c.from}
			}
			return UPtr{v, from.under.(*types.Pointer).Elem()}
		}
		if from.k == kUnsafe {
			return v
		}
	case kComplex:
		return v
	default:
		return v
	}
	panic(unsupported(fmt.Sprintf("conversion from %s to %s", from.t, to.t)))
}

func isByteSlice(ti *tinfo) bool {
	e := tinfoOf(ti.under.(*types.Slice).Elem())
	return e.k == kInt && e.w == 8
}

func (m *Machine) encodeRune(r Value) []Value {
	if t, ok := r.(*Term); ok {
		if m.forkBool(boolVal(m.ts.Ult(t, m.ts.Const(0x80, t.sort))), "ascii rune") {
			return []Value{intVal(m.ts.Resize(t, 8, false))}
		}
		r = m.concretize(t, "rune")
	}
	var buf [4]byte
	n := utf8.EncodeRune(buf[:], rune(int32(uint32(r.(uint64)))))
	out := make([]Value, n)
	for i := range out {
		out[i] = byteVal(buf[i])
	}
	return out
}

// decodeRune decodes the first rune of b, forking on symbolic bytes.
func (m *Machine) decodeRune(b []Value) (Value, int) {
	if len(b) == 0 {
		return uint64(utf8.RuneError), 0
	}
	conc := func(i int) (byte, bool) {
		if i >= len(b) {
			return 0, false
		}
		u, ok := b[i].(uint64)
		return byte(u), ok
	}
	c0, ok0 := conc(0)
	if !ok0 {
		t := b[0].(*Term)
		if m.forkBool(boolVal(m.ts.Ult(t, m.ts.Const(0x80, 8))), "ascii") {
			return intVal(m.ts.Zext(t, 32)), 1
		}
		// non-ASCII lead byte
		if m.forkBool(boolVal(m.ts.Or(m.ts.Ult(t, m.ts.Const(0xC2, 8)), m.ts.Ult(m.ts.Const(0xF4, 8), t))), "invalid lead") {
			return uint64(utf8.RuneError), 1
		}
		c0 = byte(m.concretize(t, "utf8 lead byte"))
	}
	if c0 < 0x80 {
		return uint64(c0), 1
	}
	n := 0
	switch {
	case c0 >= 0xC2 && c0 <= 0xDF:
		n = 2
	case c0 >= 0xE0 && c0 <= 0xEF:
		n = 3
	case c0 >= 0xF0 && c0 <= 0xF4:
		n = 4
	}
	if n == 0 || len(b) < n {
		return uint64(utf8.RuneError), 1
	}
	lo, hi := uint64(0x80), uint64(0xBF)
	switch c0 {
	case 0xE0:
		lo = 0xA0
	case 0xED:
		hi = 0x9F
	case 0xF0:
		lo = 0x90
	case 0xF4:
		hi = 0x8F
	}
	r := m.ts.Const(uint64(c0)&(0xFF>>(uint(n)+1)), 32)
	for i := 1; i < n; i++ {
		t := m.intTerm(b[i], 8)
		in := m.ts.And(m.ts.Ule(m.ts.Const(lo, 8), t), m.ts.Ule(t, m.ts.Const(hi, 8)))
		if !m.forkBool(boolVal(in), "utf8 continuation") {
			return uint64(utf8.RuneError), 1
		}
		lo, hi = 0x80, 0xBF
		x := m.ts.Bin(OBand, m.ts.Zext(t, 32), m.ts.Const(0x3F, 32))
		r = m.ts.Bin(OBor, m.ts.Bin(OShl, r, m.ts.Const(6, 32)), x)
	}
	return intVal(r), n
}

// ---- indexing and slicing ----

func (m *Machine) boundsCheck(idx Value, ti *tinfo, n int) (int, *Term) {
	switch x := idx.(type) {
	case uint64:
		i := int64(x)
		if ti.signed {
			i = sx(x, ti.w)
		}
		if i < 0 || i >= int64(n) {
			panic(goPanic{m.rtErr(fmt.Sprintf("index out of range [%d] with length %d", i, n))})
		}
		return int(i), nil
	case *Term:
		t := m.ts.Resize(x, 64, ti.signed)
		if !m.forkBool(boolVal(m.ts.Ult(t, m.ts.Const(uint64(n), 64))), "index in range") {
			panic(goPanic{m.rtErr(fmt.Sprintf("index out of range with length %d", n))})
		}
		if n == 1 {
			return 0, nil
		}
		return 0, t
	}
	panic(fmt.Sprintf("index of type %T", idx))
}

func (m *Machine) indexAddr(x, idx Value, ti *tinfo, ci *cinstr) Value {
	var s []Value
	switch b := x.(type) {
	case Slice:
		s = b
	case *Value:
		if b == nil {
			panic(goPanic{m.rtErr("invalid memory address or nil pointer dereference")})
		}
		s = (*b).(Array)
	default:
		panic(unsupported(fmt.Sprintf("index address of %T", x)))
	}
	i, t := m.boundsCheck(idx, ti, len(s))
	if t == nil {
		return &s[i]
	}
	// only loads through the address are handled symbolically
	if refs := ci.in.(*ssa.IndexAddr).Referrers(); refs != nil {
		for _, r := range *refs {
			if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
				return &s[int(m.concretize(t, "index"))]
			}
		}
	}
	return &SymRef{s, t}
}

func (m *Machine) indexVal(x, idx Value, ti *tinfo) Value {
	switch b := x.(type) {
	case string, *SymStr:
		n := strLen(x)
		i, t := m.boundsCheck(idx, ti, n)
		if t == nil {
			return strByte(x, i)
		}
		return m.loadRef(&SymRef{strBytes(x), t})
	case Array:
		i, t := m.boundsCheck(idx, ti, len(b))
		if t == nil {
			return copyVal(b[i])
		}
		return m.loadRef(&SymRef{b, t})
	}
	panic(unsupported(fmt.Sprintf("index of %T", x)))
}

func sameElem(a, b Value) bool {
	switch x := a.(type) {
	case uint64, bool, string, *Value, *Closure, *Map, *Chan, *Term:
		return a == b
	case Slice:
		y, ok := b.(Slice)
		if !ok || len(x) != len(y) {
			return false
		}
		if x == nil || y == nil {
			return x == nil && y == nil
		}
		return len(x) > 0 && &x[0] == &y[0]
	}
	return false
}

func (m *Machine) loadRef(r *SymRef) Value {
	ts := m.ts
	type run struct {
		lo, hi int // inclusive
		v      Value
	}
	var runs []run
	scalar := true
	for i, v := range r.s {
		switch v.(type) {
		case uint64, *Term, bool:
		default:
			scalar = false
		}
		if len(runs) > 0 && sameElem(runs[len(runs)-1].v, v) {
			runs[len(runs)-1].hi = i
			continue
		}
		runs = append(runs, run{i, i, v})
	}
	if len(runs) == 1 {
		return copyVal(runs[0].v)
	}
	if scalar && len(runs) <= 300 {
		var sort uint8 = 255
		for _, q := range runs {
			switch x := q.v.(type) {
			case *Term:
				sort = x.sort
			case bool:
				sort = 0
			}
		}
		if sort == 255 {
			// all concrete integers: width from the largest value is not known here;
			// use 64 and let the consumer see the natural width through elemW
			sort = m.elemW
			if sort == 255 {
				return r.s[int(m.concretize(r.idx, "table index"))]
			}
		}
		tt := func(v Value) *Term {
			switch x := v.(type) {
			case *Term:
				return x
			case bool:
				return ts.Bool(x)
			case uint64:
				return ts.Const(x, sort)
			}
			panic("loadRef")
		}
		acc := tt(runs[len(runs)-1].v)
		for i := len(runs) - 2; i >= 0; i-- {
			acc = ts.Ite(ts.Ule(r.idx, ts.Const(uint64(runs[i].hi), 64)), tt(runs[i].v), acc)
		}
		if sort == 0 {
			return boolVal(acc)
		}
		return intVal(acc)
	}
	// fork over groups of identical elements
	type group struct {
		v    Value
		cond *Term
	}
	var groups []group
	for _, q := range runs {
		c := ts.And(ts.Ule(ts.Const(uint64(q.lo), 64), r.idx), ts.Ule(r.idx, ts.Const(uint64(q.hi), 64)))
		if q.lo == q.hi {
			c = ts.Eq(r.idx, ts.Const(uint64(q.lo), 64))
		}
		found := false
		for i := range groups {
			if sameElem(groups[i].v, q.v) {
				groups[i].cond = ts.Or(groups[i].cond, c)
				found = true
				break
			}
		}
		if !found {
			groups = append(groups, group{q.v, c})
		}
	}
	for i, gr := range groups {
		if i == len(groups)-1 || m.forkBool(boolVal(gr.cond), "table lookup") {
			return copyVal(gr.v)
		}
	}
	panic("unreachable")
}

func (m *Machine) load(p Value, ti *tinfo) Value {
	switch x := p.(type) {
	case *Value:
		if x == nil {
			panic(goPanic{m.rtErr("invalid memory address or nil pointer dereference")})
		}
		return copyVal(*x)
	case *SymRef:
		m.elemW = 255
		if ti.k == kInt {
			m.elemW = ti.w
		}
		return m.loadRef(x)
	case *CastPtr:
		if m.racing() {
			m.rd(x.p)
		}
		v := *x.p
		if s, ok := v.(Slice); ok && ti.k == kString {
			return &SymStr{b: s}
		}
		if ti.k == kInt && tinfoOf(x.from).k == kInt && tinfoOf(x.from).w == ti.w {
			return v
		}
		if types.Identical(ti.under, x.from.Underlying()) {
			return copyVal(v)
		}
		panic(unsupported(fmt.Sprintf("load of %s through a pointer to %s", ti.t, x.from)))
	case *DataPtr:
		return x.s[0]
	}
	panic(unsupported(fmt.Sprintf("load through %T", p)))
}

func (m *Machine) store(p Value, v Value) {
	switch x := p.(type) {
	case *Value:
		panic(goPanic{m.rtErr("invalid memory address or nil pointer dereference")})
	case *CastPtr:
		if m.racing() {
			m.wr(x.p)
		}
		storeInto(x.p, v)
		return
	case *SymRef:
		storeInto(&x.s[int(m.concretize(x.idx, "store index"))], v)
		return
	}
	panic(unsupported(fmt.Sprintf("store through %T", p)))
}

func (m *Machine) lookup(ci *cinstr, x, k Value) Value {
	switch b := x.(type) {
	case *Map:
		m.rdMap(b)
		e := m.mapFind(b, k)
		vt := ci.aux.(*tinfo)
		if e != nil {
			if ci.flag {
				return Tuple{copyVal(e.v), true}
			}
			return copyVal(e.v)
		}
		if ci.flag {
			return Tuple{vt.zero(), false}
		}
		return vt.zero()
	case string, *SymStr:
		m.elemW = 8
		return m.indexVal(x, k, ci.ti2)
	}
	panic(unsupported(fmt.Sprintf("lookup in %T", x)))
}

// bound evaluates a slice bound, forking on range and value.
func (m *Machine) sliceBound(v Value, def int, ti *tinfo) int64 {
	if v == nil {
		return int64(def)
	}
	return m.concIntTi(v, ti, "slice bound")
}

var intTi *tinfo

func (m *Machine) sliceOp(ci *cinstr, x, lo, hi, max Value) Value {
	in := ci.in.(*ssa.Slice)
	tiOf := func(v ssa.Value) *tinfo {
		if v == nil {
			return nil
		}
		return tinfoOf(v.Type())
	}
	var s []Value
	switch b := x.(type) {
	case string, *SymStr:
		n := strLen(x)
		m.symBounds(lo, hi, tiOf(in.Low), tiOf(in.High), n)
		l := m.sliceBound(lo, 0, tiOf(in.Low))
		h := m.sliceBound(hi, n, tiOf(in.High))
		if h < 0 || h > int64(n) || l < 0 || l > h {
			panic(goPanic{m.rtErr(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, n))})
		}
		if st, ok := x.(string); ok {
			return st[l:h]
		}
		return mkStr(x.(*SymStr).b[l:h])
	case Slice:
		s = b
	case *Value:
		if b == nil {
			panic(goPanic{m.rtErr("invalid memory address or nil pointer dereference")})
		}
		s = (*b).(Array)
	default:
		panic(unsupported(fmt.Sprintf("slice of %T", x)))
	}
	c := cap(s)
	if _, ok := x.(*Value); ok {
		c = len(s)
	}
	m.symBounds(lo, hi, tiOf(in.Low), tiOf(in.High), c)
	l := m.sliceBound(lo, 0, tiOf(in.Low))
	h := m.sliceBound(hi, len(s), tiOf(in.High))
	mx := m.sliceBound(max, c, tiOf(in.Max))
	if mx < 0 || mx > int64(c) || h < 0 || h > mx || l < 0 || l > h {
		panic(goPanic{m.rtErr(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, mx, c))})
	}
	if s == nil {
		return Slice(nil)
	}
	return Slice(s[l:h:mx])
}

// symBounds forks on whether symbolic bounds are in range before their values
// are enumerated, so that an out-of-range bound is one path, not many.
func (m *Machine) symBounds(lo, hi Value, tl, th *tinfo, n int) {
	chk := func(v Value, ti *tinfo) {
		t, ok := v.(*Term)
		if !ok {
			return
		}
		t64 := m.ts.Resize(t, 64, ti.signed)
		if !m.forkBool(boolVal(m.ts.Ule(t64, m.ts.Const(uint64(n), 64))), "slice bound in range") {
			panic(goPanic{m.rtErr(fmt.Sprintf("slice bounds out of range with capacity %d", n))})
		}
	}
	chk(hi, th)
	chk(lo, tl)
}

func (m *Machine) makeSlice(ln, cp Value, et *tinfo) Value {
	if t, ok := ln.(*Term); ok {
		ts := m.ts
		if m.forkBool(boolVal(ts.Slt(t, ts.Const(0, t.sort))), "negative length") {
			panic(goPanic{m.rtErrPlain("makeslice: len out of range")})
		}
		if m.forkBool(boolVal(ts.Slt(ts.Const(uint64(m.job.maxAlloc), t.sort), t)), "large allocation") {
			// a lazily filled slice would be needed: outside the bounds of this harness
			m.w.st.outOfBound++
			panic(pathAbort{"bound", "allocation larger than the harness bound"})
		}
		same := cp == ln
		n := m.concInt(t, "make length")
		ln = uint64(n)
		if same {
			cp = ln
		}
	}
	n := int64(ln.(uint64))
	c := m.concInt(cp, "make capacity")
	if n < 0 || n > 1<<40 {
		panic(goPanic{m.rtErrPlain("makeslice: len out of range")})
	}
	if c < n || c > 1<<40 {
		panic(goPanic{m.rtErrPlain("makeslice: cap out of range")})
	}
	if c > 1<<24 {
		m.w.st.outOfBound++
		panic(pathAbort{"bound", "allocation larger than 16M elements"})
	}
	s := make([]Value, c)
	fillZero(s, et)
	return Slice(s[:n])
}

func fillZero(s []Value, et *tinfo) {
	switch et.k {
	case kStruct, kArray:
		for i := range s {
			s[i] = et.zero()
		}
	default:
		z := et.zero()
		for i := range s {
			s[i] = z
		}
	}
}

// ---- append growth, as in the Go runtime ----

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundUp(n int) int {
	if n <= 32768 {
		lo, hi := 0, len(sizeClasses)-1
		for lo < hi {
			mid := (lo + hi) / 2
			if sizeClasses[mid] >= n {
				hi = mid
			} else {
				lo = mid + 1
			}
		}
		return sizeClasses[lo]
	}
	return (n + 8191) &^ 8191
}

func roundBytes(n int) int {
	if n <= 32 {
		return 32 // small conversions may live in a 32-byte stack buffer
	}
	return roundUp(n)
}

var stdSizes = types.SizesFor("gc", "amd64")

func growCap(old, need, elemSize int) int {
	nc := old
	dbl := old * 2
	switch {
	case need > dbl:
		nc = need
	case old < 256:
		nc = dbl
	default:
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	if elemSize == 0 {
		return need
	}
	return roundUp(nc*elemSize) / elemSize
}

func (m *Machine) appendVals(s Slice, add []Value, et *tinfo) Slice {
	n := len(s) + len(add)
	if n <= cap(s) {
		r := s[:n]
		m.wrSlice(r[len(s):])
		for i, v := range add {
			storeFresh(&r[len(s)+i], v)
		}
		return r
	}
	if len(add) == 0 {
		return s
	}
	c := growCap(cap(s), n, int(stdSizes.Sizeof(et.t)))
	if c < n {
		c = n
	}
	m.rdSlice(s)
	r := make([]Value, c)
	copy(r, s)
	for i, v := range add {
		r[len(s)+i] = copyVal(v)
	}
	fillZero(r[n:], et)
	for i := range s {
		switch s[i].(type) {
		case Struct, Array:
			r[i] = copyVal(s[i])
		}
	}
	return Slice(r[:n])
}

func storeFresh(p *Value, v Value) { storeInto(p, v) }

func (m *Machine) next(ci *cinstr, it Value) Value {
	switch x := it.(type) {
	case *StrIter:
		n := strLen(x.v)
		if x.i >= n {
			return Tuple{false, uint64(0), uint64(0)}
		}
		var r Value
		var k int
		if s, ok := x.v.(string); ok {
			rr, kk := utf8.DecodeRuneInString(s[x.i:])
			r, k = uint64(rr), kk
		} else {
			r, k = m.decodeRune(x.v.(*SymStr).b[x.i:])
		}
		i := x.i
		x.i += k
		return Tuple{true, uint64(i), r}
	case *MapIter:
		if x.m != nil {
			m.rdMap(x.m)
			var cands []*mapEnt
			for _, e := range x.m.ents {
				if e.live && !x.done[e] {
					cands = append(cands, e)
				}
			}
			if len(cands) > 0 {
				i := 0
				for m.started && i < len(cands)-1 && m.delays > 0 && m.forkBool(boolVal(m.freshBool("maporder")), "map order") {
					m.delays--
					m.delayed++
					i++
				}
				e := cands[i]
				x.done[e] = true
				return Tuple{true, copyVal(e.k), copyVal(e.v)}
			}
		}
		tt := ci.ti
		k, v := Value(nil), Value(nil)
		if len(tt.fields) == 3 {
			if tt.fields[1].k != kOther {
				k = tt.fields[1].zero()
			}
			if tt.fields[2].k != kOther {
				v = tt.fields[2].zero()
			}
		}
		return Tuple{false, k, v}
	}
	panic(fmt.Sprintf("next on %T", it))
}

func (m *Machine) mapIter(mp *Map) Value {
	return &MapIter{m: mp, done: map[*mapEnt]bool{}}
}

// ---- builtins ----

func (m *Machine) builtin(g *G, fr *frame, bi *ssa.Builtin, args []Value, ci *cinstr) Value {
	info := ci.aux.(*callInfo)
	at := func(i int) *tinfo { return tinfoOf(info.cc.Args[i].Type()) }
	switch bi.Name() {
	case "len":
		switch x := args[0].(type) {
		case string:
			return uint64(len(x))
		case *SymStr:
			return uint64(len(x.b))
		case Slice:
			return uint64(len(x))
		case *Map:
			if x == nil {
				return uint64(0)
			}
			m.rdMap(x)
			return uint64(x.n)
		case *Chan:
			if x == nil {
				return uint64(0)
			}
			return uint64(len(x.buf))
		case Array:
			return uint64(len(x))
		case *Value:
			return uint64(at(0).under.(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return uint64(cap(x))
		case *Chan:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.cap)
		case Array:
			return uint64(len(x))
		case *Value:
			return uint64(at(0).under.(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		}
	case "append":
		s := args[0].(Slice)
		if len(args) == 1 {
			return s
		}
		et := tinfoOf(at(0).under.(*types.Slice).Elem())
		switch y := args[1].(type) {
		case Slice:
			add := y
			m.rdSlice(y)
			if len(y) > 0 && len(s) < cap(s) {
				add = append([]Value(nil), y...) // y may overlap s
			}
			return m.appendVals(s, add, et)
		case string, *SymStr:
			return m.appendVals(s, strBytes(y), et)
		}
	case "copy":
		d := args[0].(Slice)
		var src []Value
		switch y := args[1].(type) {
		case Slice:
			src = y
			m.rdSlice(y[:min(len(y), len(d))])
		case string, *SymStr:
			src = strBytes(y)
		}
		n := len(d)
		if len(src) < n {
			n = len(src)
		}
		tmp := append([]Value(nil), src[:n]...)
		m.wrSlice(d[:n])
		for i, v := range tmp {
			storeInto(&d[i], v)
		}
		return uint64(n)
	case "delete":
		if mp := args[0].(*Map); mp != nil {
			m.wrMap(mp)
			m.mapDelete(mp, args[1])
		}
		return nil
	case "close":
		m.chanClose(args[0].(*Chan))
		return nil
	case "panic":
		panic(goPanic{args[0]})
	case "recover":
		p := fr.deferOf
		if p != nil && p.panicking && !p.recovered {
			p.recovered = true
			return p.panicVal
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		ti := at(0)
		for _, a := range args[1:] {
			tok := token.LSS
			if bi.Name() == "max" {
				tok = token.GTR
			}
			c := m.binop(tok, ti, ti, a, r)
			if t, ok := c.(*Term); ok && ti.k == kInt {
				r = intVal(m.ts.Ite(t, m.intTerm(a, ti.w), m.intTerm(r, ti.w)))
			} else if m.forkBool(c, "min/max") {
				r = a
			}
		}
		return r
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				m.wrMap(x)
				for _, e := range x.ents {
					e.live = false
				}
				x.ents = nil
				x.idx = map[interface{}]int{}
				x.n, x.nsym = 0, 0
			}
		case Slice:
			et := tinfoOf(at(0).under.(*types.Slice).Elem())
			for i := range x {
				storeInto(&x[i], et.zero())
			}
		}
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			panic(goPanic{m.rtErr("value method called using nil pointer")})
		}
		return args[0]
	case "SliceData":
		s := args[0].(Slice)
		if s == nil {
			return (*Value)(nil)
		}
		return &DataPtr{s[:cap(s)]}
	case "StringData":
		return &DataPtr{strBytes(args[0])}
	case "String":
		n := m.concInt(args[1], "unsafe.String")
		if n == 0 {
			return ""
		}
		if p, ok := args[0].(*Value); ok && p != nil {
			return mkStrAlias(unsafe.Slice(p, n)) // &b[i]
		}
		d, ok := args[0].(*DataPtr)
		if !ok {
			panic(unsupported(fmt.Sprintf("unsafe.String of %T", args[0])))
		}
		return mkStrAlias(d.s[:n])
	case "Slice":
		n := m.concInt(args[1], "unsafe.Slice")
		if p, ok := args[0].(*DataPtr); ok {
			return Slice(p.s[:n:n])
		}
		if n == 0 {
			return Slice(nil)
		}
		if p, ok := args[0].(*Value); ok && p != nil {
			return Slice(unsafe.Slice(p, n))
		}
	case "Sizeof":
		return uint64(types.SizesFor("gc", "amd64").Sizeof(bi.Type().(*types.Signature).Params().At(0).Type()))
	case "complex":
		return complex(m.concFloat(args[0]), m.concFloat(args[1]))
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	}
	panic(unsupported(fmt.Sprintf("builtin %s on %T", bi.Name(), args[0])))
}

// mkStrAlias makes a string that shares storage with a byte slice.
func mkStrAlias(b []Value) Value { return &SymStr{b} }

// sameLayout tells whether two structs differ only in the names of their
// fields (time.Timer and time.Ticker).
func sameLayout(a, b types.Type) bool {
	x, ok1 := a.Underlying().(*types.Struct)
	y, ok2 := b.Underlying().(*types.Struct)
	if !ok1 || !ok2 || x.NumFields() != y.NumFields() {
		return false
	}
	for i := 0; i < x.NumFields(); i++ {
		if !types.Identical(x.Field(i).Type(), y.Field(i).Type()) {
			return false
		}
	}
	return true
}

// runeString is string(r) for a symbolic r: one path for each length.
func (m *Machine) runeString(t *Term, ti *tinfo) Value {
	ts := m.ts
	w := t.sort
	lt := func(n uint64) bool { return m.forkBool(boolVal(ts.Ult(t, ts.Const(n, w))), "rune to string") }
	part := func(shift, bits uint64, mark uint64) Value {
		x := t
		if shift > 0 {
			x = ts.Bin(OLshr, x, ts.Const(shift, w))
		}
		x = ts.Extract(x, 7, 0)
		return intVal(ts.Bin(OBor, ts.Bin(OBand, x, ts.Const(1<<bits-1, 8)), ts.Const(mark, 8)))
	}
	if w < 16 {
		if w == 8 && !ti.signed {
			if lt(0x80) {
				return mkStr([]Value{t})
			}
			return mkStr([]Value{part(6, 2, 0xC0), part(0, 6, 0x80)})
		}
		return string(rune(m.concIntTi(t, ti, "rune to string")))
	}
	switch {
	case lt(0x80):
		return mkStr([]Value{intVal(ts.Extract(t, 7, 0))})
	case lt(0x800):
		return mkStr([]Value{part(6, 5, 0xC0), part(0, 6, 0x80)})
	case !lt(0xD800) && lt(0xE000):
		return string(utf8.RuneError)
	case w == 16 || lt(0x10000):
		return mkStr([]Value{part(12, 4, 0xE0), part(6, 6, 0x80), part(0, 6, 0x80)})
	case !lt(0x110000): // also the negative ones
		return string(utf8.RuneError)
	}
	return mkStr([]Value{part(18, 3, 0xF0), part(12, 6, 0x80), part(6, 6, 0x80), part(0, 6, 0x80)})
}
