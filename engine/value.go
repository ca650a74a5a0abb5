package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value representation (see DESIGN.md):
//
//	integers (all kinds)   uint64 masked to the width, or *Term of that width
//	bool                   bool, or *Term of sort Bool
//	float                  float64, or *SymFloat (an integer-valued symbolic float)
//	string                 string, or *SymStr
//	pointer                *Value (nil pointer is (*Value)(nil)), or *CastPtr
//	struct, array          Struct, Array
//	slice                  Slice (nil slice is Slice(nil))
//	map, chan, func        *Map, *Chan, *Closure (possibly nil)
//	interface              Iface
//	tuple                  Tuple
type Value interface{}

type Struct []Value
type Array []Value
type Slice []Value
type Tuple []Value

type SymStr struct{ b []Value }

type SymFloat struct{ t *Term } // value = signed 64-bit integer t

type Iface struct {
	T types.Type // canonical; nil for the nil interface
	V Value
}

type Closure struct {
	fn  *ssa.Function
	f   *Func
	env []Value
	bi  *ssa.Builtin
}

type UPtr struct { // unsafe.Pointer
	p Value
	T types.Type // pointee type of the pointer it came from
}

type CastPtr struct {
	p    *Value
	from types.Type
}

type mapEnt struct {
	k    Value
	v    Value
	live bool
}

type Map struct {
	ents []*mapEnt
	idx  map[interface{}]int // concrete simple keys
	n    int
	nsym int // live entries whose key is not simple/concrete
}

type MapIter struct {
	m    *Map
	done map[*mapEnt]bool
	skip map[*mapEnt]bool
}

type StrIter struct {
	v Value
	i int
}

// SymRef points to one of the elements of s, selected by a symbolic index
// already known to be in range.
type SymRef struct {
	s   []Value
	idx *Term // 64 bits
}

// DataPtr is the result of unsafe.SliceData / unsafe.StringData.
type DataPtr struct {
	s []Value
}

var canonMu sync.Mutex
var canonMap typeutil.Map
var canonCache sync.Map // types.Type -> types.Type

func canon(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if c, ok := canonCache.Load(t); ok {
		return c.(types.Type)
	}
	canonMu.Lock()
	defer canonMu.Unlock()
	t2 := types.Unalias(t)
	var c types.Type
	if v := canonMap.At(t2); v != nil {
		c = v.(types.Type)
	} else {
		canonMap.Set(t2, t2)
		c = t2
	}
	canonCache.Store(t, c)
	return c
}

type tkind uint8

const (
	kBool tkind = iota
	kInt
	kFloat
	kString
	kPtr
	kStruct
	kArray
	kSlice
	kMap
	kChan
	kFunc
	kIface
	kTuple
	kUnsafe
	kComplex
	kOther
)

// tinfo is the pre-computed shape of a type.
type tinfo struct {
	k      tkind
	w      uint8
	signed bool
	t      types.Type
	under  types.Type
	elem   *tinfo   // pointer/slice/array/chan/map value
	fields []*tinfo // struct
	n      int64    // array length
	f32    bool
}

var tinfoCache sync.Map

func tinfoOf(t types.Type) *tinfo {
	if v, ok := tinfoCache.Load(t); ok {
		return v.(*tinfo)
	}
	ti := &tinfo{t: t}
	u := t.Underlying()
	ti.under = u
	switch u := u.(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			ti.k = kBool
		case types.Int, types.Int64, types.UntypedInt:
			ti.k, ti.w, ti.signed = kInt, 64, true
		case types.Int8:
			ti.k, ti.w, ti.signed = kInt, 8, true
		case types.Int16:
			ti.k, ti.w, ti.signed = kInt, 16, true
		case types.Int32, types.UntypedRune:
			ti.k, ti.w, ti.signed = kInt, 32, true
		case types.Uint, types.Uint64, types.Uintptr:
			ti.k, ti.w = kInt, 64
		case types.Uint8:
			ti.k, ti.w = kInt, 8
		case types.Uint16:
			ti.k, ti.w = kInt, 16
		case types.Uint32:
			ti.k, ti.w = kInt, 32
		case types.Float64, types.UntypedFloat:
			ti.k = kFloat
		case types.Float32:
			ti.k = kFloat
			ti.f32 = true
		case types.String, types.UntypedString:
			ti.k = kString
		case types.UnsafePointer:
			ti.k = kUnsafe
		case types.Complex64, types.Complex128, types.UntypedComplex:
			ti.k = kComplex
		default:
			ti.k = kOther
		}
	case *types.Pointer:
		ti.k = kPtr // elem resolved lazily: recursive types
	case *types.Struct:
		ti.k = kStruct
		for i := 0; i < u.NumFields(); i++ {
			ti.fields = append(ti.fields, tinfoOf(u.Field(i).Type()))
		}
	case *types.Array:
		ti.k = kArray
		ti.n = u.Len()
		ti.elem = tinfoOf(u.Elem())
	case *types.Slice:
		ti.k = kSlice
	case *types.Map:
		ti.k = kMap
	case *types.Chan:
		ti.k = kChan
	case *types.Signature:
		ti.k = kFunc
	case *types.Interface:
		ti.k = kIface
	case *types.Tuple:
		ti.k = kTuple
		for i := 0; i < u.Len(); i++ {
			ti.fields = append(ti.fields, tinfoOf(u.At(i).Type()))
		}
	default:
		ti.k = kOther
	}
	tinfoCache.Store(t, ti)
	return ti
}

func (ti *tinfo) zero() Value {
	switch ti.k {
	case kBool:
		return false
	case kInt:
		return uint64(0)
	case kFloat:
		return float64(0)
	case kString:
		return ""
	case kPtr:
		return (*Value)(nil)
	case kStruct:
		s := make(Struct, len(ti.fields))
		for i, f := range ti.fields {
			s[i] = f.zero()
		}
		return s
	case kArray:
		a := make(Array, ti.n)
		switch ti.elem.k {
		case kStruct, kArray:
			for i := range a {
				a[i] = ti.elem.zero()
			}
		default:
			z := ti.elem.zero()
			for i := range a {
				a[i] = z
			}
		}
		return a
	case kSlice:
		return Slice(nil)
	case kMap:
		return (*Map)(nil)
	case kChan:
		return (*Chan)(nil)
	case kFunc:
		return (*Closure)(nil)
	case kIface:
		return Iface{}
	case kTuple:
		t := make(Tuple, len(ti.fields))
		for i, f := range ti.fields {
			t[i] = f.zero()
		}
		return t
	case kUnsafe:
		return UPtr{}
	case kComplex:
		return complex(0, 0)
	}
	panic(unsupported("zero value of " + ti.t.String()))
}

// copyVal copies aggregates (structs, arrays); everything else is immutable
// or a reference.
func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		c := make(Struct, len(v))
		for i, x := range v {
			switch x.(type) {
			case Struct, Array:
				c[i] = copyVal(x)
			default:
				c[i] = x
			}
		}
		return c
	case Array:
		c := make(Array, len(v))
		for i, x := range v {
			switch x.(type) {
			case Struct, Array:
				c[i] = copyVal(x)
			default:
				c[i] = x
			}
		}
		return c
	}
	return v
}

// storeInto assigns v to *p, keeping the identity of nested slots.
func storeInto(p *Value, v Value) {
	switch v := v.(type) {
	case Struct:
		if d, ok := (*p).(Struct); ok && len(d) == len(v) {
			if len(d) > 0 && &d[0] == &v[0] {
				return
			}
			for i := range v {
				storeInto(&d[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	case Array:
		if d, ok := (*p).(Array); ok && len(d) == len(v) {
			if len(d) > 0 && &d[0] == &v[0] {
				return
			}
			for i := range v {
				storeInto(&d[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	default:
		*p = v
	}
}

type unsupportedErr struct{ msg string }

func unsupported(msg string) unsupportedErr { return unsupportedErr{msg} }
func (u unsupportedErr) Error() string      { return "unsupported: " + u.msg }

// ---- strings ----

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen of %T", v))
}

func strByte(v Value, i int) Value {
	switch s := v.(type) {
	case string:
		return uint64(s[i])
	case *SymStr:
		return s.b[i]
	}
	panic("strByte")
}

func strBytes(v Value) []Value {
	switch s := v.(type) {
	case string:
		b := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			b[i] = byteVal(s[i])
		}
		return b
	case *SymStr:
		return s.b
	}
	panic(fmt.Sprintf("strBytes of %T", v))
}

var byteVals [256]Value

func init() {
	for i := range byteVals {
		byteVals[i] = uint64(i)
	}
}

func byteVal(b byte) Value { return byteVals[b] }

// mkStr makes a string from bytes that will not be mutated any more.
func mkStr(b []Value) Value {
	for _, x := range b {
		if _, ok := x.(uint64); !ok {
			return &SymStr{b}
		}
	}
	raw := make([]byte, len(b))
	for i, x := range b {
		raw[i] = byte(x.(uint64))
	}
	return string(raw)
}

// concStr returns the concrete contents, if they are concrete.
func concStr(v Value) (string, bool) {
	switch s := v.(type) {
	case string:
		return s, true
	case *SymStr:
		raw := make([]byte, len(s.b))
		for i, x := range s.b {
			u, ok := x.(uint64)
			if !ok {
				return "", false
			}
			raw[i] = byte(u)
		}
		return string(raw), true
	}
	return "", false
}

func concBytes(b []Value) ([]byte, bool) {
	raw := make([]byte, len(b))
	for i, x := range b {
		u, ok := x.(uint64)
		if !ok {
			return nil, false
		}
		raw[i] = byte(u)
	}
	return raw, true
}

// ---- equality ----

// boolVal normalises a Bool term to a Go bool when it is constant.
func boolVal(t *Term) Value {
	if t.op == OConst {
		return t.k == 1
	}
	return t
}

func intVal(t *Term) Value {
	if t.op == OConst {
		return t.k
	}
	return t
}

func (m *Machine) btTerm(v Value) *Term {
	switch b := v.(type) {
	case bool:
		return m.ts.Bool(b)
	case *Term:
		return b
	}
	panic(fmt.Sprintf("bool expected, got %T", v))
}

func (m *Machine) intTerm(v Value, w uint8) *Term {
	switch x := v.(type) {
	case uint64:
		return m.ts.Const(x, w)
	case *Term:
		return x
	}
	panic(fmt.Sprintf("int expected, got %T", v))
}

func (m *Machine) andV(a, b Value) Value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if !y {
			return false
		}
		return a
	}
	return boolVal(m.ts.And(a.(*Term), b.(*Term)))
}

func (m *Machine) notV(a Value) Value {
	if x, ok := a.(bool); ok {
		return !x
	}
	return boolVal(m.ts.Not(a.(*Term)))
}

func (m *Machine) eqStr(a, b Value) Value {
	sa, oka := a.(string)
	sb, okb := b.(string)
	if oka && okb {
		return sa == sb
	}
	n := strLen(a)
	if n != strLen(b) {
		return false
	}
	var acc *Term = m.ts.tTrue
	for i := 0; i < n; i++ {
		x, y := strByte(a, i), strByte(b, i)
		xc, ok1 := x.(uint64)
		yc, ok2 := y.(uint64)
		if ok1 && ok2 {
			if xc != yc {
				return false
			}
			continue
		}
		acc = m.ts.And(acc, m.ts.Eq(m.intTerm(x, 8), m.intTerm(y, 8)))
		if acc == m.ts.tFalse {
			return false
		}
	}
	return boolVal(acc)
}

// eqVal compares two values of the same static type.
func (m *Machine) eqVal(a, b Value) Value {
	switch x := a.(type) {
	case uint64:
		if y, ok := b.(uint64); ok {
			return x == y
		}
		y := b.(*Term)
		return boolVal(m.ts.Eq(m.ts.Const(x, y.sort), y))
	case bool:
		if y, ok := b.(bool); ok {
			return x == y
		}
		if x {
			return b
		}
		return m.notV(b)
	case *Term:
		switch y := b.(type) {
		case *Term:
			return boolVal(m.ts.Eq(x, y))
		case uint64:
			return boolVal(m.ts.Eq(x, m.ts.Const(y, x.sort)))
		case bool:
			return boolVal(m.ts.Eq(x, m.ts.Bool(y)))
		}
	case string, *SymStr:
		return m.eqStr(a, b)
	case float64:
		if y, ok := b.(float64); ok {
			return x == y
		}
		if y, ok := b.(*SymFloat); ok {
			return m.eqVal(y, a)
		}
	case *SymFloat:
		switch y := b.(type) {
		case *SymFloat:
			return boolVal(m.ts.Eq(x.t, y.t))
		case float64:
			if y == float64(int64(y)) {
				return boolVal(m.ts.Eq(x.t, m.ts.Const(uint64(int64(y)), 64)))
			}
			return false
		}
	case *Value:
		y, ok := b.(*Value)
		return ok && x == y
	case Struct:
		y := b.(Struct)
		var r Value = true
		for i := range x {
			r = m.andV(r, m.eqVal(x[i], y[i]))
			if r == false {
				return false
			}
		}
		return r
	case Array:
		y := b.(Array)
		var r Value = true
		for i := range x {
			r = m.andV(r, m.eqVal(x[i], y[i]))
			if r == false {
				return false
			}
		}
		return r
	case Iface:
		y := b.(Iface)
		if x.T == nil || y.T == nil {
			return x.T == nil && y.T == nil
		}
		if x.T != y.T {
			return false
		}
		switch tinfoOf(x.T).k {
		case kSlice, kMap, kFunc:
			panic(goPanic{m.rtErr("comparing uncomparable type " + x.T.String())})
		}
		return m.eqVal(x.V, y.V)
	case *Map:
		y, ok := b.(*Map)
		return ok && x == y
	case *Chan:
		y, ok := b.(*Chan)
		return ok && x == y
	case *Closure:
		y, ok := b.(*Closure)
		return ok && x == y
	case Slice:
		// only comparison with nil is legal
		y, ok := b.(Slice)
		return ok && x == nil && y == nil
	case UPtr:
		y, ok := b.(UPtr)
		if !ok {
			return false
		}
		if x.p == nil || y.p == nil {
			return x.p == nil && y.p == nil
		}
		return m.eqVal(x.p, y.p)
	case complex128:
		return x == b.(complex128)
	case nil:
		return b == nil
	}
	panic(unsupported(fmt.Sprintf("equality of %T and %T", a, b)))
}

// ---- maps ----

func simpleKey(k Value) (interface{}, bool) {
	switch x := k.(type) {
	case string:
		return x, true
	case uint64:
		return x, true
	case bool:
		return x, true
	case *Value:
		return x, true
	case *Chan:
		return x, true
	case *SymStr:
		if s, ok := concStr(x); ok {
			return s, true
		}
	case Iface:
		if x.T == nil {
			return Iface{}, true
		}
		switch x.V.(type) {
		case string, uint64, bool, *Value, *Chan:
			return Iface{x.T, x.V}, true
		}
	}
	return nil, false
}

// find locates the entry for key, forking on symbolic equality if needed.
func (m *Machine) mapFind(mp *Map, k Value) *mapEnt {
	if mp == nil || mp.n == 0 {
		return nil
	}
	sk, simple := simpleKey(k)
	if simple {
		if i, ok := mp.idx[sk]; ok {
			return mp.ents[i]
		}
		if mp.nsym == 0 {
			return nil
		}
	}
	for _, e := range mp.ents {
		if !e.live {
			continue
		}
		if simple {
			if _, s2 := simpleKey(e.k); s2 {
				continue // distinct: not in idx
			}
		}
		c := m.eqVal(k, e.k)
		if m.forkBool(c, "map key equality") {
			return e
		}
	}
	return nil
}

func (m *Machine) mapSet(mp *Map, k, v Value) {
	if e := m.mapFind(mp, k); e != nil {
		e.v = v
		return
	}
	e := &mapEnt{copyVal(k), v, true}
	if ss, ok := k.(*SymStr); ok {
		// detach from any aliased storage
		e.k = mkStr(append([]Value(nil), ss.b...))
	}
	if sk, ok := simpleKey(e.k); ok {
		mp.idx[sk] = len(mp.ents)
	} else {
		mp.nsym++
	}
	mp.ents = append(mp.ents, e)
	mp.n++
}

func (m *Machine) mapDelete(mp *Map, k Value) {
	e := m.mapFind(mp, k)
	if e == nil {
		return
	}
	e.live = false
	mp.n--
	if sk, ok := simpleKey(e.k); ok {
		delete(mp.idx, sk)
	} else {
		mp.nsym--
	}
}

func newMap() *Map { return &Map{idx: map[interface{}]int{}} }

// ---- debug printing ----

func (m *Machine) show(v Value) string {
	switch x := v.(type) {
	case string:
		return fmt.Sprintf("%q", x)
	case *SymStr:
		if m.model != nil {
			var sb strings.Builder
			for _, b := range x.b {
				sb.WriteByte(byte(m.evalInt(b)))
			}
			return fmt.Sprintf("%q", sb.String())
		}
		return fmt.Sprintf("symstr[%d]", len(x.b))
	case *Term:
		if m.model != nil {
			return fmt.Sprintf("%d", m.ts.Eval(x, m.model))
		}
		return fmt.Sprintf("term%d", x.id)
	case Iface:
		if x.T == nil {
			return "nil"
		}
		return x.T.String() + "(" + m.show(x.V) + ")"
	case Struct:
		var p []string
		for _, f := range x {
			p = append(p, m.show(f))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case *Value:
		if x == nil {
			return "nil"
		}
		return "&..."
	case Slice:
		if b, ok := concBytes(x); ok {
			return fmt.Sprintf("%q", b)
		}
		return fmt.Sprintf("slice[%d]", len(x))
	}
	return fmt.Sprintf("%v", v)
}
