package main

import (
	"fmt"
	"go/types"
	"math"
	"math/rand"
	"regexp"
	"regexp/syntax"
	"strings"
	"sync"
)

const vrtPkg = "github.com/go-stomp/stomp/v3/internal/vrt"

// Packages whose package-level state is initialised by interpreting their
// init functions, once per worker.
var initPkgs = map[string]bool{
	"errors": true, "io": true, "bufio": true, "bytes": true, "strings": true, "strconv": true,
	"unicode/utf8": true, "unicode": true, "container/list": true, "container/heap": true, "container/ring": true,
	"sort": true, "context": true, "math": true, "math/bits": true,
	"slices": true, "maps": true, "cmp": true, "iter": true, "internal/bytealg": true, "internal/stringslite": true,
	"time": true, "sync": true, "sync/atomic": true, "internal/strconv": true, "internal/oserror": true, "net": false,
	"path": true, "net/textproto": true, "encoding/hex": true, "encoding/binary": true, "unicode/utf16": true, "html": false, "fmt": false, "internal/itoa": true,
	"internal/runtime/math": true, "internal/byteorder": true, "io/fs": false, "os": false,
}

func initAllowed(path string) bool { return initPkgs[path] }

// Globals of uninitialised packages that may be read with their zero value.
func globalAllowed(name string) bool {
	return strings.HasPrefix(name, "internal/cpu.") || strings.HasPrefix(name, "internal/race.") || name == "log.std" ||
		strings.HasPrefix(name, "internal/godebug.") || strings.HasPrefix(name, "internal/asan.") || strings.HasPrefix(name, "internal/msan.")
}

func done(v Value) (Value, istat) { return v, stDone }

var intrinsics = map[string]intrinsic{}

// tv turns a term into a value: constants become native.
func tv(t *Term) Value {
	if t.sort == 0 {
		return boolVal(t)
	}
	return intVal(t)
}

func nop(m *Machine, g *G, a []Value) (Value, istat) { return nil, stDone }

func ret0(v Value) intrinsic {
	return func(m *Machine, g *G, a []Value) (Value, istat) { return v, stDone }
}

func arg0(m *Machine, g *G, a []Value) (Value, istat) { return a[0], stDone }

func (m *Machine) indexByte(b []Value, c Value) Value {
	for i, x := range b {
		if m.forkBool(m.eqVal(x, c), "IndexByte") {
			return uint64(i)
		}
	}
	return ^uint64(0)
}

func (m *Machine) eqBytes(a, b []Value) Value {
	if len(a) != len(b) {
		return false
	}
	var r Value = true
	for i := range a {
		r = m.andV(r, m.eqVal(a[i], b[i]))
		if r == false {
			return false
		}
	}
	return r
}

func (m *Machine) index(a, b []Value) Value {
	for i := 0; i+len(b) <= len(a); i++ {
		if m.forkBool(m.eqBytes(a[i:i+len(b)], b), "Index") {
			return uint64(i)
		}
	}
	return ^uint64(0)
}

func (m *Machine) count(b []Value, c Value) Value {
	var sum Value = uint64(0)
	for _, x := range b {
		e := m.eqVal(x, c)
		switch y := e.(type) {
		case bool:
			if y {
				sum = m.addTime(sum, uint64(1))
			}
		case *Term:
			sum = m.addTime(sum, intVal(m.ts.Ite(y, m.ts.Const(1, 64), m.ts.Const(0, 64))))
		}
	}
	return sum
}

func (m *Machine) compare(a, b []Value) Value {
	if m.forkBool(m.eqBytesLen(a, b), "Compare equal") {
		return uint64(0)
	}
	if m.forkBool(m.strLess(a, b), "Compare less") {
		return ^uint64(0)
	}
	return uint64(1)
}

func (m *Machine) eqBytesLen(a, b []Value) Value { return m.eqBytes(a, b) }

func slotOf(p Value) *Value {
	switch x := p.(type) {
	case *Value:
		if x == nil {
			return nil
		}
		return x
	case *CastPtr:
		return x.p
	}
	panic(unsupported(fmt.Sprintf("atomic on %T", p)))
}

func (m *Machine) atomicSlot(g *G, p Value) (*Value, bool) {
	s := slotOf(p)
	if s == nil {
		panic(goPanic{m.rtErr("invalid memory address or nil pointer dereference")})
	}
	return s, m.schedPoint(g)
}

func (m *Machine) binInt(op Op, w uint8, a, b Value) Value {
	x, ok1 := a.(uint64)
	y, ok2 := b.(uint64)
	if ok1 && ok2 {
		return evalOp(op, w, x, y)
	}
	return intVal(m.ts.Bin(op, m.intTerm(a, w), m.intTerm(b, w)))
}

const timeMono = uint64(1) << 63

func (m *Machine) timeNow() Value {
	return Struct{timeMono, m.now, (*Value)(nil)}
}

type reObj struct {
	src   string
	re    *regexp.Regexp
	prg   *syntax.Prog
	ascii bool // no instruction accepts a rune outside ASCII
}

var reCache sync.Map // compiled expressions, by source

func asciiOnly(prg *syntax.Prog) bool {
	for i := range prg.Inst {
		in := &prg.Inst[i]
		switch in.Op {
		case syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			return false
		case syntax.InstRune, syntax.InstRune1:
			for r := rune(0x80); r <= 0x10ffff; r++ {
				if in.MatchRune(r) {
					return false
				}
			}
		}
	}
	return true
}

func (m *Machine) fireTimer(t *timerSt, arg Iface, periodic Value) {
	switch x := arg.V.(type) {
	case *Chan:
		if !x.closed && (hasWaiter(x.recvq) || len(x.buf) < x.cap) {
			m.trySend(x, m.timeNow())
		}
	case *Closure:
		f := x.f
		if f == nil {
			f = m.prog.get(x.fn)
		}
		m.newG(f, nil, x.env, f.name)
	default:
		panic(unsupported(fmt.Sprintf("timer argument %T", x)))
	}
	if p, ok := periodic.(uint64); !ok || p != 0 {
		t.when = m.addTime(t.when, periodic)
		m.startTimer(t)
	}
}

func init() {
	reg := func(names string, f intrinsic) {
		for _, n := range strings.Fields(names) {
			intrinsics[n] = f
		}
	}
	// ---- internal/bytealg ----
	reg("internal/bytealg.IndexByte", func(m *Machine, g *G, a []Value) (Value, istat) {
		m.rdSlice(a[0].(Slice))
		return done(m.indexByte(a[0].(Slice), a[1]))
	})
	reg("internal/bytealg.IndexByteString", func(m *Machine, g *G, a []Value) (Value, istat) { return done(m.indexByte(strBytes(a[0]), a[1])) })
	reg("internal/bytealg.Count", func(m *Machine, g *G, a []Value) (Value, istat) { return done(m.count(a[0].(Slice), a[1])) })
	reg("internal/bytealg.CountString", func(m *Machine, g *G, a []Value) (Value, istat) { return done(m.count(strBytes(a[0]), a[1])) })
	reg("internal/bytealg.Index", func(m *Machine, g *G, a []Value) (Value, istat) { return done(m.index(a[0].(Slice), a[1].(Slice))) })
	reg("internal/bytealg.IndexString", func(m *Machine, g *G, a []Value) (Value, istat) { return done(m.index(strBytes(a[0]), strBytes(a[1]))) })
	reg("bytes.Index", func(m *Machine, g *G, a []Value) (Value, istat) { return done(m.index(a[0].(Slice), a[1].(Slice))) })
	reg("internal/stringslite.Clone strings.Clone", func(m *Machine, g *G, a []Value) (Value, istat) {
		return done(mkStr(append([]Value(nil), strBytes(a[0])...)))
	})
	reg("strings.Index internal/stringslite.Index", func(m *Machine, g *G, a []Value) (Value, istat) { return done(m.index(strBytes(a[0]), strBytes(a[1]))) })
	reg("internal/bytealg.Equal bytes.Equal", func(m *Machine, g *G, a []Value) (Value, istat) { return done(m.eqBytes(a[0].(Slice), a[1].(Slice))) })
	reg("internal/bytealg.Compare bytes.Compare", func(m *Machine, g *G, a []Value) (Value, istat) { return done(m.compare(a[0].(Slice), a[1].(Slice))) })
	reg("internal/bytealg.CompareString strings.Compare", func(m *Machine, g *G, a []Value) (Value, istat) {
		return done(m.compare(strBytes(a[0]), strBytes(a[1])))
	})
	reg("internal/bytealg.MakeNoZero", func(m *Machine, g *G, a []Value) (Value, istat) {
		n := m.concInt(a[0], "MakeNoZero")
		s := make(Slice, n, roundUp(int(n)))
		fillZero(s[:cap(s)], tinfoOf(types.Typ[types.Uint8]))
		return done(s)
	})
	reg("internal/abi.NoEscape internal/abi.Escape", arg0)
	reg("strings.noescape", arg0)
	reg("internal/reflectlite.TypeOf", func(m *Machine, g *G, a []Value) (Value, istat) {
		return done(Iface{T: reflectStub, V: Struct{}})
	})
	// ---- math on concrete values ----
	fl := func(name string, f func(x, y float64) float64) {
		reg(name, func(m *Machine, g *G, a []Value) (Value, istat) {
			y := 0.0
			if len(a) > 1 {
				y = m.concFloat(a[1])
			}
			return done(f(m.concFloat(a[0]), y))
		})
	}
	fl("math.Max math.archMax", math.Max)
	fl("math.Min math.archMin", math.Min)
	fl("math.Floor math.archFloor", func(x, _ float64) float64 { return math.Floor(x) })
	fl("math.Ceil math.archCeil", func(x, _ float64) float64 { return math.Ceil(x) })
	fl("math.Trunc math.archTrunc", func(x, _ float64) float64 { return math.Trunc(x) })
	fl("math.Sqrt math.sqrt", func(x, _ float64) float64 { return math.Sqrt(x) })
	reg("math.Float64bits internal/strconv.float64bits", func(m *Machine, g *G, a []Value) (Value, istat) {
		return done(math.Float64bits(m.concFloat(a[0])))
	})
	reg("math.Float64frombits internal/strconv.float64frombits", func(m *Machine, g *G, a []Value) (Value, istat) {
		return done(math.Float64frombits(uint64(m.concInt(a[0], "Float64frombits"))))
	})
	// ---- output, stacks, random numbers (a fixed sequence) ----
	wlen := func(m *Machine, g *G, a []Value) (Value, istat) {
		return done(Tuple{uint64(len(strOrSlice(a[1]))), Iface{}})
	}
	reg("(*os.File).Write (*os.File).WriteString", wlen)
	reg("runtime/debug.Stack", ret0(Slice(nil)))
	reg("runtime/debug.PrintStack", nop)
	rnd := func(name string, f func(r *rand.Rand, a []int64) uint64) {
		reg(name, func(m *Machine, g *G, a []Value) (Value, istat) {
			if m.rnd == nil {
				m.rnd = rand.New(rand.NewSource(1))
			}
			var xs []int64
			for _, x := range a {
				if x, ok := x.(uint64); ok {
					xs = append(xs, int64(x))
				}
			}
			if len(a) > 0 && (len(xs) == 0 || xs[0] <= 0) {
				panic(unsupported(name))
			}
			return done(f(m.rnd, xs))
		})
	}
	rnd("math/rand.Intn math/rand.Int63n math/rand.Int31n math/rand/v2.IntN math/rand/v2.Int64N", func(r *rand.Rand, a []int64) uint64 { return uint64(r.Int63n(a[0])) })
	rnd("math/rand.Int math/rand.Int63 math/rand/v2.Int math/rand/v2.Int64", func(r *rand.Rand, a []int64) uint64 { return uint64(r.Int63()) })
	rnd("math/rand.Uint32 math/rand/v2.Uint32", func(r *rand.Rand, a []int64) uint64 { return uint64(r.Uint32()) })
	rnd("math/rand.Uint64 math/rand/v2.Uint64", func(r *rand.Rand, a []int64) uint64 { return r.Uint64() })
	reg("math/rand.Seed", nop)
	reg("crypto/rand.Read", func(m *Machine, g *G, a []Value) (Value, istat) {
		if m.rnd == nil {
			m.rnd = rand.New(rand.NewSource(1))
		}
		s := a[0].(Slice)
		for i := range s {
			storeInto(&s[i], uint64(m.rnd.Intn(256)))
		}
		return done(Tuple{uint64(len(s)), Iface{}})
	})
	// ---- runtime ----
	reg("runtime.Gosched", func(m *Machine, g *G, a []Value) (Value, istat) {
		m.runq = append(m.runq, g)
		m.stopG = true
		return nil, stDone
	})
	reg("runtime.GC runtime.KeepAlive runtime.SetFinalizer runtime.LockOSThread runtime.UnlockOSThread", nop)
	reg("runtime.NumGoroutine", func(m *Machine, g *G, a []Value) (Value, istat) { return done(uint64(m.liveGs())) })
	reg("runtime.GOMAXPROCS runtime.NumCPU", ret0(uint64(8)))
	reg("os.Getenv", ret0(""))
	reg("log.Output (*log.Logger).Output (*log.Logger).output", ret0(Iface{}))
	reg("log.Printf log.Println log.Print (*log.Logger).Printf (*log.Logger).Println (*log.Logger).Print", nop)
	// ---- sync ----
	reg("(*sync.Mutex).Lock (*sync.RWMutex).Lock", func(m *Machine, g *G, a []Value) (Value, istat) { return nil, m.lock(g, a[0]) })
	reg("(*sync.Mutex).Unlock (*sync.RWMutex).Unlock", func(m *Machine, g *G, a []Value) (Value, istat) { m.unlock(g, a[0]); return nil, stDone })
	reg("(*sync.Mutex).TryLock (*sync.RWMutex).TryLock", func(m *Machine, g *G, a []Value) (Value, istat) {
		s := m.mu(a[0])
		if s.locked || s.readers > 0 {
			return done(false)
		}
		s.locked = true
		if h := m.hbG(g); h != nil {
			h.acquire(s.vc)
			h.acquire(s.rvc)
		}
		return done(true)
	})
	reg("(*sync.RWMutex).RLock", func(m *Machine, g *G, a []Value) (Value, istat) { return nil, m.rlock(g, a[0]) })
	reg("(*sync.RWMutex).RUnlock", func(m *Machine, g *G, a []Value) (Value, istat) { m.runlock(g, a[0]); return nil, stDone })
	reg("(*sync.copyChecker).check", nop)
	reg("sync.init#1 sync.runtime_registerPoolCleanup sync.runtime_notifyListCheck", nop)
	cond := func(m *Machine, p Value) *condSt {
		c, ok := m.conds[p]
		if !ok {
			c = &condSt{pre: map[uint64]bool{}}
			m.conds[p] = c
		}
		return c
	}
	reg("sync.runtime_notifyListAdd", func(m *Machine, g *G, a []Value) (Value, istat) {
		c := cond(m, a[0])
		t := c.next
		c.next++
		c.out = append(c.out, t)
		return done(t)
	})
	reg("sync.runtime_notifyListWait", func(m *Machine, g *G, a []Value) (Value, istat) {
		c := cond(m, a[0])
		t := a[1].(uint64)
		if c.pre[t] {
			delete(c.pre, t)
			return nil, stDone
		}
		c.wait = append(c.wait, condWaiter{g, t})
		m.park(g, "condition variable wait")
		return nil, stPark
	})
	notify := func(m *Machine, c *condSt, t uint64) {
		for i, w := range c.wait {
			if w.t == t {
				c.wait = append(append([]condWaiter(nil), c.wait[:i]...), c.wait[i+1:]...)
				if m.race {
					w.g.acquire(m.cur.release())
				}
				m.ready(w.g)
				return
			}
		}
		c.pre[t] = true
	}
	reg("sync.runtime_notifyListNotifyAll", func(m *Machine, g *G, a []Value) (Value, istat) {
		if m.schedPoint(g) {
			return nil, stRetry
		}
		c := cond(m, a[0])
		for _, t := range c.out {
			notify(m, c, t)
		}
		c.out = nil
		return nil, stDone
	})
	reg("sync.runtime_notifyListNotifyOne", func(m *Machine, g *G, a []Value) (Value, istat) {
		if m.schedPoint(g) {
			return nil, stRetry
		}
		c := cond(m, a[0])
		if len(c.out) > 0 {
			t := c.out[0]
			c.out = c.out[1:]
			notify(m, c, t)
		}
		return nil, stDone
	})
	wg := func(m *Machine, p Value) *wgSt {
		w, ok := m.wgs[p]
		if !ok {
			w = &wgSt{}
			m.wgs[p] = w
		}
		return w
	}
	add := func(m *Machine, p Value, d int64) {
		w := wg(m, p)
		w.n += d
		if w.n < 0 {
			panic(goPanic{m.rtErrPlain("sync: negative WaitGroup counter")})
		}
		if w.n == 0 {
			m.wakeAll(&w.wait)
		}
	}
	reg("(*sync.WaitGroup).Add", func(m *Machine, g *G, a []Value) (Value, istat) {
		if h := m.hbG(g); h != nil {
			wg(m, a[0]).vc.join(h.release())
		}
		add(m, a[0], m.concInt(a[1], "WaitGroup.Add"))
		return nil, stDone
	})
	reg("(*sync.WaitGroup).Done", func(m *Machine, g *G, a []Value) (Value, istat) {
		if h := m.hbG(g); h != nil {
			wg(m, a[0]).vc.join(h.release())
		}
		add(m, a[0], -1)
		return nil, stDone
	})
	reg("(*sync.WaitGroup).Wait", func(m *Machine, g *G, a []Value) (Value, istat) {
		w := wg(m, a[0])
		if w.n == 0 {
			if h := m.hbG(g); h != nil {
				h.acquire(w.vc)
			}
			return nil, stDone
		}
		w.wait = append(w.wait, g)
		m.park(g, "WaitGroup.Wait")
		return nil, stRetry
	})
	// ---- sync/atomic ----
	for _, ty := range []struct {
		n string
		w uint8
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 0}} {
		ty := ty
		reg("sync/atomic.Load"+ty.n, func(m *Machine, g *G, a []Value) (Value, istat) {
			s, y := m.atomicSlot(g, a[0])
			if y {
				return nil, stRetry
			}
			m.atomicAt(g, s, false)
			return done(*s)
		})
		reg("sync/atomic.Store"+ty.n, func(m *Machine, g *G, a []Value) (Value, istat) {
			s, y := m.atomicSlot(g, a[0])
			if y {
				return nil, stRetry
			}
			m.atomicAt(g, s, true)
			*s = a[1]
			return nil, stDone
		})
		reg("sync/atomic.Swap"+ty.n, func(m *Machine, g *G, a []Value) (Value, istat) {
			s, y := m.atomicSlot(g, a[0])
			if y {
				return nil, stRetry
			}
			m.atomicAt(g, s, true)
			old := *s
			*s = a[1]
			return done(old)
		})
		reg("sync/atomic.CompareAndSwap"+ty.n, func(m *Machine, g *G, a []Value) (Value, istat) {
			s, y := m.atomicSlot(g, a[0])
			if y {
				return nil, stRetry
			}
			m.atomicAt(g, s, true)
			if m.forkBool(m.eqVal(*s, a[1]), "CAS") {
				*s = a[2]
				return done(true)
			}
			return done(false)
		})
		if ty.w != 0 {
			for n, op := range map[string]Op{"Add": OAdd, "And": OBand, "Or": OBor} {
				n, op := n, op
				reg("sync/atomic."+n+ty.n, func(m *Machine, g *G, a []Value) (Value, istat) {
					s, y := m.atomicSlot(g, a[0])
					if y {
						return nil, stRetry
					}
					m.atomicAt(g, s, true)
					old := *s
					*s = m.binInt(op, ty.w, *s, a[1])
					if n == "Add" {
						return done(*s)
					}
					return done(old)
				})
			}
		}
	}
	reg("(*sync/atomic.Value).Load", func(m *Machine, g *G, a []Value) (Value, istat) {
		s, y := m.atomicSlot(g, a[0])
		if y {
			return nil, stRetry
		}
		m.atomicAt(g, &(*s).(Struct)[0], false)
		return done((*s).(Struct)[0])
	})
	reg("(*sync/atomic.Value).Store", func(m *Machine, g *G, a []Value) (Value, istat) {
		s, y := m.atomicSlot(g, a[0])
		if y {
			return nil, stRetry
		}
		m.atomicAt(g, &(*s).(Struct)[0], true)
		if a[1].(Iface).T == nil {
			panic(goPanic{m.rtErrPlain("sync/atomic: store of nil value into Value")})
		}
		(*s).(Struct)[0] = a[1]
		return nil, stDone
	})
	// ---- time ----
	reg("time.Now", func(m *Machine, g *G, a []Value) (Value, istat) { return done(m.timeNow()) })
	reg("time.runtimeNano", func(m *Machine, g *G, a []Value) (Value, istat) { return done(m.now) })
	reg("time.when", func(m *Machine, g *G, a []Value) (Value, istat) { return done(m.deadline(a[0])) })
	reg("time.syncTimer", ret0(UPtr{}))
	reg("(time.Time).Add", func(m *Machine, g *G, a []Value) (Value, istat) {
		t := a[0].(Struct)
		if w, ok := t[0].(uint64); ok && w&timeMono != 0 {
			return done(Struct{w, m.addTime(t[1], a[1]), t[2]})
		}
		panic(unsupported("Time.Add without monotonic clock"))
	})
	sub := func(m *Machine, x, y Value) Value { return m.binInt(OSub, 64, x, y) }
	reg("time.Until", func(m *Machine, g *G, a []Value) (Value, istat) {
		t := a[0].(Struct)
		if w, ok := t[0].(uint64); ok && w&timeMono != 0 {
			return done(sub(m, t[1], m.now))
		}
		panic(unsupported("time.Until without monotonic clock"))
	})
	reg("time.Since", func(m *Machine, g *G, a []Value) (Value, istat) {
		t := a[0].(Struct)
		if w, ok := t[0].(uint64); ok && w&timeMono != 0 {
			return done(sub(m, m.now, t[1]))
		}
		panic(unsupported("time.Since without monotonic clock"))
	})
	reg("(time.Time).Sub", func(m *Machine, g *G, a []Value) (Value, istat) {
		t, u := a[0].(Struct), a[1].(Struct)
		if w, ok := t[0].(uint64); ok && w&timeMono != 0 {
			if w, ok := u[0].(uint64); ok && w&timeMono != 0 {
				return done(sub(m, t[1], u[1]))
			}
		}
		panic(unsupported("Time.Sub without monotonic clock"))
	})
	reg("time.Sleep", func(m *Machine, g *G, a []Value) (Value, istat) {
		if d, ok := a[0].(uint64); ok && int64(d) <= 0 {
			m.runq = append(m.runq, g)
			m.stopG = true
			return nil, stDone
		}
		t := &timerSt{when: m.deadline(a[0]), fire: func() { m.hbJoinHarness(g); m.ready(g) }}
		m.startTimer(t)
		m.park(g, "sleep")
		return nil, stPark
	})
	reg("time.newTimer", func(m *Machine, g *G, a []Value) (Value, istat) {
		arg := a[3].(Iface)
		t := &timerSt{when: a[0]}
		if c, ok := arg.V.(*Chan); ok {
			t.ch = c
		}
		t.period = a[1]
		if m.race {
			t.vc = g.release()
		}
		t.fire = func() { m.fireTimer(t, arg, t.period) }
		m.startTimer(t)
		p := new(Value)
		*p = Struct{(*Chan)(nil), true}
		m.tmap[p] = t
		return done(p)
	})
	timerOf := func(m *Machine, p Value) *timerSt {
		if c, ok := p.(*CastPtr); ok {
			p = c.p
		}
		t := m.tmap[p]
		if t == nil {
			panic(unsupported("unknown timer"))
		}
		return t
	}
	reg("time.stopTimer", func(m *Machine, g *G, a []Value) (Value, istat) {
		t := timerOf(m, a[0])
		was := m.stopTimer(t)
		if t.ch != nil && len(t.ch.buf) > 0 {
			t.ch.recvx += len(t.ch.buf)
			t.ch.buf = nil
			was = true
		}
		return done(was)
	})
	reg("time.resetTimer", func(m *Machine, g *G, a []Value) (Value, istat) {
		t := timerOf(m, a[0])
		was := m.stopTimer(t)
		if t.ch != nil && len(t.ch.buf) > 0 {
			t.ch.recvx += len(t.ch.buf)
			t.ch.buf = nil
			was = true
		}
		t.when = a[1]
		t.period = a[2]
		if m.race {
			t.vc = g.release()
		}
		m.startTimer(t)
		return done(was)
	})
	// ---- strconv on symbolic values ----
	fmtInt := func(signed bool) intrinsic {
		return func(m *Machine, g *G, a []Value) (Value, istat) {
			base := uint64(10)
			if len(a) > 1 {
				base = uint64(m.concInt(a[1], "base"))
			}
			return done(m.formatInt(a[0], signed, base))
		}
	}
	reg("strconv.FormatInt strconv.Itoa", fmtInt(true))
	reg("strconv.FormatUint", fmtInt(false))
	reg("strconv.AppendInt", func(m *Machine, g *G, a []Value) (Value, istat) {
		s := m.formatInt(a[1], true, uint64(m.concInt(a[2], "base")))
		return done(m.appendVals(a[0].(Slice), strBytes(s), tinfoOf(types.Typ[types.Uint8])))
	})
	reg("strconv.AppendUint", func(m *Machine, g *G, a []Value) (Value, istat) {
		s := m.formatInt(a[1], false, uint64(m.concInt(a[2], "base")))
		return done(m.appendVals(a[0].(Slice), strBytes(s), tinfoOf(types.Typ[types.Uint8])))
	})
	// ---- regexp ----
	reg("regexp.MustCompile", func(m *Machine, g *G, a []Value) (Value, istat) {
		src := m.concString(a[0], "regexp")
		if c, ok := reCache.Load(src); ok {
			p := new(Value)
			*p = c.(*reObj)
			return done(p)
		}
		re, err := regexp.Compile(src)
		if err != nil {
			panic(goPanic{m.rtErrPlain("regexp: " + err.Error())})
		}
		sy, _ := syntax.Parse(src, syntax.Perl)
		prg, _ := syntax.Compile(sy.Simplify())
		p := new(Value)
		ro := &reObj{src, re, prg, asciiOnly(prg)}
		reCache.Store(src, ro)
		*p = ro
		return done(p)
	})
	reOf := func(v Value) *reObj { return (*v.(*Value)).(*reObj) }
	reg("(*regexp.Regexp).MatchString", func(m *Machine, g *G, a []Value) (Value, istat) {
		re := reOf(a[0])
		if s, ok := concStr(a[1]); ok {
			return done(re.re.MatchString(s))
		}
		return done(m.reMatch(re, strBytes(a[1])))
	})
	reg("(*regexp.Regexp).Match", func(m *Machine, g *G, a []Value) (Value, istat) {
		re := reOf(a[0])
		b := a[1].(Slice)
		if s, ok := concBytes(b); ok {
			return done(re.re.Match(s))
		}
		return done(m.reMatch(re, b))
	})
	reg("(*regexp.Regexp).FindStringSubmatch", func(m *Machine, g *G, a []Value) (Value, istat) {
		re := reOf(a[0])
		s := m.concString(a[1], "regexp submatch")
		r := re.re.FindStringSubmatch(s)
		if r == nil {
			return done(Slice(nil))
		}
		out := make(Slice, len(r))
		for i, x := range r {
			out[i] = x
		}
		return done(out)
	})
	reg("(*regexp.Regexp).String", func(m *Machine, g *G, a []Value) (Value, istat) { return done(reOf(a[0]).src) })

	// ---- the harness API ----
	v := func(n string) string { return vrtPkg + "." + n }
	name := func(m *Machine, x Value) string { return m.concString(x, "name") }
	for n, w := range map[string]uint8{"Byte": 8, "U16": 16, "U32": 32, "U64": 64, "Int": 64, "Bool": 0} {
		w := w
		reg(v(n), func(m *Machine, g *G, a []Value) (Value, istat) { return done(tv(m.input(name(m, a[0]), w))) })
	}
	reg(v("IntRange"), func(m *Machine, g *G, a []Value) (Value, istat) {
		lo, hi := m.concInt(a[1], ""), m.concInt(a[2], "")
		if hi == lo {
			return done(uint64(lo))
		}
		if lo >= 0 && hi < 256 {
			t := m.input(name(m, a[0]), 8)
			m.assume(boolVal(m.ts.And(m.ts.Ule(m.ts.Const(uint64(lo), 8), t), m.ts.Ule(t, m.ts.Const(uint64(hi), 8)))))
			return done(tv(m.ts.Zext(t, 64)))
		}
		t := m.input(name(m, a[0]), 64)
		m.assume(boolVal(m.ts.And(m.ts.Sle(m.ts.Const(uint64(lo), 64), t), m.ts.Sle(t, m.ts.Const(uint64(hi), 64)))))
		return done(tv(t))
	})
	reg(v("Choose"), func(m *Machine, g *G, a []Value) (Value, istat) {
		n := m.concInt(a[1], "")
		if n <= 1 {
			return done(uint64(0))
		}
		t := m.input(name(m, a[0]), 8)
		m.assume(boolVal(m.ts.Ult(t, m.ts.Const(uint64(n), 8))))
		return done(m.concretize(t, "choice"))
	})
	bytesOf := func(m *Machine, a []Value) []Value {
		n := m.concInt(a[1], "")
		nm := name(m, a[0])
		k := m.names[nm]
		m.names[nm] = k + 1
		if k > 0 {
			nm = fmt.Sprintf("%s~%d", nm, k)
		}
		b := make([]Value, n)
		for i := range b {
			b[i] = tv(m.input(fmt.Sprintf("%s[%d]", nm, i), 8))
		}
		return b
	}
	reg(v("Bytes"), func(m *Machine, g *G, a []Value) (Value, istat) { return done(Slice(bytesOf(m, a))) })
	reg(v("String"), func(m *Machine, g *G, a []Value) (Value, istat) { return done(mkStr(bytesOf(m, a))) })
	reg(v("Assume"), func(m *Machine, g *G, a []Value) (Value, istat) { m.assume(a[0]); return nil, stDone })
	reg(v("Assert"), func(m *Machine, g *G, a []Value) (Value, istat) { m.assert(a[0], name(m, a[1])); return nil, stDone })
	reg(v("Reach"), func(m *Machine, g *G, a []Value) (Value, istat) {
		m.reached = append(m.reached, name(m, a[0]))
		return nil, stDone
	})
	reg(v("Observe"), func(m *Machine, g *G, a []Value) (Value, istat) {
		m.obs = append(m.obs, obsRec{name(m, a[0]), a[1]})
		return nil, stDone
	})
	reg(v("Quiesce"), func(m *Machine, g *G, a []Value) (Value, istat) {
		m.quiesce = append(m.quiesce, g)
		m.park(g, "quiesce")
		return nil, stPark
	})
	reg(v("Param"), func(m *Machine, g *G, a []Value) (Value, istat) {
		if p, ok := m.job.params[name(m, a[0])]; ok {
			return done(uint64(int64(p)))
		}
		return done(a[1])
	})
	reg(v("Engine"), ret0(true))
	reg(v("Delays"), func(m *Machine, g *G, a []Value) (Value, istat) {
		if n := int(m.concInt(a[0], "delays")); n >= 0 {
			m.delays = n
		} else {
			m.delays = m.job.Delays - m.delayed
		}
		return nil, stDone
	})
	reg(v("Goroutines"), func(m *Machine, g *G, a []Value) (Value, istat) { return done(uint64(m.liveGs())) })
	reg(v("Concrete"), func(m *Machine, g *G, a []Value) (Value, istat) {
		return done(uint64(m.concInt(a[0], "Concrete")))
	})
	reg(v("ConcreteBool"), func(m *Machine, g *G, a []Value) (Value, istat) {
		return done(m.forkBool(a[0], "ConcreteBool"))
	})
	reg(v("And"), func(m *Machine, g *G, a []Value) (Value, istat) { return done(m.andV(a[0], a[1])) })
	reg(v("Or"), func(m *Machine, g *G, a []Value) (Value, istat) {
		return done(m.notV(m.andV(m.notV(a[0]), m.notV(a[1]))))
	})
	reg(v("Implies"), func(m *Machine, g *G, a []Value) (Value, istat) {
		return done(m.notV(m.andV(a[0], m.notV(a[1]))))
	})
	reg(v("EqStr"), func(m *Machine, g *G, a []Value) (Value, istat) { return done(m.eqStr(a[0], a[1])) })
	reg(v("EqBytes"), func(m *Machine, g *G, a []Value) (Value, istat) {
		return done(m.eqBytes(a[0].(Slice), a[1].(Slice)))
	})
	// helpers for the interpreted formatting functions
	reg(v("typeName"), func(m *Machine, g *G, a []Value) (Value, istat) {
		i := a[0].(Iface)
		if i.T == nil {
			return done("<nil>")
		}
		return done(types.TypeString(i.T, func(p *types.Package) string { return p.Name() }))
	})
	// under(v) (kind int, s string, i int64, u uint64)
	reg(v("under"), func(m *Machine, g *G, a []Value) (Value, istat) {
		i := a[0].(Iface)
		k, s, iv, uv := uint64(0), Value(""), Value(uint64(0)), Value(uint64(0))
		if i.T != nil {
			ti := tinfoOf(i.T)
			switch ti.k {
			case kString:
				k, s = 1, i.V
			case kInt:
				if ti.signed {
					k = 2
					if t, ok := i.V.(*Term); ok {
						iv = m.ts.Sext(t, 64)
					} else {
						iv = uint64(sx(i.V.(uint64), ti.w))
					}
				} else {
					k = 3
					if t, ok := i.V.(*Term); ok {
						uv = m.ts.Zext(t, 64)
					} else {
						uv = i.V
					}
				}
			case kBool:
				k = 4
				if m.forkBool(i.V, "format bool") {
					uv = uint64(1)
				}
			case kSlice:
				if isByteSlice(ti) {
					k, s = 5, mkStr(append([]Value(nil), i.V.(Slice)...))
				} else {
					k, s = 6, fmt.Sprintf("%d elements of %s", len(i.V.(Slice)), ti.t)
				}
			case kFloat:
				k, s = 6, fmt.Sprint(m.concFloat(i.V))
			default:
				k, s = 6, types.TypeString(i.T, func(p *types.Package) string { return p.Name() })
			}
		}
		return done(Tuple{k, s, iv, uv})
	})
	reg(v("asOne"), func(m *Machine, g *G, a []Value) (Value, istat) {
		e, t := a[0].(Iface), a[1].(Iface)
		if t.T == nil {
			panic(goPanic{m.rtErrPlain("errors: target cannot be nil")})
		}
		pt, ok := t.T.Underlying().(*types.Pointer)
		if !ok {
			panic(goPanic{m.rtErrPlain("errors: target must be a non-nil pointer")})
		}
		et := canon(pt.Elem())
		p := t.V.(*Value)
		if tinfoOf(et).k == kIface {
			if e.T != nil && m.implements(e.T, et) {
				*p = e
				return done(true)
			}
			return done(false)
		}
		if e.T == et {
			storeInto(p, e.V)
			return done(true)
		}
		return done(false)
	})
	reg(v("comparable"), func(m *Machine, g *G, a []Value) (Value, istat) {
		i := a[0].(Iface)
		return done(i.T == nil || types.Comparable(i.T))
	})
	reg(v("swap"), func(m *Machine, g *G, a []Value) (Value, istat) {
		s := a[0].(Iface).V.(Slice)
		i, j := m.concInt(a[1], ""), m.concInt(a[2], "")
		x, y := copyVal(s[i]), copyVal(s[j])
		storeInto(&s[i], y)
		storeInto(&s[j], x)
		return nil, stDone
	})
	reg(v("length"), func(m *Machine, g *G, a []Value) (Value, istat) {
		return done(uint64(len(a[0].(Iface).V.(Slice))))
	})
}

func (m *Machine) liveGs() int {
	n := 0
	for _, g := range m.gs {
		if g.state != gDead {
			n++
		}
	}
	return n
}

// formatInt renders an integer. For a symbolic value the path forks on sign
// and digit count, and the digits are fresh variables tied to the value by
// x = Σ d_i·10^i.
func (m *Machine) formatInt(v Value, signed bool, base uint64) Value {
	if u, ok := v.(uint64); ok {
		if signed {
			return fmtBase(int64(u) < 0, u, base)
		}
		return fmtBase(false, u, base)
	}
	t := v.(*Term)
	if base != 10 {
		u := m.concretize(t, "format in base")
		return fmtBase(signed && int64(u) < 0, u, base)
	}
	if c, ok := m.digitDone[t]; ok {
		return mkStr(append([]Value(nil), c...))
	}
	ts := m.ts
	if t.sort < 64 {
		t = ts.Resize(t, 64, signed)
	}
	var out []Value
	x := t
	if signed && m.forkBool(boolVal(ts.Slt(t, ts.Const(0, 64))), "negative number") {
		out = append(out, uint64('-'))
		x = ts.Neg(t)
	}
	k := 1
	p := uint64(10)
	for k < 20 && m.forkBool(boolVal(ts.Not(ts.Ult(x, ts.Const(p, 64)))), "digit count") {
		k++
		if k == 20 {
			break
		}
		p *= 10
	}
	sum := ts.Const(0, 64)
	w := uint64(1)
	ds := make([]Value, k)
	n := m.names["digits"]
	m.names["digits"] = n + 1
	var val uint64
	if m.model != nil {
		val = m.evalT(x)
	}
	var vals []uint64
	if m.model != nil {
		vals = append(vals, m.model.vals...)
	}
	for i := k - 1; i >= 0; i-- {
		d := ts.Var(fmt.Sprintf("digit!%d!%d", n, i), 8)
		for len(vals) <= int(d.k) {
			vals = append(vals, 0)
		}
		if m.frontier() {
			vals[d.k] = val % 10
		}
		val /= 10
		m.addPC(ts.Ule(d, ts.Const(9, 8)))
		sum = ts.Bin(OAdd, sum, ts.Bin(OMul, ts.Zext(d, 64), ts.Const(w, 64)))
		w *= 10
		ds[i] = intVal(ts.Bin(OAdd, d, ts.Const('0', 8)))
	}
	if m.frontier() {
		m.model = ts.newModel(vals)
	}
	m.addPC(ts.Eq(sum, x))
	out = append(out, ds...)
	m.digitDone[v.(*Term)] = out
	return mkStr(append([]Value(nil), out...))
}

func fmtBase(neg bool, u, base uint64) string {
	if neg {
		u = -u
	}
	const dg = "0123456789abcdefghijklmnopqrstuvwxyz"
	var b []byte
	for {
		b = append([]byte{dg[u%base]}, b...)
		u /= base
		if u == 0 {
			break
		}
	}
	if neg {
		b = append([]byte{'-'}, b...)
	}
	return string(b)
}

// reMatch encodes an unanchored regular-expression match over symbolic bytes
// as one formula (simulation of the compiled program's thread set).
func (m *Machine) reMatch(re *reObj, s []Value) Value {
	ts := m.ts
	for _, b := range s {
		if re.ascii {
			break // a byte outside ASCII ends every thread, whatever rune it belongs to
		}
		if t, ok := b.(*Term); ok {
			if m.forkBool(boolVal(ts.Ule(ts.Const(0x80, 8), t)), "non-ASCII in regexp input") {
				return re.re.MatchString(m.concString(mkStr(s), "regexp input"))
			}
		} else if b.(uint64) >= 0x80 {
			return re.re.MatchString(m.concString(mkStr(s), "regexp input"))
		}
	}
	prg := re.prg
	n := len(prg.Inst)
	matched := ts.tFalse
	cur := make([]*Term, n)
	for i := range cur {
		cur[i] = ts.tFalse
	}
	isWord := func(i int) *Term {
		if i < 0 || i >= len(s) {
			return ts.tFalse
		}
		x := m.intTerm(s[i], 8)
		rg := func(a, b byte) *Term {
			return ts.And(ts.Ule(ts.Const(uint64(a), 8), x), ts.Ule(x, ts.Const(uint64(b), 8)))
		}
		return ts.Or(ts.Or(rg('a', 'z'), rg('A', 'Z')), ts.Or(rg('0', '9'), ts.Eq(x, ts.Const('_', 8))))
	}
	isNL := func(i int) *Term {
		if i < 0 || i >= len(s) {
			return ts.tTrue
		}
		return ts.Eq(m.intTerm(s[i], 8), ts.Const('\n', 8))
	}
	for pos := 0; pos <= len(s); pos++ {
		// closure
		next := make([]*Term, n)
		for i := range next {
			next[i] = ts.tFalse
		}
		on := make([]*Term, n)
		for i := range on {
			on[i] = ts.tFalse
		}
		var add func(pc uint32, c *Term, depth int)
		add = func(pc uint32, c *Term, depth int) {
			if c == ts.tFalse || depth > 4*n {
				return
			}
			nc := ts.Or(on[pc], c)
			if nc == on[pc] && on[pc] != ts.tFalse {
				return
			}
			on[pc] = nc
			in := &prg.Inst[pc]
			switch in.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				add(in.Out, c, depth+1)
				add(in.Arg, c, depth+1)
			case syntax.InstCapture, syntax.InstNop:
				add(in.Out, c, depth+1)
			case syntax.InstEmptyWidth:
				e := syntax.EmptyOp(in.Arg)
				g := c
				if e&syntax.EmptyBeginText != 0 && pos != 0 {
					return
				}
				if e&syntax.EmptyEndText != 0 && pos != len(s) {
					return
				}
				if e&syntax.EmptyBeginLine != 0 {
					g = ts.And(g, isNL(pos-1))
				}
				if e&syntax.EmptyEndLine != 0 {
					g = ts.And(g, isNL(pos))
				}
				wb := ts.Not(ts.Eq(isWord(pos-1), isWord(pos)))
				if e&syntax.EmptyWordBoundary != 0 {
					g = ts.And(g, wb)
				}
				if e&syntax.EmptyNoWordBoundary != 0 {
					g = ts.And(g, ts.Not(wb))
				}
				add(in.Out, g, depth+1)
			case syntax.InstMatch:
				matched = ts.Or(matched, c)
			}
		}
		add(uint32(prg.Start), ts.tTrue, 0)
		for pc := range cur {
			if cur[pc] != ts.tFalse {
				add(uint32(pc), cur[pc], 0)
			}
		}
		if pos == len(s) {
			break
		}
		x := m.intTerm(s[pos], 8)
		for pc := range on {
			if on[pc] == ts.tFalse {
				continue
			}
			in := &prg.Inst[pc]
			var hit *Term
			switch in.Op {
			case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
				hit = ts.tFalse
				// group matching bytes in runs
				lo := -1
				for b := 0; b <= 0x80; b++ {
					ok := b < 0x80 && in.MatchRune(rune(b))
					if ok && lo < 0 {
						lo = b
					}
					if !ok && lo >= 0 {
						hit = ts.Or(hit, ts.And(ts.Ule(ts.Const(uint64(lo), 8), x), ts.Ule(x, ts.Const(uint64(b-1), 8))))
						lo = -1
					}
				}
			default:
				continue
			}
			next[in.Out] = ts.Or(next[in.Out], ts.And(on[pc], hit))
		}
		cur = next
	}
	return boolVal(matched)
}

func strOrSlice(v Value) []Value {
	if s, ok := v.(Slice); ok {
		return s
	}
	return strBytes(v)
}
