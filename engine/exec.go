package main

import (
	"fmt"
	"go/token"
	"go/types"
	"runtime"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type istat uint8

const (
	stDone  istat = iota // result available
	stPark               // goroutine parked; the waker completes the operation
	stRetry              // goroutine parked; the instruction is executed again on wake-up
	stFrame              // the intrinsic pushed a frame whose result is the result
)

type intrinsic func(m *Machine, g *G, args []Value) (Value, istat)

type deferred struct {
	f    *Func
	args []Value
	env  []Value
	bi   *ssa.Builtin
	in   *cinstr
}

type frame struct {
	f         *Func
	regs      []Value
	block     int
	prev      int
	pc        int
	dst       int32 // register of the caller that receives the result
	defers    []*deferred
	panicking bool
	panicVal  Value
	panicPos  string
	recovered bool
	deferOf   *frame
	owner     *Func // innermost function that is not of the standard library
	onReturn  func(v Value) Value
}

type gstate uint8

const (
	gRunnable gstate = iota
	gBlocked
	gDead
)

// G is a goroutine of the program under analysis.
type G struct {
	id        int
	stack     []*frame
	state     gstate
	why       string
	wake      func() // runs when the goroutine is resumed, completes the pending operation
	name      string
	sel       *selWait
	daemon    bool
	wakePanic Value
	vc        vclock
	harness   bool // started by the harness
}

type goPanic struct{ val Value }

type pathAbort struct {
	kind string // infeasible, steplimit, budget
	msg  string
}

func (m *Machine) rtErr(msg string) Value {
	return Iface{T: m.rtErrType(), V: Struct{Value("runtime error: " + msg)}}
}

func (m *Machine) rtErrType() types.Type { return m.w.rtErrT }

func fatal(f string, a ...interface{}) {
	panic(fmt.Sprintf("FATAL: "+f, a...))
}

func (m *Machine) get(fr *frame, o Opnd) Value {
	if o >= 0 {
		return fr.regs[o]
	}
	if o > gBase {
		return fr.f.consts[-1-o]
	}
	return m.global(int(gBase - o))
}

func (m *Machine) global(i int) Value {
	if i < len(m.globals) {
		if p := m.globals[i]; p != nil {
			return p
		}
	} else {
		m.prog.mu.Lock()
		n := len(m.prog.glist)
		m.prog.mu.Unlock()
		ng := make([]*Value, n)
		copy(ng, m.globals)
		m.globals = ng
		ws := make([]*Value, n)
		copy(ws, m.w.stdGlobals)
		m.w.stdGlobals = ws
	}
	m.prog.mu.Lock()
	g := m.prog.glist[i]
	m.prog.mu.Unlock()
	mod := m.prog.isMod(g.Pkg) || strings.HasPrefix(g.String(), "net.Verif") // see patchNet
	if !mod {
		if p := m.w.stdGlobals[i]; p != nil {
			m.globals[i] = p
			return p
		}
		if !initAllowed(g.Pkg.Pkg.Path()) && !globalAllowed(g.String()) && stdVars[g.String()] == nil {
			panic(unsupported("global of a package that is not initialised: " + g.String()))
		}
	}
	p := new(Value)
	*p = tinfoOf(g.Type().Underlying().(*types.Pointer).Elem()).zero()
	if f := stdVars[g.String()]; f != nil {
		*p = f(m)
	}
	if !mod {
		m.w.stdGlobals[i] = p
	}
	m.globals[i] = p
	return p
}

// stdVars are the variables of packages that are not initialised which code is
// likely to use.
var stdVars = map[string]func(m *Machine) Value{
	"os.ErrDeadlineExceeded": func(m *Machine) Value {
		p := new(Value)
		*p = Struct{}
		return Iface{T: types.NewPointer(m.stdType("internal/poll", "DeadlineExceededError")), V: p}
	},
	"net.ErrClosed": func(m *Machine) Value {
		return Iface{T: m.stdType("internal/poll", "errNetClosing"), V: Struct{}}
	},
	"os.Stderr": stdFile, "os.Stdout": stdFile, "os.Stdin": stdFile,
	"crypto/rand.Reader": func(m *Machine) Value { return Iface{} },
}

func stdFile(m *Machine) Value {
	p := new(Value)
	*p = tinfoOf(m.stdType("os", "File")).zero()
	return p
}

func (m *Machine) stdType(pkg, name string) types.Type {
	pk := m.prog.prog.ImportedPackage(pkg)
	if pk == nil || pk.Type(name) == nil {
		panic(unsupported("type " + pkg + "." + name))
	}
	return pk.Type(name).Type()
}

func (m *Machine) pushFrame(g *G, f *Func, args []Value, env []Value, dst int32) *frame {
	if len(g.stack) > 2000 {
		panic(pathAbort{"steplimit", "goroutine stack deeper than 2000 frames in " + f.name})
	}
	regs := make([]Value, f.nregs)
	n := copy(regs, args)
	copy(regs[n:], env)
	fr := &frame{f: f, regs: regs, dst: dst}
	if f.mod || f.harness {
		fr.owner = f
	} else if k := len(g.stack); k > 0 {
		fr.owner = g.stack[k-1].owner
	}
	g.stack = append(g.stack, fr)
	if f.mod && !m.encoded[f.id] {
		m.encoded[f.id] = true
		m.encodedNew = append(m.encodedNew, f)
	}
	return fr
}

// call starts f in g. done reports that the result is available now.
func (m *Machine) call(g *G, f *Func, args, env []Value, dst int32) (Value, istat) {
	if f.intr != nil {
		return f.intr(m, g, args)
	}
	for i, a := range args {
		switch a.(type) {
		case Struct, Array:
			args[i] = copyVal(a)
		}
	}
	m.pushFrame(g, f, args, env, dst)
	return nil, stFrame
}

func (m *Machine) newG(f *Func, args, env []Value, name string) *G {
	g := &G{id: m.ngs, name: name}
	m.ngs++
	m.gs = append(m.gs, g)
	if m.race {
		g.harness = f.harness
		if m.inTimer {
			g.vc = m.timerVC.clone()
		} else if m.cur != nil && m.started {
			g.vc = m.cur.release()
		}
		g.tick()
	}
	if f.intr != nil {
		v, st := f.intr(m, g, args)
		_ = v
		if st == stDone {
			g.state = gDead
			return g
		}
		panic(unsupported("go statement on blocking intrinsic " + f.name))
	}
	for i, a := range args {
		args[i] = copyVal(a)
	}
	m.pushFrame(g, f, args, env, -1)
	m.runq = append(m.runq, g)
	return g
}

func (m *Machine) ready(g *G) {
	if g.state == gBlocked {
		g.state = gRunnable
		g.why = ""
		m.runq = append(m.runq, g)
	}
}

func (m *Machine) park(g *G, why string) {
	g.state = gBlocked
	g.why = why
}

// resolveCall finds the function and arguments of a call instruction.
func (m *Machine) resolveCall(fr *frame, ci *cinstr) (f *Func, args, env []Value, bi *ssa.Builtin) {
	info := ci.aux.(*callInfo)
	if info.method != nil {
		recv := m.get(fr, ci.a)
		itf, ok := recv.(Iface)
		if !ok {
			panic(fmt.Sprintf("invoke on %T", recv))
		}
		if itf.T == nil {
			panic(goPanic{m.rtErr("invalid memory address or nil pointer dereference (method " + info.method.Name() + " on nil interface)")})
		}
		f = m.findMethod(itf.T, info.method)
		args = make([]Value, 0, len(ci.args)+1)
		args = append(args, itf.V)
		for _, a := range ci.args {
			args = append(args, m.get(fr, a))
		}
		return f, args, nil, nil
	}
	args = make([]Value, len(ci.args))
	for i, a := range ci.args {
		args[i] = m.get(fr, a)
	}
	if info.static != nil {
		if info.sf == nil {
			sf := m.prog.get(info.static)
			info.sf = sf // benign race: same pointer
		}
		return info.sf, args, nil, nil
	}
	if info.bi != nil {
		return nil, args, nil, info.bi
	}
	cl, ok := m.get(fr, ci.a).(*Closure)
	if !ok || cl == nil {
		panic(goPanic{m.rtErr("invalid memory address or nil pointer dereference (call of nil function)")})
	}
	if cl.bi != nil {
		return nil, args, nil, cl.bi
	}
	if cl.f == nil {
		return m.prog.get(cl.fn), args, cl.env, nil
	}
	return cl.f, args, cl.env, nil
}

type methKey struct {
	t types.Type
	n string
}

func (m *Machine) findMethod(t types.Type, meth *types.Func) *Func {
	key := methKey{t, meth.Id()}
	if f, ok := m.w.methods[key]; ok {
		return f
	}
	if t == m.w.rtErrT {
		// runtime.Error stand-in
		f := m.w.rtErrMethod(meth.Name())
		m.w.methods[key] = f
		return f
	}
	if t == reflectStub {
		// only used while package errors initialises itself
		f := &Func{name: "reflectStub." + meth.Name(), id: -1}
		f.intr = func(m *Machine, g *G, a []Value) (Value, istat) { return Iface{T: reflectStub, V: Struct{}}, stDone }
		switch meth.Name() {
		case "Comparable": // of context.WithValue
			f.intr = func(m *Machine, g *G, a []Value) (Value, istat) { return true, stDone }
		case "String", "Name", "PkgPath":
			f.intr = func(m *Machine, g *G, a []Value) (Value, istat) { return "?", stDone }
		}
		m.w.methods[key] = f
		return f
	}
	m.prog.mu.Lock()
	fn := m.prog.lookupMethod(t, meth)
	m.prog.mu.Unlock()
	if fn == nil {
		panic(unsupported("method " + meth.String() + " of " + t.String() + " not found"))
	}
	f := m.prog.get(fn)
	m.w.methods[key] = f
	return f
}

// step budget check and main interpreter loop for one goroutine; returns
// when the goroutine blocks, ends or is preempted.
func (m *Machine) runG(g *G) {
	m.cur = g
	if g.wakePanic != nil {
		v := g.wakePanic
		g.wakePanic = nil
		m.startPanic(g, v)
	}
	for g.state == gRunnable {
		if m.execSafe(g) {
			return
		}
	}
}

// execSafe runs until the goroutine stops (true), turning Go panics of the
// interpreted program into unwinding.
func (m *Machine) execSafe(g *G) (stopped bool) {
	defer func() {
		if r := recover(); r != nil {
			switch p := r.(type) {
			case goPanic:
				m.startPanic(g, p.val)
				stopped = false
			case pathAbort, unsupportedErr, violation:
				panic(r)
			case runtime.Error:
				panic(fmt.Sprintf("%v at %s\n%s", r, m.where(g), trimStack()))
			default:
				panic(r)
			}
		}
	}()
	return m.exec(g)
}

func trimStack() string {
	buf := make([]byte, 1<<14)
	n := runtime.Stack(buf, false)
	return string(buf[:n])
}

func (m *Machine) where(g *G) string {
	var sb strings.Builder
	for i := len(g.stack) - 1; i >= 0 && i > len(g.stack)-12; i-- {
		fr := g.stack[i]
		pos := ""
		if fr.block < len(fr.f.blocks) {
			pc := fr.pc
			b := fr.f.blocks[fr.block]
			for pc >= 0 && pc < len(b.ins) {
				if p := b.ins[pc].in.Pos(); p.IsValid() {
					pp := m.prog.prog.Fset.Position(p)
					pos = fmt.Sprintf("%s:%d", pp.Filename, pp.Line)
					break
				}
				pc--
			}
		}
		if i < len(g.stack)-1 {
			sb.WriteString(" < ")
		}
		sb.WriteString(fr.f.name + " (" + pos + ")")
	}
	return sb.String()
}

func (m *Machine) startPanic(g *G, v Value) {
	if len(g.stack) == 0 {
		panic("panic with empty stack")
	}
	fr := g.stack[len(g.stack)-1]
	fr.panicPos = m.where(g)
	fr.panicking = true
	fr.recovered = false
	fr.panicVal = v
	m.unwind(g)
}

// unwind continues panic processing for the top frame.
func (m *Machine) unwind(g *G) {
	for {
		fr := g.stack[len(g.stack)-1]
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			if d.bi != nil {
				m.builtin(g, fr, d.bi, d.args, d.in)
				continue
			}
			_, st := m.call(g, d.f, d.args, d.env, -1)
			switch st {
			case stFrame:
				g.stack[len(g.stack)-1].deferOf = fr
				return
			case stDone:
				continue
			default:
				panic(unsupported("deferred call blocks while panicking: " + d.f.name))
			}
		}
		if fr.recovered {
			fr.panicking = false
			m.resumeRecovered(g, fr)
			return
		}
		g.stack = g.stack[:len(g.stack)-1]
		if fr.deferOf != nil {
			p := fr.deferOf
			p.panicking = true
			p.recovered = false
			p.panicVal = fr.panicVal
			p.panicPos = fr.panicPos
			continue
		}
		if len(g.stack) == 0 {
			g.state = gDead
			m.uncaughtPanic(g, fr.panicVal, fr.panicPos)
			return
		}
		p := g.stack[len(g.stack)-1]
		p.panicking = true
		p.recovered = false
		p.panicVal = fr.panicVal
		p.panicPos = fr.panicPos
	}
}

func (m *Machine) resumeRecovered(g *G, fr *frame) {
	if fr.f.recover >= 0 {
		fr.prev = fr.block
		fr.block = fr.f.recover
		fr.pc = 0
		return
	}
	// return zero values
	res := fr.f.fn.Signature.Results()
	var v Value
	switch res.Len() {
	case 0:
	case 1:
		v = tinfoOf(res.At(0).Type()).zero()
	default:
		v = tinfoOf(res).zero()
	}
	m.ret(g, fr, v)
}

// ret pops the top frame and delivers v to its caller.
func (m *Machine) ret(g *G, fr *frame, v Value) {
	g.stack[len(g.stack)-1] = nil
	g.stack = g.stack[:len(g.stack)-1]
	if fr.onReturn != nil {
		v = fr.onReturn(v)
	}
	if p := fr.deferOf; p != nil {
		if p.panicking {
			if p.recovered {
				p.panicking = false
				p.recovered = false
				// run the remaining defers, then return through the recover block
				p.panicking = true
				p.recovered = true
			}
			m.unwind(g)
		}
		return
	}
	if len(g.stack) == 0 {
		g.state = gDead
		if g == m.main {
			m.mainDone = true
		}
		return
	}
	caller := g.stack[len(g.stack)-1]
	if fr.dst >= 0 {
		caller.regs[fr.dst] = v
	}
}

func (m *Machine) jump(fr *frame, to int) {
	fr.prev = fr.block
	fr.block = to
	fr.pc = 0
	b := &fr.f.blocks[to]
	if b.nphi > 0 {
		pi := -1
		for i, p := range b.preds {
			if p == fr.prev {
				pi = i
				break
			}
		}
		if b.nphi == 1 {
			ci := &b.ins[0]
			fr.regs[ci.dst] = m.get(fr, ci.args[pi])
		} else {
			var tmp [16]Value
			vals := tmp[:0]
			for k := 0; k < b.nphi; k++ {
				vals = append(vals, m.get(fr, b.ins[k].args[pi]))
			}
			for k := 0; k < b.nphi; k++ {
				fr.regs[b.ins[k].dst] = vals[k]
			}
		}
		fr.pc = b.nphi
	}
}

func (m *Machine) exec(g *G) bool {
frameLoop:
	for {
		if g.state != gRunnable {
			return true
		}
		fr := g.stack[len(g.stack)-1]
		f := fr.f
		for {
			ci := &f.blocks[fr.block].ins[fr.pc]
			m.steps++
			if m.steps > m.maxSteps {
				panic(pathAbort{"steplimit", "step limit reached at " + m.where(g)})
			}
			if m.steps&0x3fff == 0 {
				m.checkBudget()
			}
			switch ci.op {
			case iNop:
			case iAlloc:
				p := new(Value)
				*p = ci.ti.zero()
				fr.regs[ci.dst] = p
			case iBinOp:
				fr.regs[ci.dst] = m.binop(ci.tok, ci.ti, ci.ti2, m.get(fr, ci.a), m.get(fr, ci.b))
			case iLoad:
				p := m.get(fr, ci.a)
				if pv, ok := p.(*Value); ok && pv != nil {
					if m.race && m.racing() {
						m.rd(pv)
					}
					switch x := (*pv).(type) {
					case Struct, Array:
						fr.regs[ci.dst] = copyVal(x)
					default:
						fr.regs[ci.dst] = x
					}
				} else {
					fr.regs[ci.dst] = m.load(p, ci.ti)
				}
			case iNot:
				fr.regs[ci.dst] = m.notV(m.get(fr, ci.a))
			case iNeg:
				switch x := m.get(fr, ci.a).(type) {
				case uint64:
					fr.regs[ci.dst] = -x & mask(ci.ti.w)
				case *Term:
					fr.regs[ci.dst] = intVal(m.ts.Neg(x))
				case float64:
					fr.regs[ci.dst] = -x
				case *SymFloat:
					fr.regs[ci.dst] = &SymFloat{m.ts.Neg(x.t)}
				default:
					panic(unsupported(fmt.Sprintf("negation of %T", x)))
				}
			case iCompl:
				switch x := m.get(fr, ci.a).(type) {
				case uint64:
					fr.regs[ci.dst] = ^x & mask(ci.ti.w)
				case *Term:
					fr.regs[ci.dst] = intVal(m.ts.BNot(x))
				}
			case iRecv:
				if m.schedPoint(g) {
					return true
				}
				ch, _ := m.get(fr, ci.a).(*Chan)
				fr.pc++
				if m.chanRecv(g, fr, ci, ch) {
					return true
				}
				continue
			case iSend:
				if m.schedPoint(g) {
					return true
				}
				ch, _ := m.get(fr, ci.a).(*Chan)
				v := copyVal(m.get(fr, ci.b))
				if m.chanSend(g, fr, ch, v) {
					fr.pc++
					return true
				}
			case iSelect:
				if m.schedPoint(g) {
					return true
				}
				if m.doSelect(g, fr, ci) {
					fr.pc++
					return true
				}
			case iCall:
				fn, args, env, bi := m.resolveCall(fr, ci)
				if bi != nil {
					if bi.Name() == "close" {
						if m.schedPoint(g) {
							return true
						}
					}
					v := m.builtin(g, fr, bi, args, ci)
					if ci.dst >= 0 {
						fr.regs[ci.dst] = v
					}
					break
				}
				if fn.intr != nil {
					v, st := fn.intr(m, g, args)
					switch st {
					case stDone:
						if ci.dst >= 0 {
							fr.regs[ci.dst] = v
						}
						if g.state != gRunnable || m.stopG {
							fr.pc++
							return true
						}
					case stRetry:
						return true
					case stPark:
						fr.pc++
						return true
					case stFrame:
						g.stack[len(g.stack)-1].dst = ci.dst
						fr.pc++
						continue frameLoop
					}
					break
				}
				fr.pc++
				m.call(g, fn, args, env, ci.dst)
				continue frameLoop
			case iCopy:
				fr.regs[ci.dst] = m.get(fr, ci.a)
			case iConvert:
				fr.regs[ci.dst] = m.convert(ci.ti, ci.ti2, m.get(fr, ci.a))
			case iDefer:
				fn, args, env, bi := m.resolveCall(fr, ci)
				for i, a := range args {
					args[i] = copyVal(a)
				}
				fr.defers = append(fr.defers, &deferred{fn, args, env, bi, ci})
			case iExtract:
				fr.regs[ci.dst] = m.get(fr, ci.a).(Tuple)[ci.n]
			case iField:
				fr.regs[ci.dst] = m.get(fr, ci.a).(Struct)[ci.n]
			case iFieldAddr:
				p := m.get(fr, ci.a)
				pv, ok := p.(*Value)
				if !ok {
					panic(unsupported(fmt.Sprintf("field address of %T", p)))
				}
				if pv == nil {
					panic(goPanic{m.rtErr("invalid memory address or nil pointer dereference")})
				}
				fr.regs[ci.dst] = &(*pv).(Struct)[ci.n]
			case iGo:
				if m.schedPoint(g) {
					return true
				}
				fn, args, env, bi := m.resolveCall(fr, ci)
				if bi != nil {
					panic(unsupported("go builtin"))
				}
				m.newG(fn, args, env, fn.name)
			case iIf:
				c := m.get(fr, ci.a)
				var b bool
				if cb, ok := c.(bool); ok {
					b = cb
				} else {
					b = m.forkBool(c, "")
				}
				if b {
					m.jump(fr, f.blocks[fr.block].succs[0])
				} else {
					m.jump(fr, f.blocks[fr.block].succs[1])
				}
				continue
			case iIndex:
				m.elemW = 255
				if ci.ti.k == kInt {
					m.elemW = ci.ti.w
				}
				fr.regs[ci.dst] = m.indexVal(m.get(fr, ci.a), m.get(fr, ci.b), ci.ti2)
			case iIndexAddr:
				fr.regs[ci.dst] = m.indexAddr(m.get(fr, ci.a), m.get(fr, ci.b), ci.ti2, ci)
			case iJump:
				m.jump(fr, f.blocks[fr.block].succs[0])
				continue
			case iLookup:
				fr.regs[ci.dst] = m.lookup(ci, m.get(fr, ci.a), m.get(fr, ci.b))
			case iMakeChan:
				n := m.concInt(m.get(fr, ci.a), "channel capacity")
				if n < 0 || n > 1<<32 {
					panic(goPanic{m.rtErr("makechan: size out of range")})
				}
				fr.regs[ci.dst] = m.newChan(int(n), ci.aux.(*tinfo))
			case iMakeClosure:
				cl := &Closure{fn: ci.aux.(*ssa.Function)}
				cl.f = m.prog.get(cl.fn)
				cl.env = make([]Value, len(ci.args))
				for i, a := range ci.args {
					cl.env[i] = m.get(fr, a)
				}
				fr.regs[ci.dst] = cl
			case iMakeInterface:
				fr.regs[ci.dst] = Iface{T: ci.aux.(types.Type), V: copyVal(m.get(fr, ci.a))}
			case iMakeMap:
				fr.regs[ci.dst] = newMap()
			case iMakeSlice:
				fr.regs[ci.dst] = m.makeSlice(m.get(fr, ci.a), m.get(fr, ci.b), ci.aux.(*tinfo))
			case iMapUpdate:
				mp, _ := m.get(fr, ci.a).(*Map)
				if mp == nil {
					panic(goPanic{m.rtErrPlain("assignment to entry in nil map")})
				}
				m.wrMap(mp)
				m.mapSet(mp, m.get(fr, ci.b), copyVal(m.get(fr, ci.c)))
			case iNext:
				fr.regs[ci.dst] = m.next(ci, m.get(fr, ci.a))
			case iPanic:
				panic(goPanic{m.get(fr, ci.a)})
			case iPhi:
				// executed by jump; reached only when resuming at a block start
			case iRange:
				switch x := m.get(fr, ci.a).(type) {
				case *Map:
					fr.regs[ci.dst] = m.mapIter(x)
				case string, *SymStr:
					fr.regs[ci.dst] = &StrIter{v: x}
				default:
					panic(unsupported(fmt.Sprintf("range over %T", x)))
				}
			case iReturn:
				var v Value
				switch len(ci.args) {
				case 0:
				case 1:
					v = m.get(fr, ci.args[0])
				default:
					t := make(Tuple, len(ci.args))
					for i, a := range ci.args {
						t[i] = m.get(fr, a)
					}
					v = t
				}
				m.ret(g, fr, v)
				continue frameLoop
			case iRunDefers:
				if n := len(fr.defers); n > 0 {
					d := fr.defers[n-1]
					if d.bi != nil {
						fr.defers = fr.defers[:n-1]
						m.builtin(g, fr, d.bi, d.args, d.in)
						continue
					}
					fr.defers = fr.defers[:n-1]
					_, st := m.call(g, d.f, d.args, d.env, -1)
					switch st {
					case stFrame:
						g.stack[len(g.stack)-1].deferOf = fr
						continue frameLoop
					case stDone:
						if g.state != gRunnable {
							return true
						}
						continue
					case stPark:
						return true
					case stRetry:
						fr.defers = append(fr.defers, d)
						return true
					}
				}
			case iSlice:
				fr.regs[ci.dst] = m.sliceOp(ci, m.get(fr, ci.a), m.opt(fr, ci.b), m.opt(fr, ci.c), m.opt(fr, ci.d))
			case iSliceToArrPtr:
				panic(unsupported("slice to array pointer conversion"))
			case iStore:
				p := m.get(fr, ci.a)
				if pv, ok := p.(*Value); ok && pv != nil {
					v := m.get(fr, ci.b)
					if m.race && m.racing() {
						m.wr(pv)
					}
					switch v.(type) {
					case Struct, Array:
						storeInto(pv, v)
					default:
						*pv = v
					}
				} else {
					m.store(p, m.get(fr, ci.b))
				}
			case iTypeAssert:
				fr.regs[ci.dst] = m.typeAssert(ci, m.get(fr, ci.a))
			default:
				panic(fmt.Sprintf("op %d", ci.op))
			}
			fr.pc++
		}
	}
}

func (m *Machine) opt(fr *frame, o Opnd) Value {
	if o == noOp {
		return nil
	}
	return m.get(fr, o)
}

func (m *Machine) rtErrPlain(msg string) Value {
	return Iface{T: m.w.rtErrT, V: Struct{Value(msg)}}
}

func (m *Machine) typeAssert(ci *cinstr, v Value) Value {
	itf := v.(Iface)
	at := ci.aux.(types.Type)
	ok := false
	var res Value
	if ci.ti.k == kIface {
		if itf.T != nil && m.implements(itf.T, at) {
			ok = true
			res = itf
		} else {
			res = Iface{}
		}
	} else {
		if itf.T == at {
			ok = true
			res = copyVal(itf.V)
		} else {
			res = ci.ti.zero()
		}
	}
	if ci.flag {
		return Tuple{res, ok}
	}
	if !ok {
		d := "nil"
		if itf.T != nil {
			d = itf.T.String()
		}
		panic(goPanic{m.rtErrPlain("interface conversion: interface is " + d + ", not " + at.String())})
	}
	return res
}

func (m *Machine) implements(t, it types.Type) bool {
	key := [2]types.Type{t, it}
	if r, ok := m.w.impls[key]; ok {
		return r
	}
	iface := it.Underlying().(*types.Interface)
	var r bool
	if t == m.w.rtErrT {
		r = true
		for i := 0; i < iface.NumMethods(); i++ {
			switch iface.Method(i).Name() {
			case "Error", "RuntimeError":
			default:
				r = false
			}
		}
	} else {
		canonMu.Lock()
		r = types.Implements(t, iface)
		canonMu.Unlock()
	}
	m.w.impls[key] = r
	return r
}

var _ = token.ADD
