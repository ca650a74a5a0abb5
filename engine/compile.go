package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Opnd: >=0 register; (gBase, -1] constant -1-o; <= gBase global index gBase-o.
type Opnd int32

const gBase = -(1 << 28)

type iop uint8

const (
	iNop iop = iota
	iAlloc
	iBinOp
	iLoad
	iNot
	iNeg
	iCompl
	iRecv
	iCall
	iCopy
	iConvert
	iDefer
	iExtract
	iField
	iFieldAddr
	iGo
	iIf
	iIndex
	iIndexAddr
	iJump
	iLookup
	iMakeChan
	iMakeClosure
	iMakeInterface
	iMakeMap
	iMakeSlice
	iMapUpdate
	iNext
	iPanic
	iPhi
	iRange
	iReturn
	iRunDefers
	iSelect
	iSend
	iSlice
	iSliceToArrPtr
	iStore
	iTypeAssert
)

type cinstr struct {
	op      iop
	dst     int32
	a, b, c Opnd
	d       Opnd
	args    []Opnd
	ti, ti2 *tinfo
	tok     token.Token
	n       int
	flag    bool
	in      ssa.Instruction
	aux     interface{}
}

const noOp = Opnd(math.MaxInt32)

type cblock struct {
	ins   []cinstr
	succs []int
	preds []int
	nphi  int
}

type Func struct {
	fn      *ssa.Function
	name    string
	blocks  []cblock
	nregs   int
	consts  []Value
	intr    intrinsic
	recover int
	harness bool // function of the harness
	nohb    bool // its synchronisation does not order memory accesses
	mod     bool // belongs to the module under check (counted as encoded code)
	id      int
	npar    int
}

type callInfo struct {
	cc     *ssa.CallCommon
	static *ssa.Function
	sf     *Func
	bi     *ssa.Builtin
	method *types.Func // invoke
	fnOp   Opnd
}

type selInfo struct {
	dirs    []bool // true: send
	elems   []*tinfo
	recvIdx []int
}

type Program struct {
	prog     *ssa.Program
	mu       sync.Mutex
	funcs    map[*ssa.Function]*Func
	globals  map[*ssa.Global]int
	glist    []*ssa.Global
	built    map[*ssa.Package]bool
	modPath  string
	vrtPath  string
	redirect map[string]*ssa.Function
	nfunc    int
}

func (p *Program) isMod(pkg *ssa.Package) bool {
	return pkg != nil && (pkg.Pkg.Path() == p.modPath || strings.HasPrefix(pkg.Pkg.Path(), p.modPath+"/"))
}

// harness packages are part of the module by path, but are not code under check
func (p *Program) isHarness(pkg *ssa.Package) bool {
	return pkg != nil && (pkg.Pkg.Path() == p.vrtPath || strings.HasPrefix(pkg.Pkg.Path(), p.modPath+"/internal/vh"))
}

func (p *Program) globalIdx(g *ssa.Global) int {
	if i, ok := p.globals[g]; ok {
		return i
	}
	i := len(p.glist)
	p.globals[g] = i
	p.glist = append(p.glist, g)
	return i
}

func funcPkg(fn *ssa.Function) *ssa.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg
		}
	}
	return nil
}

// get compiles fn (once) into the internal form. Safe for concurrent use.
func (p *Program) get(fn *ssa.Function) *Func {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.getLocked(fn)
}

func (p *Program) getLocked(fn *ssa.Function) *Func {
	if f, ok := p.funcs[fn]; ok {
		return f
	}
	name := fn.String()
	if r, ok := p.redirect[name]; ok && r != nil && r != fn {
		f := p.getLocked(r)
		p.funcs[fn] = f
		return f
	}
	f := &Func{fn: fn, name: name, recover: -1, id: p.nfunc, npar: len(fn.Params)}
	p.nfunc++
	p.funcs[fn] = f
	if in, ok := intrinsics[name]; ok {
		f.intr = in
		return f
	}
	pkg := funcPkg(fn)
	if pkg != nil && fn.Name() == "init" && fn.Synthetic != "" && !p.isMod(pkg) && !initAllowed(pkg.Pkg.Path()) {
		f.intr = func(m *Machine, g *G, args []Value) (Value, istat) { return nil, stDone }
		return f
	}
	if fn.Blocks == nil && pkg != nil && !p.built[pkg] {
		p.built[pkg] = true
		pkg.Build()
	}
	if fn.Blocks == nil {
		if o := fn.Origin(); o != nil && o != fn {
			if in, ok := intrinsics[o.String()]; ok {
				f.intr = in
				return f
			}
		}
		f.intr = func(m *Machine, g *G, args []Value) (Value, istat) {
			panic(unsupported("call of function without body: " + name))
		}
		return f
	}
	if o := fn.Origin(); o != nil && o != fn {
		if in, ok := intrinsics[o.String()]; ok {
			f.intr = in
			return f
		}
	}
	f.mod = p.isMod(pkg) && !p.isHarness(pkg)
	f.harness = p.isHarness(pkg)
	if f.mod && fn.Pos().IsValid() && strings.HasPrefix(filepath.Base(p.prog.Fset.Position(fn.Pos()).Filename), "zzverif_") {
		f.harness = true
	}
	f.nohb = f.harness && (strings.Contains(name, "/vh.fconn)") || strings.Contains(name, "/vh.pconn)"))
	p.compile(f)
	return f
}

func (p *Program) compile(f *Func) {
	fn := f.fn
	regs := map[ssa.Value]Opnd{}
	next := Opnd(0)
	alloc := func(v ssa.Value) Opnd {
		o := next
		regs[v] = o
		next++
		return o
	}
	for _, x := range fn.Params {
		alloc(x)
	}
	for _, x := range fn.FreeVars {
		alloc(x)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				alloc(v)
			}
		}
	}
	f.nregs = int(next)
	cidx := map[ssa.Value]Opnd{}
	addConst := func(v Value) Opnd {
		f.consts = append(f.consts, v)
		return Opnd(-len(f.consts))
	}
	opnd := func(v ssa.Value) Opnd {
		if v == nil {
			return noOp
		}
		if r, ok := regs[v]; ok {
			return r
		}
		if c, ok := cidx[v]; ok {
			return c
		}
		var o Opnd
		switch v := v.(type) {
		case *ssa.Const:
			o = addConst(constVal(v))
		case *ssa.Function:
			o = addConst(&Closure{fn: v})
		case *ssa.Builtin:
			o = addConst(&Closure{bi: v})
		case *ssa.Global:
			o = Opnd(gBase - p.globalIdx(v))
		default:
			panic(fmt.Sprintf("operand %T", v))
		}
		cidx[v] = o
		return o
	}
	if fn.Recover != nil {
		f.recover = fn.Recover.Index
	}
	mkCall := func(c *ssa.CallCommon, ci *cinstr) {
		info := &callInfo{cc: c}
		if c.IsInvoke() {
			info.method = c.Method
			ci.a = opnd(c.Value)
		} else if sf := c.StaticCallee(); sf != nil {
			info.static = sf
			if mc, ok := c.Value.(*ssa.MakeClosure); ok {
				// closure called directly: need its environment
				info.static = nil
				ci.a = opnd(mc)
			}
		} else if b, ok := c.Value.(*ssa.Builtin); ok {
			info.bi = b
		} else {
			ci.a = opnd(c.Value)
		}
		for _, a := range c.Args {
			ci.args = append(ci.args, opnd(a))
		}
		ci.aux = info
	}
	f.blocks = make([]cblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &f.blocks[bi]
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, s.Index)
		}
		for _, s := range b.Preds {
			cb.preds = append(cb.preds, s.Index)
		}
		for _, in := range b.Instrs {
			ci := cinstr{dst: -1, a: noOp, b: noOp, c: noOp, d: noOp, in: in}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = int32(regs[v])
				ci.ti = tinfoOf(v.Type())
			}
			switch in := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Alloc:
				ci.op = iAlloc
				ci.ti = tinfoOf(in.Type().Underlying().(*types.Pointer).Elem())
			case *ssa.BinOp:
				ci.op = iBinOp
				ci.tok = in.Op
				ci.a, ci.b = opnd(in.X), opnd(in.Y)
				ci.ti = tinfoOf(in.X.Type())
				ci.ti2 = tinfoOf(in.Y.Type())
			case *ssa.UnOp:
				ci.a = opnd(in.X)
				switch in.Op {
				case token.MUL:
					ci.op = iLoad
				case token.NOT:
					ci.op = iNot
				case token.SUB:
					ci.op = iNeg
				case token.XOR:
					ci.op = iCompl
				case token.ARROW:
					ci.op = iRecv
					ci.flag = in.CommaOk
				default:
					panic("unop " + in.Op.String())
				}
			case *ssa.Call:
				ci.op = iCall
				mkCall(&in.Call, &ci)
			case *ssa.ChangeInterface:
				ci.op = iCopy
				ci.a = opnd(in.X)
			case *ssa.ChangeType:
				ci.op = iCopy
				ci.a = opnd(in.X)
			case *ssa.Convert:
				ci.op = iConvert
				ci.a = opnd(in.X)
				ci.ti2 = tinfoOf(in.X.Type())
			case *ssa.MultiConvert:
				ci.op = iConvert
				ci.a = opnd(in.X)
				ci.ti2 = tinfoOf(in.X.Type())
			case *ssa.Defer:
				ci.op = iDefer
				mkCall(&in.Call, &ci)
			case *ssa.Extract:
				ci.op = iExtract
				ci.a = opnd(in.Tuple)
				ci.n = in.Index
			case *ssa.Field:
				ci.op = iField
				ci.a = opnd(in.X)
				ci.n = in.Field
			case *ssa.FieldAddr:
				ci.op = iFieldAddr
				ci.a = opnd(in.X)
				ci.n = in.Field
			case *ssa.Go:
				ci.op = iGo
				mkCall(&in.Call, &ci)
			case *ssa.If:
				ci.op = iIf
				ci.a = opnd(in.Cond)
			case *ssa.Index:
				ci.op = iIndex
				ci.a, ci.b = opnd(in.X), opnd(in.Index)
				ci.ti2 = tinfoOf(in.Index.Type())
			case *ssa.IndexAddr:
				ci.op = iIndexAddr
				ci.a, ci.b = opnd(in.X), opnd(in.Index)
				ci.ti2 = tinfoOf(in.Index.Type())
			case *ssa.Jump:
				ci.op = iJump
			case *ssa.Lookup:
				ci.op = iLookup
				ci.a, ci.b = opnd(in.X), opnd(in.Index)
				ci.flag = in.CommaOk
				ci.ti2 = tinfoOf(in.Index.Type())
				if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
					ci.aux = tinfoOf(mt.Elem())
				}
			case *ssa.MakeChan:
				ci.op = iMakeChan
				ci.a = opnd(in.Size)
				ci.aux = tinfoOf(in.Type().Underlying().(*types.Chan).Elem())
			case *ssa.MakeClosure:
				ci.op = iMakeClosure
				for _, b := range in.Bindings {
					ci.args = append(ci.args, opnd(b))
				}
				ci.aux = in.Fn.(*ssa.Function)
			case *ssa.MakeInterface:
				ci.op = iMakeInterface
				ci.a = opnd(in.X)
				ci.aux = canon(in.X.Type())
			case *ssa.MakeMap:
				ci.op = iMakeMap
			case *ssa.MakeSlice:
				ci.op = iMakeSlice
				ci.a, ci.b = opnd(in.Len), opnd(in.Cap)
				ci.aux = tinfoOf(in.Type().Underlying().(*types.Slice).Elem())
				ci.ti2 = tinfoOf(in.Len.Type())
			case *ssa.MapUpdate:
				ci.op = iMapUpdate
				ci.a, ci.b, ci.c = opnd(in.Map), opnd(in.Key), opnd(in.Value)
			case *ssa.Next:
				ci.op = iNext
				ci.a = opnd(in.Iter)
				ci.flag = in.IsString
			case *ssa.Panic:
				ci.op = iPanic
				ci.a = opnd(in.X)
			case *ssa.Phi:
				ci.op = iPhi
				for _, e := range in.Edges {
					ci.args = append(ci.args, opnd(e))
				}
				cb.nphi++
			case *ssa.Range:
				ci.op = iRange
				ci.a = opnd(in.X)
			case *ssa.Return:
				ci.op = iReturn
				for _, r := range in.Results {
					ci.args = append(ci.args, opnd(r))
				}
			case *ssa.RunDefers:
				ci.op = iRunDefers
			case *ssa.Select:
				ci.op = iSelect
				ci.flag = in.Blocking
				si := &selInfo{}
				for i, st := range in.States {
					ci.args = append(ci.args, opnd(st.Chan), opnd(st.Send))
					si.dirs = append(si.dirs, st.Dir == types.SendOnly)
					si.elems = append(si.elems, tinfoOf(st.Chan.Type().Underlying().(*types.Chan).Elem()))
					if st.Dir != types.SendOnly {
						si.recvIdx = append(si.recvIdx, i)
					}
				}
				ci.aux = si
			case *ssa.Send:
				ci.op = iSend
				ci.a, ci.b = opnd(in.Chan), opnd(in.X)
			case *ssa.Slice:
				ci.op = iSlice
				ci.a, ci.b, ci.c, ci.d = opnd(in.X), opnd(in.Low), opnd(in.High), opnd(in.Max)
			case *ssa.SliceToArrayPointer:
				ci.op = iSliceToArrPtr
				ci.a = opnd(in.X)
				ci.n = int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			case *ssa.Store:
				ci.op = iStore
				ci.a, ci.b = opnd(in.Addr), opnd(in.Val)
			case *ssa.TypeAssert:
				ci.op = iTypeAssert
				ci.a = opnd(in.X)
				ci.flag = in.CommaOk
				ci.ti = tinfoOf(in.AssertedType)
				ci.aux = canon(in.AssertedType)
			default:
				panic(fmt.Sprintf("instruction %T in %s", in, f.name))
			}
			cb.ins = append(cb.ins, ci)
		}
	}
}

func constVal(c *ssa.Const) Value {
	ti := tinfoOf(c.Type())
	if c.Value == nil {
		return ti.zero()
	}
	switch ti.k {
	case kBool:
		return constant.BoolVal(c.Value)
	case kInt:
		v := constant.ToInt(c.Value)
		if ti.signed {
			x, ok := constant.Int64Val(v)
			if !ok {
				u, _ := constant.Uint64Val(v)
				return u & mask(ti.w)
			}
			return uint64(x) & mask(ti.w)
		}
		u, ok := constant.Uint64Val(v)
		if !ok {
			x, _ := constant.Int64Val(v)
			u = uint64(x)
		}
		return u & mask(ti.w)
	case kFloat:
		x, _ := constant.Float64Val(c.Value)
		if ti.f32 {
			return float64(float32(x))
		}
		return x
	case kString:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		x, _ := constant.Int64Val(c.Value)
		return string(rune(x))
	case kComplex:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return complex(re, im)
	case kUnsafe:
		return UPtr{}
	}
	panic("const of type " + c.Type().String())
}
