package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// Compiled form of SSA functions.

type opndKind uint8

const (
	oReg opndKind = iota
	oConst
	oGlobal
	oNone
)

type opnd struct {
	kind opndKind
	idx  int
	val  Value
}

type insOp uint8

const (
	iNop insOp = iota
	iAlloc
	iBinInt
	iBinOther
	iUnNot
	iUnNeg
	iUnXor
	iLoad
	iCall
	iInvoke
	iBuiltin
	iCopyReg
	iConvInt
	iConvOther
	iDefer
	iExtract
	iField
	iFieldAddr
	iIf
	iIndex
	iIndexAddr
	iJump
	iLookup
	iMakeClosure
	iMakeIface
	iMakeMap
	iMakeSlice
	iMapUpdate
	iNext
	iPanic
	iRange
	iReturn
	iRunDefers
	iSlice
	iStore
	iTypeAssert
	iSliceToArrPtr
	iUnsupported
)

type ins struct {
	op     insOp
	w      uint8 // result/operand width
	w2     uint8
	signed bool
	tok    token.Token
	dst    int32
	a, b   opnd
	args   []opnd
	n, m   int
	typ    types.Type
	typ2   types.Type
	fn     *ssa.Function
	name   string
	in     ssa.Instruction
	cref   *atomic.Pointer[Code] // resolved callee
}

type blockC struct {
	idx   int
	phis  []phiC
	ins   []ins
	succs []int
	preds []int
}

type phiC struct {
	dst   int32
	edges []opnd
}

type Code struct {
	pre    func(st *State, a []Value) []Value
	id     int
	fn     *ssa.Function
	name   string
	nregs  int
	params int
	fvBase int
	blocks []*blockC
	lib    bool // belongs to the library under test
	intr   intrinsic
	nblk   int
	recov  int
}

type Program struct {
	prog       *ssa.Program
	mu         sync.Mutex
	codes      map[*ssa.Function]*Code
	globals    []*ssa.Global
	gidx       map[*ssa.Global]int
	ncode      int
	all        []*Code
	redirect   map[string]*ssa.Function
	methods    map[methKey]*ssa.Function
	harnessPkg *ssa.Package
}

type methKey struct {
	t    types.Type
	name string
}

func (p *Program) globalIdx(g *ssa.Global) int {
	if i, ok := p.gidx[g]; ok {
		return i
	}
	i := len(p.globals)
	p.gidx[g] = i
	p.globals = append(p.globals, g)
	return i
}

const libPrefix = "github.com/roy2220/plainkv"

func (p *Program) getCode(fn *ssa.Function) *Code {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.getCodeLocked(fn)
}

func (p *Program) getCodeLocked(fn *ssa.Function) *Code {
	if c, ok := p.codes[fn]; ok {
		return c
	}
	name := fn.String()
	if r, ok := p.redirect[name]; ok && r != nil {
		c := p.getCodeLocked(r)
		p.codes[fn] = c
		return c
	}
	c := &Code{id: p.ncode, fn: fn, name: name, recov: -1}
	p.ncode++
	p.codes[fn] = c
	p.all = append(p.all, c)
	if it, ok := intrinsics[name]; ok {
		c.intr = it
		return c
	}
	if name == "(*fmt.pp).printArg" {
		c.pre = plainArg
	}
	if it := intrinsicByPattern(fn, name); it != nil {
		c.intr = it
		return c
	}
	if fn.Blocks == nil && fn.Pkg != nil {
		fn.Pkg.Build()
	}
	if fn.Blocks == nil && fn.Origin() != nil && fn.Origin().Pkg != nil {
		fn.Origin().Pkg.Build()
	}
	if fn.Blocks == nil {
		nm := name
		c.intr = func(st *State, in *ins, args []Value) Value {
			st.unsupported("no body for " + nm)
			return Value{}
		}
		return c
	}
	if pk := fnPkgPath(fn); pk == libPrefix || (len(pk) > len(libPrefix) && pk[:len(libPrefix)+1] == libPrefix+"/") {
		c.lib = true
	}
	p.compile(c)
	return c
}

func fnPkgPath(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg().Path()
		}
	}
	return ""
}

func constValue(k *ssa.Const) Value {
	t := k.Type()
	if k.Value == nil {
		if isAgg(t) {
			return Value{R: make([]Value, slotsOf(t))}
		}
		return Value{}
	}
	if isBool(t) {
		return boolV(constant.BoolVal(k.Value))
	}
	if w, _, ok := intInfo(t); ok {
		v := constant.ToInt(k.Value)
		if i, exact := constant.Int64Val(v); exact {
			return Value{U: uint64(i) & mask(w)}
		}
		u, _ := constant.Uint64Val(v)
		return Value{U: u & mask(w)}
	}
	if isString(t) {
		if k.Value.Kind() == constant.String {
			return strV(constant.StringVal(k.Value))
		}
		i, _ := constant.Int64Val(k.Value)
		return strV(string(rune(i)))
	}
	if isFloat(t) {
		f, _ := constant.Float64Val(k.Value)
		if b := t.Underlying().(*types.Basic); b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return Value{U: math.Float64bits(f)}
	}
	return Value{}
}

func (p *Program) compile(c *Code) {
	fn := c.fn
	reg := map[ssa.Value]int{}
	n := 0
	for _, pr := range fn.Params {
		reg[pr] = n
		n++
	}
	c.params = n
	c.fvBase = n
	for _, fv := range fn.FreeVars {
		reg[fv] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				reg[v] = n
				n++
			}
		}
	}
	c.nregs = n
	o := func(v ssa.Value) opnd {
		switch x := v.(type) {
		case nil:
			return opnd{kind: oNone}
		case *ssa.Const:
			return opnd{kind: oConst, val: constValue(x)}
		case *ssa.Global:
			return opnd{kind: oGlobal, idx: p.globalIdx(x)}
		case *ssa.Function:
			return opnd{kind: oConst, val: Value{R: &FuncV{fn: x}}}
		case *ssa.Builtin:
			return opnd{kind: oNone}
		}
		return opnd{kind: oReg, idx: reg[v]}
	}
	os := func(vs []ssa.Value) []opnd {
		r := make([]opnd, len(vs))
		for i, v := range vs {
			r[i] = o(v)
		}
		return r
	}
	if fn.Recover != nil {
		c.recov = fn.Recover.Index
	}
	for _, b := range fn.Blocks {
		bc := &blockC{idx: b.Index}
		for _, s := range b.Succs {
			bc.succs = append(bc.succs, s.Index)
		}
		for _, s := range b.Preds {
			bc.preds = append(bc.preds, s.Index)
		}
		for _, in0 := range b.Instrs {
			x := ins{in: in0, dst: -1}
			if v, ok := in0.(ssa.Value); ok {
				x.dst = int32(reg[v])
				x.typ = v.Type()
			}
			switch in := in0.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Phi:
				bc.phis = append(bc.phis, phiC{dst: x.dst, edges: os(in.Edges)})
				continue
			case *ssa.Alloc:
				x.op = iAlloc
				x.typ = in.Type().Underlying().(*types.Pointer).Elem()
			case *ssa.BinOp:
				x.tok = in.Op
				x.a, x.b = o(in.X), o(in.Y)
				x.typ = in.X.Type()
				if w, sg, ok := intInfo(in.X.Type()); ok {
					x.op = iBinInt
					x.w, x.signed = w, sg
					if in.Op == token.SHL || in.Op == token.SHR {
						w2, sg2, _ := intInfo(in.Y.Type())
						x.w2 = w2
						if sg2 {
							x.n = 1
						}
					}
				} else {
					x.op = iBinOther
				}
			case *ssa.UnOp:
				x.a = o(in.X)
				switch in.Op {
				case token.MUL:
					x.op = iLoad
					x.typ = in.Type()
					x.w, x.signed, _ = intInfo(x.typ)
					if isAgg(x.typ) {
						x.n = 1
					}
				case token.NOT:
					x.op = iUnNot
				case token.SUB:
					x.op = iUnNeg
					x.w, _, _ = intInfo(in.Type())
				case token.XOR:
					x.op = iUnXor
					x.w, _, _ = intInfo(in.Type())
				default:
					x.op = iUnsupported
					x.name = "unop " + in.Op.String()
				}
			case *ssa.Call:
				p.compCall(&x, &in.Call, o, os)
			case *ssa.Defer:
				p.compCall(&x, &in.Call, o, os)
				y := x
				x.op = iDefer
				x.typ = y.typ
				x.args = y.args
				x.in = in0
				x.n = int(y.op)
			case *ssa.Go:
				x.op = iUnsupported
				x.name = "go statement"
			case *ssa.ChangeInterface, *ssa.ChangeType:
				x.op = iCopyReg
				x.a = o(*in.(ssa.Instruction).Operands(nil)[0])
			case *ssa.Convert:
				x.a = o(in.X)
				w1, s1, ok1 := intInfo(in.X.Type())
				w2, _, ok2 := intInfo(in.Type())
				if ok1 && ok2 {
					x.op = iConvInt
					x.w, x.signed, x.w2 = w1, s1, w2
				} else {
					x.op = iConvOther
				}
			case *ssa.MultiConvert:
				x.op = iUnsupported
				x.name = "multiconvert"
			case *ssa.Extract:
				x.op = iExtract
				x.a = o(in.Tuple)
				x.n = in.Index
			case *ssa.Field:
				x.op = iField
				x.a = o(in.X)
				st := in.X.Type().Underlying().(*types.Struct)
				x.n = fieldOff(st, in.Field)
				x.m = slotsOf(st.Field(in.Field).Type())
				if isAgg(st.Field(in.Field).Type()) {
					x.w = 1
				}
			case *ssa.FieldAddr:
				x.op = iFieldAddr
				x.a = o(in.X)
				st := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
				x.n = fieldOff(st, in.Field)
			case *ssa.If:
				x.op = iIf
				x.a = o(in.Cond)
			case *ssa.Index:
				x.op = iIndex
				x.a, x.b = o(in.X), o(in.Index)
				switch t := in.X.Type().Underlying().(type) {
				case *types.Array:
					x.n = slotsOf(t.Elem())
					x.m = int(t.Len())
					if isAgg(t.Elem()) {
						x.w2 = 1
					}
				default:
					x.m = -1 // string
				}
				x.w, x.signed, _ = intInfo(in.Index.Type())
			case *ssa.IndexAddr:
				x.op = iIndexAddr
				x.a, x.b = o(in.X), o(in.Index)
				x.w, x.signed, _ = intInfo(in.Index.Type())
				switch t := in.X.Type().Underlying().(type) {
				case *types.Slice:
					x.n = slotsOf(t.Elem())
					x.m = -1
				case *types.Pointer:
					a := t.Elem().Underlying().(*types.Array)
					x.n = slotsOf(a.Elem())
					x.m = int(a.Len())
				}
			case *ssa.Jump:
				x.op = iJump
			case *ssa.Lookup:
				x.op = iLookup
				x.a, x.b = o(in.X), o(in.Index)
				if m, ok := in.X.Type().Underlying().(*types.Map); ok {
					x.typ, x.typ2 = m.Elem(), m.Key()
					x.m = 1
					if in.CommaOk {
						x.n = 1
					}
				} else {
					x.op = iIndex
					x.m = -1
					x.w, x.signed, _ = intInfo(in.Index.Type())
				}
			case *ssa.MakeClosure:
				x.op = iMakeClosure
				x.fn = in.Fn.(*ssa.Function)
				x.args = os(in.Bindings)
			case *ssa.MakeInterface:
				x.op = iMakeIface
				x.a = o(in.X)
				x.typ = in.X.Type()
			case *ssa.MakeMap:
				x.op = iMakeMap
			case *ssa.MakeSlice:
				x.op = iMakeSlice
				x.a, x.b = o(in.Len), o(in.Cap)
				x.typ = in.Type().Underlying().(*types.Slice).Elem()
				x.w, _, _ = intInfo(in.Len.Type())
				x.w2, _, _ = intInfo(in.Cap.Type())
			case *ssa.MapUpdate:
				x.op = iMapUpdate
				x.a, x.b = o(in.Map), o(in.Key)
				x.args = []opnd{o(in.Value)}
				x.typ = in.Map.Type().Underlying().(*types.Map).Key()
			case *ssa.Next:
				x.op = iNext
				x.a = o(in.Iter)
				if in.IsString {
					x.n = 1
				}
				x.typ = in.Type()
			case *ssa.Panic:
				x.op = iPanic
				x.a = o(in.X)
			case *ssa.Range:
				x.op = iRange
				x.a = o(in.X)
				if _, ok := in.X.Type().Underlying().(*types.Map); ok {
					x.n = 1
				}
			case *ssa.Return:
				x.op = iReturn
				x.args = os(in.Results)
			case *ssa.RunDefers:
				x.op = iRunDefers
			case *ssa.Slice:
				x.op = iSlice
				x.a = o(in.X)
				x.args = []opnd{o(in.Low), o(in.High), o(in.Max)}
				switch t := in.X.Type().Underlying().(type) {
				case *types.Slice:
					x.n = slotsOf(t.Elem())
					x.m = 0
				case *types.Pointer:
					a := t.Elem().Underlying().(*types.Array)
					x.n = slotsOf(a.Elem())
					x.m = 1
					x.typ = a
				default:
					x.m = 2
				}
			case *ssa.Store:
				x.op = iStore
				x.a, x.b = o(in.Addr), o(in.Val)
				x.typ = in.Val.Type()
				x.w, x.signed, _ = intInfo(x.typ)
				if isAgg(x.typ) {
					x.n = 1
				}
			case *ssa.TypeAssert:
				x.op = iTypeAssert
				x.a = o(in.X)
				x.typ = in.AssertedType
				if in.CommaOk {
					x.n = 1
				}
				if types.IsInterface(in.AssertedType) {
					x.m = 1
				}
			case *ssa.SliceToArrayPointer:
				x.op = iSliceToArrPtr
				x.a = o(in.X)
				x.n = int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			default:
				x.op = iUnsupported
				x.name = fmt.Sprintf("%T", in0)
			}
			bc.ins = append(bc.ins, x)
		}
		c.blocks = append(c.blocks, bc)
	}
	c.nblk = len(c.blocks)
}

func (p *Program) compCall(x *ins, call *ssa.CallCommon, o func(ssa.Value) opnd, os func([]ssa.Value) []opnd) {
	x.args = os(call.Args)
	if call.IsInvoke() {
		x.op = iInvoke
		x.a = o(call.Value)
		x.name = call.Method.Name()
		x.typ = nil
		return
	}
	if b, ok := call.Value.(*ssa.Builtin); ok {
		x.op = iBuiltin
		x.name = b.Name()
		if len(call.Args) > 0 {
			x.typ = call.Args[0].Type()
			switch x.name {
			case "append", "copy":
				if s, ok := x.typ.Underlying().(*types.Slice); ok {
					x.n = slotsOf(s.Elem())
				}
				if len(call.Args) > 1 && isString(call.Args[1].Type()) {
					x.m = 1
				}
			case "min", "max":
				x.w, x.signed, _ = intInfo(x.typ)
			}
		}
		return
	}
	x.op = iCall
	if f, ok := call.Value.(*ssa.Function); ok {
		x.fn = f
		x.cref = new(atomic.Pointer[Code])
		x.a = opnd{kind: oNone}
		return
	}
	x.a = o(call.Value)
}
