package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (st *State) get(f *Frame, o *opnd) Value {
	switch o.kind {
	case oReg:
		return f.regs[o.idx]
	case oConst:
		return o.val
	case oGlobal:
		return Value{R: st.global(o.idx)}
	}
	return Value{}
}

func (st *State) global(i int) *Obj {
	for i >= len(st.globals) {
		st.globals = append(st.globals, nil)
	}
	if g := st.globals[i]; g != nil {
		return g
	}
	p := st.w.prog
	p.mu.Lock()
	g := p.globals[i]
	p.mu.Unlock()
	o := newObjFor(g.Type().Underlying().(*types.Pointer).Elem(), 1)
	o.name = g.Name()
	st.globals[i] = o
	return o
}

// ---- memory

// resolve maps aliases of storage memory to the underlying object.
func (st *State) resolve(o *Obj, write bool) *Obj {
	if o.kind != kAlias {
		if write && o.kind == kBytes && o.shared {
			o.unshare()
		}
		return o
	}
	s := st.stgs[o.stg]
	sp := &s.spaces[o.space]
	if o.epoch != st.epoch && st.strict {
		st.violate("stale-accessor", fmt.Sprintf("storage accessor used after a later allocation/release, at %s", st.where()))
		return nil
	}
	u := sp.obj
	if write && u.owner != st.tok {
		n := &Obj{}
		*n = *u
		n.shared = true
		n.owner = st.tok
		n.unshare()
		sp.obj = n
		u = n
	}
	return u
}

func (st *State) loadSlot(o *Obj, off int, w uint8, typ types.Type) (Value, bool) {
	u := st.resolve(o, false)
	if u == nil {
		return Value{}, false
	}
	if u.kind == kBytes {
		if off < 0 || off >= len(u.data) {
			st.unsupported(fmt.Sprintf("load outside object (%d of %d)", off, len(u.data)))
		}
		if w == 8 || w == 0 {
			if t := u.symAt(off); t != nil {
				if t == st.w.ctx.uninit {
					u = st.resolve(o, true)
					if u == nil {
						return Value{}, false
					}
					t = st.freshByte()
					u.setByte(off, 0, t)
				}
				return Value{R: t}, true
			}
			return Value{U: uint64(u.data[off])}, true
		}
		n := int(w / 8)
		if off+n > len(u.data) {
			st.unsupported("wide load outside object")
		}
		ls := make([]*Term, n)
		for i := range ls {
			ls[i] = st.byteTerm(o, off+i)
			if ls[i] == nil {
				return Value{}, false
			}
		}
		return termV(st.w.ctx.Lanes(ls)), true
	}
	if u.kind != kSlots || off < 0 || off >= len(u.slots) {
		st.unsupported(fmt.Sprintf("load outside object (%d of %d)", off, len(u.slots)))
	}
	v := u.slots[off]
	if s, ok := v.R.(*SliceV); ok && typ != nil {
		if b, ok := typ.Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
			if s.obj == nil {
				return Value{}, true
			}
			return Value{R: ptrInt{st.baseObj(s.obj), s.off}}, true
		}
		if isString(typ) { // bytes taken for a string
			d, t, ok := st.sliceBytes(v)
			return st.mkStr(d, t), ok
		}
	}
	if typ != nil {
		if sl, ok := typ.Underlying().(*types.Slice); ok && isByteType(sl.Elem()) {
			switch v.R.(type) {
			case string, *SymStr: // a string taken for bytes
				d, t := st.strBytes(v)
				o := st.mkBytes(d, t)
				return Value{R: &SliceV{o, 0, o.size(), o.size()}}, true
			}
		}
	}
	return v, true
}

// baseObj gives a canonical identity for pointer comparison.
func (st *State) baseObj(o *Obj) *Obj {
	return o
}

func (st *State) byteTerm(o *Obj, off int) *Term {
	u := st.resolve(o, false)
	if u == nil {
		return nil
	}
	if t := u.symAt(off); t != nil {
		if t == st.w.ctx.uninit {
			u = st.resolve(o, true)
			if u == nil {
				return nil
			}
			t = st.freshByte()
			u.setByte(off, 0, t)
		}
		return t
	}
	return st.w.ctx.Const(uint64(u.data[off]), 8)
}

func (st *State) freshByte() *Term {
	st.fresh++
	return st.w.ctx.Var(fmt.Sprintf("uninit%d", st.fresh), 8)
}

func (st *State) storeSlot(o *Obj, off int, w uint8, v Value) bool {
	u := st.resolve(o, true)
	if u == nil {
		return false
	}
	if u.kind == kBytes {
		if off < 0 || off >= len(u.data) {
			st.unsupported("store outside object")
		}
		if w == 8 || w == 0 {
			if t, ok := v.R.(*Term); ok {
				u.setByte(off, 0, t)
			} else {
				u.setByte(off, byte(v.U), nil)
			}
			return true
		}
		n := int(w / 8)
		if off+n > len(u.data) {
			st.unsupported("wide store outside object")
		}
		for i := 0; i < n; i++ {
			if t, ok := v.R.(*Term); ok {
				e := st.w.ctx.Extract(t, uint8(8*i), 8)
				if e.isConst() {
					u.setByte(off+i, byte(e.k), nil)
				} else {
					u.setByte(off+i, 0, e)
				}
			} else {
				u.setByte(off+i, byte(v.U>>(8*uint(i))), nil)
			}
		}
		return true
	}
	if u.kind != kSlots || off < 0 || off >= len(u.slots) {
		st.unsupported("store outside object")
	}
	u.slots[off] = v
	return true
}

func (st *State) load(p Value, w uint8, typ types.Type, agg bool) (Value, bool) {
	o, _ := p.R.(*Obj)
	if o == nil {
		st.goPanic("nil pointer dereference")
		return Value{}, false
	}
	if !agg {
		return st.loadSlot(o, int(p.U), w, typ)
	}
	n := slotsOf(typ)
	r := make([]Value, n)
	u := st.resolve(o, false)
	if u == nil {
		return Value{}, false
	}
	if u.kind == kSlots {
		if int(p.U)+n > len(u.slots) {
			st.unsupported("aggregate load outside object")
		}
		copy(r, u.slots[int(p.U):int(p.U)+n])
		return Value{R: r}, true
	}
	for i := range r {
		v, ok := st.loadSlot(o, int(p.U)+i, 8, nil)
		if !ok {
			return Value{}, false
		}
		r[i] = v
	}
	return Value{R: r}, true
}

func (st *State) store(p Value, v Value, w uint8, agg bool) bool {
	o, _ := p.R.(*Obj)
	if o == nil {
		st.goPanic("nil pointer dereference")
		return false
	}
	if !agg {
		return st.storeSlot(o, int(p.U), w, v)
	}
	vs, _ := v.R.([]Value)
	for i, x := range vs {
		if !st.storeSlot(o, int(p.U)+i, 0, x) {
			return false
		}
	}
	return true
}

func aggZero(t types.Type) Value {
	if isAgg(t) {
		return Value{R: make([]Value, slotsOf(t))}
	}
	return Value{}
}

// sliceBytes returns the bytes of a byte slice value as concrete data and
// (when any is symbolic) terms.
func (st *State) sliceBytes(v Value) (data []byte, terms []*Term, ok bool) {
	s, _ := v.R.(*SliceV)
	if s == nil || s.len == 0 {
		return nil, nil, true
	}
	u := st.resolve(s.obj, false)
	if u == nil {
		return nil, nil, false
	}
	if u.kind != kBytes {
		st.unsupported("byte slice over non-byte object")
	}
	if !u.anySym(s.off, s.len) {
		return u.data[s.off : s.off+s.len], nil, true
	}
	terms = make([]*Term, s.len)
	for i := range terms {
		terms[i] = st.byteTerm(s.obj, s.off+i)
	}
	return nil, terms, true
}

func (st *State) toTerms(d []byte, t []*Term) []*Term {
	if t != nil {
		return t
	}
	r := make([]*Term, len(d))
	for i := range r {
		r[i] = st.w.ctx.Const(uint64(d[i]), 8)
	}
	return r
}

// strBytes gives the bytes of a string value.
func (st *State) strBytes(v Value) (data []byte, terms []*Term) {
	switch r := v.R.(type) {
	case nil:
		return nil, nil
	case string:
		return []byte(r), nil
	case *SymStr:
		return nil, r.b
	}
	panic(fmt.Sprintf("strBytes %T", v.R))
}

func strLen(v Value) int {
	switch r := v.R.(type) {
	case string:
		return len(r)
	case *SymStr:
		return len(r.b)
	}
	return 0
}

func (st *State) mkBytes(d []byte, t []*Term) *Obj {
	n := len(d)
	if t != nil {
		n = len(t)
	}
	o := newBytesObj(n)
	if t == nil {
		copy(o.data, d)
		return o
	}
	for i, x := range t {
		if x.isConst() {
			o.data[i] = byte(x.k)
		} else {
			o.setByte(i, 0, x)
		}
	}
	return o
}

func (st *State) mkStr(d []byte, t []*Term) Value {
	if t == nil {
		return strV(string(d))
	}
	allc := true
	for _, x := range t {
		if !x.isConst() {
			allc = false
			break
		}
	}
	if allc {
		b := make([]byte, len(t))
		for i, x := range t {
			b[i] = byte(x.k)
		}
		return strV(string(b))
	}
	return Value{R: &SymStr{append([]*Term(nil), t...)}}
}

// cmpBytes returns the three-way comparison of two byte strings as a 64-bit value.
func (st *State) cmpBytes(d1 []byte, t1 []*Term, d2 []byte, t2 []*Term) Value {
	if t1 == nil && t2 == nil {
		return Value{U: uint64(int64(strings.Compare(string(d1), string(d2))))}
	}
	a, b := st.toTerms(d1, t1), st.toTerms(d2, t2)
	c := st.w.ctx
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	eq := c.BytesEq(a[:n], b[:n])
	lt := c.LexLt(a[:n], b[:n])
	tail := uint64(0)
	if len(a) < len(b) {
		tail = ^uint64(0)
	} else if len(a) > len(b) {
		tail = 1
	}
	r := c.Ite(lt, c.Const(^uint64(0), 64), c.Ite(eq, c.Const(tail, 64), c.Const(1, 64)))
	return termV(r)
}

func (st *State) eqBytes(d1 []byte, t1 []*Term, d2 []byte, t2 []*Term) Value {
	n1, n2 := len(d1), len(d2)
	if t1 != nil {
		n1 = len(t1)
	}
	if t2 != nil {
		n2 = len(t2)
	}
	if n1 != n2 {
		return boolV(false)
	}
	if t1 == nil && t2 == nil {
		return boolV(string(d1) == string(d2))
	}
	return st.boolTermV(st.w.ctx.BytesEq(st.toTerms(d1, t1), st.toTerms(d2, t2)))
}

func (st *State) boolTermV(t *Term) Value {
	if t.isConst() {
		return Value{U: t.k}
	}
	return Value{R: t}
}

// ---- panics

func (st *State) goPanic(msg string) {
	v := Value{R: &IfaceV{types.Typ[types.String], strV("runtime error: " + msg)}}
	st.startPanic(v, "runtime error: "+msg)
}

func (st *State) startPanic(v Value, msg string) {
	hasDefer := false
	for _, f := range st.frames {
		if len(f.defers) > 0 || f.isDefer {
			hasDefer = true
		}
	}
	if !hasDefer {
		st.violate("panic", msg+" at "+st.where())
		return
	}
	st.panicV = &v
	st.recovered = false
	st.unwind(msg)
}

// unwind runs deferred calls of the innermost frames while panicking.
func (st *State) unwind(msg string) {
	for len(st.frames) > 0 {
		f := st.top()
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			f.panicking = true
			st.pushed = true
			st.callDeferred(d)
			return
		}
		if len(st.frames) == 1 {
			break
		}
		st.frames = st.frames[:len(st.frames)-1]
	}
	st.violate("panic", msg+" at "+st.where())
}

func (st *State) callDeferred(d deferred) {
	st.doCall(d.code, d.fv, d.args, d.in, -1)
	if !st.dead && st.pushed && len(st.frames) > 0 {
		st.top().isDefer = true
	}
}

// doCall pushes a frame or runs an intrinsic; result of an intrinsic is returned.
func (st *State) doCall(code *Code, fv Value, args []Value, in *ins, dst int32) (Value, bool) {
	if code.intr != nil {
		st.pushed = false
		v := code.intr(st, in, args)
		return v, st.pushed
	}
	if len(st.frames) > 400 {
		st.violate("panic", "stack overflow (call depth 400) at "+st.where())
		st.pushed = true
		return Value{}, true
	}
	if code.pre != nil {
		args = code.pre(st, args)
	}
	f := st.w.newFrame(code.nregs)
	f.code, f.retDst = code, dst
	copy(f.regs, args)
	if fn, ok := fv.R.(*FuncV); ok && fn != nil {
		for i, b := range fn.binds {
			f.regs[code.fvBase+i] = b
		}
	}
	f.blk = code.blocks[0]
	st.frames = append(st.frames, f)
	st.w.touch(code, 0)
	st.pushed = true
	return Value{}, true
}

func (st *State) jump(f *Frame, to int) {
	nb := f.code.blocks[to]
	if len(nb.phis) > 0 {
		pi := -1
		for i, p := range nb.preds {
			if p == f.blk.idx {
				pi = i
				break
			}
		}
		if len(nb.phis) == 1 {
			f.regs[nb.phis[0].dst] = st.get(f, &nb.phis[0].edges[pi])
		} else {
			var buf [16]Value
			tmp := buf[:0]
			for i := range nb.phis {
				tmp = append(tmp, st.get(f, &nb.phis[i].edges[pi]))
			}
			for i := range nb.phis {
				f.regs[nb.phis[i].dst] = tmp[i]
			}
		}
	}
	f.blk = nb
	f.ip = 0
	st.w.touch(f.code, to)
}

// run executes the state until it dies or finishes.
func (st *State) run() {
	w := st.w
	for !st.dead {
		if len(st.frames) == 0 {
			st.dead = true
			w.finish(st)
			return
		}
		st.steps++
		w.stats.Steps++
		if st.steps&0xffff == 0 {
			if w.deadlineHit() {
				w.noteInconclusive(st, "time budget")
				st.dead = true
				return
			}
			if st.steps > st.opLimit {
				st.violate("nontermination", fmt.Sprintf("no result after %d steps at %s", st.steps, st.where()))
				return
			}
		}
		st.step()
	}
}

func (st *State) step() {
	f := st.top()
	in := &f.blk.ins[f.ip]
	switch in.op {
	case iBinInt:
		x, y := st.get(f, &in.a), st.get(f, &in.b)
		if x.R == nil && y.R == nil {
			v, ok := concBin(in, x.U, y.U)
			if !ok {
				if in.tok == token.QUO || in.tok == token.REM {
					st.goPanic("integer divide by zero")
				} else {
					st.goPanic("negative shift amount")
				}
				return
			}
			f.regs[in.dst] = v
			f.ip++
			return
		}
		v, ok := st.symBin(in, x, y)
		if !ok {
			return
		}
		f.regs[in.dst] = v
	case iBinOther:
		v, ok := st.binOther(in, st.get(f, &in.a), st.get(f, &in.b))
		if !ok {
			return
		}
		f.regs[in.dst] = v
	case iLoad:
		v, ok := st.load(st.get(f, &in.a), in.w, in.typ, in.n == 1)
		if !ok {
			return
		}
		f.regs[in.dst] = v
	case iStore:
		if !st.store(st.get(f, &in.a), st.get(f, &in.b), in.w, in.n == 1) {
			return
		}
	case iAlloc:
		f.regs[in.dst] = Value{R: newObjFor(in.typ, 1)}
	case iFieldAddr:
		p := st.get(f, &in.a)
		if p.R == nil {
			st.goPanic("nil pointer dereference")
			return
		}
		p.U += uint64(in.n)
		f.regs[in.dst] = p
	case iIndexAddr:
		if !st.indexAddr(f, in) {
			return
		}
	case iIndex:
		if !st.index(f, in) {
			return
		}
	case iJump:
		st.jump(f, f.blk.succs[0])
		return
	case iIf:
		c := st.get(f, &in.a)
		var b bool
		if c.R == nil {
			b = c.U != 0
		} else {
			b = st.decide(c.R.(*Term))
		}
		if b {
			st.jump(f, f.blk.succs[0])
		} else {
			st.jump(f, f.blk.succs[1])
		}
		return
	case iUnNot:
		v := st.get(f, &in.a)
		if t, ok := v.R.(*Term); ok {
			v = st.boolTermV(st.w.ctx.Not(t))
		} else {
			v = boolV(v.U == 0)
		}
		f.regs[in.dst] = v
	case iUnNeg:
		v := st.get(f, &in.a)
		if t, ok := v.R.(*Term); ok {
			v = termV(st.w.ctx.Neg(t))
		} else if in.w == 0 {
			v = Value{U: math.Float64bits(-math.Float64frombits(v.U))}
		} else {
			v = Value{U: (-v.U) & mask(in.w)}
		}
		f.regs[in.dst] = v
	case iUnXor:
		v := st.get(f, &in.a)
		if t, ok := v.R.(*Term); ok {
			v = termV(st.w.ctx.BNot(t))
		} else {
			v = Value{U: (^v.U) & mask(in.w)}
		}
		f.regs[in.dst] = v
	case iCopyReg:
		f.regs[in.dst] = st.get(f, &in.a)
	case iConvInt:
		f.regs[in.dst] = st.convInt(st.get(f, &in.a), in.w, in.signed, in.w2)
	case iConvOther:
		v, ok := st.convOther(in, st.get(f, &in.a))
		if !ok {
			return
		}
		f.regs[in.dst] = v
	case iExtract:
		f.regs[in.dst] = st.get(f, &in.a).R.([]Value)[in.n]
	case iField:
		vs, _ := st.get(f, &in.a).R.([]Value)
		if in.w == 1 {
			f.regs[in.dst] = Value{R: vs[in.n : in.n+in.m : in.n+in.m]}
		} else {
			f.regs[in.dst] = vs[in.n]
		}
	case iCall:
		var code *Code
		var fv Value
		if in.fn != nil {
			code = in.cref.Load()
			if code == nil {
				code = st.w.prog.getCode(in.fn)
				in.cref.Store(code)
			}
		} else {
			fv = st.get(f, &in.a)
			fn, _ := fv.R.(*FuncV)
			if fn == nil {
				st.goPanic("nil function call")
				return
			}
			code = st.w.codeOf(fn.fn)
		}
		args := st.args(f, in.args)
		st.finishCall(f, in, code, fv, args)
		return
	case iInvoke:
		recv := st.get(f, &in.a)
		iv, _ := recv.R.(*IfaceV)
		if iv == nil {
			st.goPanic("nil interface method call")
			return
		}
		code := st.w.method(iv.t, in.name, in)
		args := make([]Value, 0, len(in.args)+1)
		args = append(args, iv.v)
		for i := range in.args {
			args = append(args, st.get(f, &in.args[i]))
		}
		st.finishCall(f, in, code, Value{}, args)
		return
	case iBuiltin:
		args := st.args(f, in.args)
		st.pushed = false
		v := st.builtin(in, args)
		if st.dead || st.pushed {
			return
		}
		f.regs[in.dst] = v
	case iReturn:
		var rv Value
		switch len(in.args) {
		case 0:
		case 1:
			rv = st.get(f, &in.args[0])
		default:
			rv = Value{R: st.args(f, in.args)}
		}
		st.ret(f, rv)
		return
	case iMakeClosure:
		f.regs[in.dst] = Value{R: &FuncV{in.fn, st.args(f, in.args)}}
	case iMakeIface:
		f.regs[in.dst] = Value{R: &IfaceV{in.typ, st.get(f, &in.a)}}
	case iMakeMap:
		f.regs[in.dst] = Value{R: &MapV{&Obj{kind: kMap, mkeys: map[string]int{}}}}
	case iMakeSlice:
		l := st.get(f, &in.a)
		c := st.get(f, &in.b)
		ln := sext64(st.conc(l), in.w)
		cp := sext64(st.conc(c), in.w2)
		if ln < 0 || cp < ln || cp > 1<<31 {
			st.goPanic("makeslice: len or cap out of range")
			return
		}
		f.regs[in.dst] = Value{R: &SliceV{newObjFor(in.typ, int(cp)), 0, int(ln), int(cp)}}
	case iSlice:
		if !st.slice(f, in) {
			return
		}
	case iSliceToArrPtr:
		s, _ := st.get(f, &in.a).R.(*SliceV)
		l := 0
		if s != nil {
			l = s.len
		}
		if l < in.n {
			st.goPanic("slice to array pointer: length out of range")
			return
		}
		if s == nil {
			f.regs[in.dst] = Value{}
		} else {
			f.regs[in.dst] = Value{U: uint64(s.off), R: s.obj}
		}
	case iTypeAssert:
		if !st.typeAssert(f, in) {
			return
		}
	case iPanic:
		v := st.get(f, &in.a)
		st.startPanic(v, "panic: "+st.panicText(v))
		return
	case iDefer:
		var d deferred
		d.in = in
		d.op = insOp(in.n)
		switch d.op {
		case iInvoke:
			recv := st.get(f, &in.a)
			iv, _ := recv.R.(*IfaceV)
			if iv == nil {
				st.goPanic("nil interface method call")
				return
			}
			d.code = st.w.method(iv.t, in.name, in)
			d.args = append([]Value{iv.v}, st.args(f, in.args)...)
		case iCall:
			if in.fn != nil {
				d.code = st.w.codeOf(in.fn)
			} else {
				d.fv = st.get(f, &in.a)
				fn, _ := d.fv.R.(*FuncV)
				if fn == nil {
					st.goPanic("nil function deferred")
					return
				}
				d.code = st.w.codeOf(fn.fn)
			}
			d.args = st.args(f, in.args)
		default:
			st.unsupported("defer of builtin")
		}
		f.defers = append(f.defers, d)
	case iRunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			// re-executes RunDefers afterwards
			_, pushed := st.doCall(d.code, d.fv, d.args, d.in, -1)
			if pushed && !st.dead {
				st.top().isDefer = true
			}
			return
		}
	case iLookup:
		if !st.lookup(f, in) {
			return
		}
	case iMapUpdate:
		m, _ := st.get(f, &in.a).R.(*MapV)
		if m == nil {
			st.goPanic("assignment to entry in nil map")
			return
		}
		k := st.get(f, &in.b)
		v := st.get(f, &in.args[0])
		if i := st.mapFind(m, k, in.typ); i >= 0 {
			m.obj.ents[i].val = v
		} else {
			if ks, ok := mapKey(k); ok {
				m.obj.mkeys[ks] = len(m.obj.ents)
			} else {
				m.obj.msym++
			}
			m.obj.ents = append(m.obj.ents, mapEntry{key: k, val: v})
		}
	case iRange:
		if in.n == 1 {
			m, _ := st.get(f, &in.a).R.(*MapV)
			it := &mapIter{}
			if m != nil {
				it.obj = m.obj
			}
			f.regs[in.dst] = Value{R: it}
		} else {
			s, ok := st.get(f, &in.a).str()
			if !ok {
				st.unsupported("range over symbolic string")
			}
			f.regs[in.dst] = Value{R: &mapIter{s: s, isStr: true}}
		}
	case iNext:
		it := st.get(f, &in.a).R.(*mapIter)
		if it.isStr {
			if it.i >= len(it.s) {
				f.regs[in.dst] = Value{R: []Value{{}, {}, {}}}
			} else {
				for j, r := range it.s[it.i:] {
					_ = j
					f.regs[in.dst] = Value{R: []Value{boolV(true), intV(it.i), {U: uint64(uint32(r))}}}
					it2 := *it
					it.i += len(string(r))
					_ = it2
					break
				}
			}
		} else {
			for it.obj != nil && it.i < len(it.obj.ents) && it.obj.ents[it.i].dead {
				it.i++
			}
			if it.obj == nil || it.i >= len(it.obj.ents) {
				f.regs[in.dst] = Value{R: []Value{{}, {}, {}}}
			} else {
				e := it.obj.ents[it.i]
				it.i++
				f.regs[in.dst] = Value{R: []Value{boolV(true), e.key, e.val}}
			}
		}
	default:
		st.unsupported("instruction " + in.name)
	}
	if st.dead {
		return
	}
	f.ip++
}

type mapIter struct {
	obj   *Obj
	i     int
	s     string
	isStr bool
}

func (st *State) args(f *Frame, os []opnd) []Value {
	r := make([]Value, len(os))
	for i := range os {
		r[i] = st.get(f, &os[i])
	}
	return r
}

func (st *State) finishCall(f *Frame, in *ins, code *Code, fv Value, args []Value) {
	v, pushed := st.doCall(code, fv, args, in, in.dst)
	if st.dead || pushed {
		return
	}
	if in.dst >= 0 {
		f.regs[in.dst] = v
	}
	f.ip++
}

func (st *State) ret(f *Frame, rv Value) {
	if f.tail != nil {
		rv = f.tail(st, rv)
	}
	st.frames = st.frames[:len(st.frames)-1]
	if len(st.frames) == 0 {
		return
	}
	c := st.top()
	if f.isDefer {
		if c.panicking {
			if st.recovered {
				c.panicking = false
				st.recovered = false
				st.panicV = nil
				if c.code.recov >= 0 {
					c.blk = c.code.blocks[c.code.recov]
					c.ip = 0
				} else {
					st.ret(c, zeroResults(c.code.fn))
				}
				return
			}
			st.unwind("panic: " + st.panicText(*st.panicV))
		}
		return // RunDefers is re-executed
	}
	if f.retDst >= 0 {
		c.regs[f.retDst] = rv
	}
	c.ip++
	st.w.freeFrame(f)
}

// Frames that returned normally are used again.
func (w *Worker) newFrame(n int) *Frame {
	if n < len(w.frames) {
		if l := w.frames[n]; len(l) > 0 {
			f := l[len(l)-1]
			w.frames[n] = l[:len(l)-1]
			return f
		}
	}
	return &Frame{regs: make([]Value, n)}
}

func (w *Worker) freeFrame(f *Frame) {
	n := len(f.regs)
	if f.defers != nil || n >= len(w.frames) || len(w.frames[n]) >= 64 {
		return
	}
	clear(f.regs)
	*f = Frame{regs: f.regs}
	w.frames[n] = append(w.frames[n], f)
}

func zeroResults(fn *ssa.Function) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return Value{}
	case 1:
		return aggZero(res.At(0).Type())
	}
	r := make([]Value, res.Len())
	for i := range r {
		r[i] = aggZero(res.At(i).Type())
	}
	return Value{R: r}
}

func (st *State) panicText(v Value) string {
	iv, _ := v.R.(*IfaceV)
	if iv == nil {
		return "nil"
	}
	if s, ok := iv.v.str(); ok && isString(iv.t) {
		return s
	}
	// errors.errorString
	if o, ok := iv.v.R.(*Obj); ok && o.kind == kSlots && len(o.slots) == 1 {
		if s, ok := o.slots[0].str(); ok {
			return s
		}
	}
	return iv.t.String()
}

func concBin(in *ins, x, y uint64) (Value, bool) {
	w := in.w
	m := mask(w)
	switch in.tok {
	case token.ADD:
		return Value{U: (x + y) & m}, true
	case token.SUB:
		return Value{U: (x - y) & m}, true
	case token.MUL:
		return Value{U: (x * y) & m}, true
	case token.QUO:
		if y == 0 {
			return Value{}, false
		}
		if in.signed {
			r, _ := foldBin(OpSdiv, x, y, w)
			return Value{U: r}, true
		}
		return Value{U: x / y}, true
	case token.REM:
		if y == 0 {
			return Value{}, false
		}
		if in.signed {
			r, _ := foldBin(OpSrem, x, y, w)
			return Value{U: r}, true
		}
		return Value{U: x % y}, true
	case token.AND:
		return Value{U: x & y}, true
	case token.OR:
		return Value{U: x | y}, true
	case token.XOR:
		return Value{U: x ^ y}, true
	case token.AND_NOT:
		return Value{U: x &^ y}, true
	case token.SHL, token.SHR:
		if in.n == 1 && sext64(y, in.w2) < 0 {
			return Value{}, false
		}
		op := OpShl
		if in.tok == token.SHR {
			op = OpLshr
			if in.signed {
				op = OpAshr
			}
		}
		r, _ := foldBin(op, x, y, w)
		return Value{U: r}, true
	case token.EQL:
		return boolV(x == y), true
	case token.NEQ:
		return boolV(x != y), true
	}
	if in.signed {
		a, b := sext64(x, w), sext64(y, w)
		switch in.tok {
		case token.LSS:
			return boolV(a < b), true
		case token.LEQ:
			return boolV(a <= b), true
		case token.GTR:
			return boolV(a > b), true
		case token.GEQ:
			return boolV(a >= b), true
		}
	}
	switch in.tok {
	case token.LSS:
		return boolV(x < y), true
	case token.LEQ:
		return boolV(x <= y), true
	case token.GTR:
		return boolV(x > y), true
	case token.GEQ:
		return boolV(x >= y), true
	}
	panic("concBin " + in.tok.String())
}

func (st *State) symBin(in *ins, x, y Value) (Value, bool) {
	c := st.w.ctx
	w := in.w
	// pointer-as-integer
	if px, ok := x.R.(ptrInt); ok {
		return st.ptrIntBin(in, px, y)
	}
	if py, ok := y.R.(ptrInt); ok {
		return st.ptrIntBin(in, py, x)
	}
	if in.tok == token.SHL || in.tok == token.SHR {
		n := st.conc(y)
		y = Value{U: n}
		if x.R == nil {
			v, ok := concBin(in, x.U, n)
			if !ok {
				st.goPanic("negative shift amount")
			}
			return v, ok
		}
		if in.n == 1 && sext64(n, in.w2) < 0 {
			st.goPanic("negative shift amount")
			return Value{}, false
		}
		t := st.term(x, w)
		if n >= uint64(w) {
			if in.tok == token.SHR && in.signed {
				n = uint64(w) - 1
			} else {
				return Value{}, true
			}
		}
		op := OpShl
		if in.tok == token.SHR {
			op = OpLshr
			if in.signed {
				op = OpAshr
			}
		}
		return termV(c.Bin(op, t, c.Const(n, w))), true
	}
	a, b := st.term(x, w), st.term(y, w)
	var r *Term
	switch in.tok {
	case token.ADD:
		r = c.Bin(OpAdd, a, b)
	case token.SUB:
		r = c.Bin(OpSub, a, b)
	case token.MUL:
		r = c.Bin(OpMul, a, b)
	case token.QUO, token.REM:
		if st.decide(c.Eq(b, c.Const(0, w))) {
			st.goPanic("integer divide by zero")
			return Value{}, false
		}
		op := map[bool]map[token.Token]Op{true: {token.QUO: OpSdiv, token.REM: OpSrem}, false: {token.QUO: OpUdiv, token.REM: OpUrem}}[in.signed][in.tok]
		r = c.Bin(op, a, b)
	case token.AND:
		r = c.Bin(OpBAnd, a, b)
	case token.OR:
		r = c.Bin(OpBOr, a, b)
	case token.XOR:
		r = c.Bin(OpBXor, a, b)
	case token.AND_NOT:
		r = c.Bin(OpBAnd, a, c.BNot(b))
	case token.EQL:
		return st.boolTermV(c.Eq(a, b)), true
	case token.NEQ:
		return st.boolTermV(c.Not(c.Eq(a, b))), true
	default:
		lt := c.Ult
		if in.signed {
			lt = c.Slt
		}
		switch in.tok {
		case token.LSS:
			return st.boolTermV(lt(a, b)), true
		case token.GTR:
			return st.boolTermV(lt(b, a)), true
		case token.LEQ:
			return st.boolTermV(c.Not(lt(b, a))), true
		case token.GEQ:
			return st.boolTermV(c.Not(lt(a, b))), true
		}
		panic("symBin")
	}
	return termV(r), true
}

func (st *State) ptrIntBin(in *ins, p ptrInt, y Value) (Value, bool) {
	q, ok := y.R.(ptrInt)
	eq := ok && st.samePtr(p.obj, p.off, q.obj, q.off)
	switch in.tok {
	case token.EQL:
		return boolV(eq), true
	case token.NEQ:
		return boolV(!eq), true
	}
	st.unsupported("pointer arithmetic through uintptr")
	return Value{}, false
}

func (st *State) samePtr(a *Obj, ao int, b *Obj, bo int) bool {
	if ao != bo {
		return false
	}
	if a == b {
		return true
	}
	if a != nil && b != nil && a.kind == kAlias && b.kind == kAlias {
		return a.stg == b.stg && a.space == b.space
	}
	return false
}

func (st *State) binOther(in *ins, x, y Value) (Value, bool) {
	t := in.typ
	c := st.w.ctx
	switch {
	case isBool(t):
		a, b := st.boolTerm(x), st.boolTerm(y)
		var r *Term
		switch in.tok {
		case token.EQL:
			r = c.Eq(a, b)
		case token.NEQ:
			r = c.Not(c.Eq(a, b))
		case token.AND:
			r = c.And(a, b)
		case token.OR:
			r = c.Or(a, b)
		default:
			st.unsupported("bool op")
		}
		return st.boolTermV(r), true
	case isString(t):
		d1, t1 := st.strBytes(x)
		d2, t2 := st.strBytes(y)
		switch in.tok {
		case token.ADD:
			if t1 == nil && t2 == nil {
				return strV(string(d1) + string(d2)), true
			}
			return st.mkStr(nil, append(append([]*Term(nil), st.toTerms(d1, t1)...), st.toTerms(d2, t2)...)), true
		case token.EQL:
			return st.eqBytes(d1, t1, d2, t2), true
		case token.NEQ:
			v := st.eqBytes(d1, t1, d2, t2)
			return st.boolTermV(c.Not(st.boolTerm(v))), true
		}
		cv := st.cmpBytes(d1, t1, d2, t2)
		ct := st.term(cv, 64)
		z := c.Const(0, 64)
		switch in.tok {
		case token.LSS:
			return st.boolTermV(c.Slt(ct, z)), true
		case token.GTR:
			return st.boolTermV(c.Slt(z, ct)), true
		case token.LEQ:
			return st.boolTermV(c.Not(c.Slt(z, ct))), true
		case token.GEQ:
			return st.boolTermV(c.Not(c.Slt(ct, z))), true
		}
	case isFloat(t):
		a, b := math.Float64frombits(x.U), math.Float64frombits(y.U)
		if x.R != nil || y.R != nil {
			st.unsupported("symbolic float")
		}
		switch in.tok {
		case token.ADD:
			return Value{U: math.Float64bits(a + b)}, true
		case token.SUB:
			return Value{U: math.Float64bits(a - b)}, true
		case token.MUL:
			return Value{U: math.Float64bits(a * b)}, true
		case token.QUO:
			return Value{U: math.Float64bits(a / b)}, true
		case token.LSS:
			return boolV(a < b), true
		case token.GTR:
			return boolV(a > b), true
		case token.LEQ:
			return boolV(a <= b), true
		case token.GEQ:
			return boolV(a >= b), true
		case token.EQL:
			return boolV(a == b), true
		case token.NEQ:
			return boolV(a != b), true
		}
	}
	var r Value
	switch in.tok {
	case token.EQL:
		r = st.eqVal(x, y, t)
	case token.NEQ:
		r = st.boolTermV(c.Not(st.boolTerm(st.eqVal(x, y, t))))
	default:
		st.unsupported("binop " + in.tok.String() + " on " + t.String())
	}
	return r, true
}

func (st *State) eqVal(x, y Value, t types.Type) Value {
	c := st.w.ctx
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if isString(t) {
			d1, t1 := st.strBytes(x)
			d2, t2 := st.strBytes(y)
			return st.eqBytes(d1, t1, d2, t2)
		}
		if isBool(t) {
			return st.boolTermV(c.Eq(st.boolTerm(x), st.boolTerm(y)))
		}
		if w, _, ok := intInfo(t); ok {
			if px, ok := x.R.(ptrInt); ok {
				py, ok := y.R.(ptrInt)
				return boolV(ok && st.samePtr(px.obj, px.off, py.obj, py.off))
			}
			return st.boolTermV(c.Eq(st.term(x, w), st.term(y, w)))
		}
		if isFloat(t) {
			return boolV(math.Float64frombits(x.U) == math.Float64frombits(y.U))
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return st.eqPtr(x, y)
		}
	case *types.Pointer:
		return st.eqPtr(x, y)
	case *types.Slice, *types.Map, *types.Signature, *types.Chan:
		// only comparable with nil
		return boolV(x.R == nil && y.R == nil)
	case *types.Interface:
		a, _ := x.R.(*IfaceV)
		b, _ := y.R.(*IfaceV)
		if a == nil || b == nil {
			return boolV(a == nil && b == nil)
		}
		if !types.Identical(a.t, b.t) {
			return boolV(false)
		}
		return st.eqVal(a.v, b.v, a.t)
	case *types.Struct:
		xs, _ := x.R.([]Value)
		ys, _ := y.R.([]Value)
		r := c.tTrue
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			n := slotsOf(ft)
			var a, b Value
			if isAgg(ft) {
				a, b = Value{R: xs[off : off+n]}, Value{R: ys[off : off+n]}
			} else {
				a, b = xs[off], ys[off]
			}
			r = c.And(r, st.boolTerm(st.eqVal(a, b, ft)))
			off += n
		}
		return st.boolTermV(r)
	case *types.Array:
		xs, _ := x.R.([]Value)
		ys, _ := y.R.([]Value)
		n := slotsOf(u.Elem())
		r := c.tTrue
		for i := 0; i < int(u.Len()); i++ {
			var a, b Value
			if isAgg(u.Elem()) {
				a, b = Value{R: xs[i*n : i*n+n]}, Value{R: ys[i*n : i*n+n]}
			} else {
				a, b = xs[i], ys[i]
			}
			r = c.And(r, st.boolTerm(st.eqVal(a, b, u.Elem())))
		}
		return st.boolTermV(r)
	}
	st.unsupported("== on " + t.String())
	return Value{}
}

func (st *State) eqPtr(x, y Value) Value {
	a, _ := x.R.(*Obj)
	b, _ := y.R.(*Obj)
	if a == nil || b == nil {
		return boolV(a == nil && b == nil)
	}
	return boolV(st.samePtr(a, int(x.U), b, int(y.U)))
}

func (st *State) convInt(v Value, w1 uint8, signed bool, w2 uint8) Value {
	c := st.w.ctx
	switch t := v.R.(type) {
	case nil:
		if signed {
			return Value{U: uint64(sext64(v.U, w1)) & mask(w2)}
		}
		return Value{U: v.U & mask(w2)}
	case *Term:
		if w2 < w1 {
			return termV(c.Extract(t, 0, w2))
		}
		if w2 == w1 {
			return v
		}
		if signed {
			return termV(c.Sext(t, w2))
		}
		return termV(c.Zext(t, w2))
	case ptrInt:
		return v
	}
	st.unsupported("integer conversion")
	return v
}

func (st *State) convOther(in *ins, v Value) (Value, bool) {
	cv := in.in.(*ssa.Convert)
	from, to := cv.X.Type(), cv.Type()
	fu, tu := from.Underlying(), to.Underlying()
	if isString(from) {
		if s, ok := tu.(*types.Slice); ok {
			if isByteType(s.Elem()) {
				d, t := st.strBytes(v)
				o := st.mkBytes(d, t)
				return Value{R: &SliceV{o, 0, o.size(), o.size()}}, true
			}
			str, ok := v.str()
			if ok {
				rs := []rune(str)
				o := &Obj{kind: kSlots, slots: make([]Value, len(rs))}
				for i, r := range rs {
					o.slots[i] = Value{U: uint64(uint32(r))}
				}
				return Value{R: &SliceV{o, 0, len(rs), len(rs)}}, true
			}
		}
		if isString(to) {
			return v, true
		}
	}
	if isString(to) {
		if s, ok := fu.(*types.Slice); ok && isByteType(s.Elem()) {
			d, t, ok := st.sliceBytes(v)
			if !ok {
				return Value{}, false
			}
			return st.mkStr(d, t), true
		}
		if _, _, ok := intInfo(from); ok {
			return strV(string(rune(st.conc(v)))), true
		}
	}
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	if fok && fb.Kind() == types.UnsafePointer || tok && tb.Kind() == types.UnsafePointer {
		// pointer <-> unsafe.Pointer <-> uintptr
		if p, ok := v.R.(ptrInt); ok {
			return Value{U: uint64(p.off), R: p.obj}, true
		}
		if tok && tb.Kind() == types.Uintptr {
			if o, ok := v.R.(*Obj); ok && o != nil {
				return Value{R: ptrInt{o, int(v.U)}}, true
			}
			return Value{}, true
		}
		return v, true
	}
	if isFloat(from) && isFloat(to) {
		if tb.Kind() == types.Float32 {
			return Value{U: math.Float64bits(float64(float32(math.Float64frombits(v.U))))}, true
		}
		return v, true
	}
	if w, sg, ok := intInfo(from); ok && isFloat(to) {
		u := st.conc(v)
		if sg {
			return Value{U: math.Float64bits(float64(sext64(u, w)))}, true
		}
		return Value{U: math.Float64bits(float64(u))}, true
	}
	if w, sg, ok := intInfo(to); ok && isFloat(from) {
		fl := math.Float64frombits(v.U)
		if sg {
			return Value{U: uint64(int64(fl)) & mask(w)}, true
		}
		return Value{U: uint64(fl) & mask(w)}, true
	}
	st.unsupported("conversion " + from.String() + " -> " + to.String())
	return Value{}, false
}

// checkIndex makes idx concrete after checking 0 <= idx < n.
func (st *State) checkIndex(v Value, w uint8, signed bool, n int) (int, bool) {
	if t, ok := v.R.(*Term); ok {
		c := st.w.ctx
		tw := t
		if w < 64 {
			if signed {
				tw = c.Sext(t, 64)
			} else {
				tw = c.Zext(t, 64)
			}
		}
		if !st.decide(c.Ult(tw, c.Const(uint64(n), 64))) {
			st.goPanic(fmt.Sprintf("index out of range (symbolic) with length %d", n))
			return 0, false
		}
		return int(st.conc(v)), true
	}
	i := int64(v.U)
	if signed {
		i = sext64(v.U, w)
	}
	if i < 0 || i >= int64(n) {
		st.goPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		return 0, false
	}
	return int(i), true
}

func (st *State) indexAddr(f *Frame, in *ins) bool {
	x := st.get(f, &in.a)
	idx := st.get(f, &in.b)
	if in.m >= 0 {
		o, _ := x.R.(*Obj)
		if o == nil {
			st.goPanic("nil pointer dereference")
			return false
		}
		i, ok := st.checkIndex(idx, in.w, in.signed, in.m)
		if !ok {
			return false
		}
		f.regs[in.dst] = Value{U: x.U + uint64(i*in.n), R: o}
		return true
	}
	s, _ := x.R.(*SliceV)
	l := 0
	if s != nil {
		l = s.len
	}
	i, ok := st.checkIndex(idx, in.w, in.signed, l)
	if !ok {
		return false
	}
	f.regs[in.dst] = Value{U: uint64(s.off + i*in.n), R: s.obj}
	return true
}

func (st *State) index(f *Frame, in *ins) bool {
	x := st.get(f, &in.a)
	idx := st.get(f, &in.b)
	if in.m < 0 { // string
		n := strLen(x)
		if str, ok := x.R.(string); ok {
			if t, sym := idx.R.(*Term); sym && n <= 256 {
				c := st.w.ctx
				tw := t
				if in.w < 64 {
					tw = c.Zext(t, 64)
				}
				if !st.decide(c.Ult(tw, c.Const(uint64(n), 64))) {
					st.goPanic("string index out of range")
					return false
				}
				// table lookup as an ite chain when small
				r := c.Const(uint64(str[n-1]), 8)
				for i := n - 2; i >= 0; i-- {
					r = c.Ite(c.Eq(tw, c.Const(uint64(i), 64)), c.Const(uint64(str[i]), 8), r)
				}
				f.regs[in.dst] = termV(r)
				return true
			}
		}
		i, ok := st.checkIndex(idx, in.w, in.signed, n)
		if !ok {
			return false
		}
		switch r := x.R.(type) {
		case string:
			f.regs[in.dst] = Value{U: uint64(r[i])}
		case *SymStr:
			f.regs[in.dst] = termV(r.b[i])
		}
		return true
	}
	i, ok := st.checkIndex(idx, in.w, in.signed, in.m)
	if !ok {
		return false
	}
	vs := x.R.([]Value)
	if in.w2 == 1 {
		f.regs[in.dst] = Value{R: vs[i*in.n : i*in.n+in.n : i*in.n+in.n]}
	} else {
		f.regs[in.dst] = vs[i*in.n]
	}
	return true
}

func (st *State) slice(f *Frame, in *ins) bool {
	x := st.get(f, &in.a)
	lo, hi, mx := st.get(f, &in.args[0]), st.get(f, &in.args[1]), st.get(f, &in.args[2])
	has := func(i int) bool { return in.args[i].kind != oNone }
	var obj *Obj
	var off, ln, cp int
	isStr := false
	switch in.m {
	case 0:
		if s, _ := x.R.(*SliceV); s != nil {
			obj, off, ln, cp = s.obj, s.off, s.len, s.cap
		}
	case 1:
		o, _ := x.R.(*Obj)
		if o == nil {
			st.goPanic("nil pointer dereference")
			return false
		}
		obj, off = o, int(x.U)
		ln = int(in.typ.(*types.Array).Len())
		cp = ln
	case 2:
		isStr = true
		ln = strLen(x)
		cp = ln
	}
	c := st.w.ctx
	// bounds: 0 <= lo <= hi <= max <= cap
	get := func(v Value, def int) (Value, bool) { return v, v.R != nil }
	_ = get
	hv, mv, lv := hi, mx, lo
	if !has(0) {
		lv = intV(0)
	}
	if !has(1) {
		hv = intV(ln)
	}
	if !has(2) {
		mv = intV(cp)
	}
	if lv.R == nil && hv.R == nil && mv.R == nil {
		l, h, m := int64(lv.U), int64(hv.U), int64(mv.U)
		if m < 0 || m > int64(cp) || h < 0 || h > m || l < 0 || l > h {
			st.goPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, m, cp))
			return false
		}
	} else {
		lt, ht, mt := st.term(lv, 64), st.term(hv, 64), st.term(mv, 64)
		ok := c.And(c.Not(c.Ult(c.Const(uint64(cp), 64), mt)), c.And(c.Not(c.Ult(mt, ht)), c.Not(c.Ult(ht, lt))))
		if !st.decide(ok) {
			st.goPanic(fmt.Sprintf("slice bounds out of range (symbolic) with capacity %d", cp))
			return false
		}
		lv, hv, mv = Value{U: st.conc(lv)}, Value{U: st.conc(hv)}, Value{U: st.conc(mv)}
	}
	l, h, m := int(lv.U), int(hv.U), int(mv.U)
	if isStr {
		switch r := x.R.(type) {
		case string:
			f.regs[in.dst] = strV(r[l:h])
		case *SymStr:
			f.regs[in.dst] = st.mkStr(nil, r.b[l:h])
		default:
			f.regs[in.dst] = Value{}
		}
		return true
	}
	if obj == nil {
		f.regs[in.dst] = Value{}
		return true
	}
	f.regs[in.dst] = Value{R: &SliceV{obj, off + l*in.n, h - l, m - l}}
	return true
}

func (st *State) typeAssert(f *Frame, in *ins) bool {
	iv, _ := st.get(f, &in.a).R.(*IfaceV)
	ok := false
	if iv != nil {
		if in.m == 1 {
			ok = types.Implements(iv.t, in.typ.Underlying().(*types.Interface))
		} else {
			ok = types.Identical(iv.t, in.typ)
		}
	}
	var v Value
	if ok {
		if in.m == 1 {
			v = Value{R: iv}
		} else {
			v = iv.v
		}
	} else {
		v = aggZero(in.in.(*ssa.TypeAssert).AssertedType)
	}
	if in.n == 1 {
		f.regs[in.dst] = Value{R: []Value{v, boolV(ok)}}
		return true
	}
	if !ok {
		st.goPanic("interface conversion: wrong dynamic type")
		return false
	}
	f.regs[in.dst] = v
	return true
}

// mapKey returns the index of a key that holds no symbolic part and no pointer.
func mapKey(k Value) (string, bool) {
	switch r := k.R.(type) {
	case nil:
		return "i" + strconv.FormatUint(k.U, 10), true
	case string:
		return "s" + r, true
	case []Value:
		var sb strings.Builder
		for _, x := range r {
			s, ok := mapKey(x)
			if !ok {
				return "", false
			}
			sb.WriteString(strconv.Itoa(len(s)) + ":" + s)
		}
		return "a" + sb.String(), true
	case *IfaceV:
		s, ok := mapKey(r.v)
		return "f" + r.t.String() + ":" + s, ok
	case *SymStr:
		if len(r.b) == 0 {
			return "i0", true
		}
		for _, t := range r.b {
			if !t.isConst() {
				return "", false
			}
		}
		b := make([]byte, len(r.b))
		for i, t := range r.b {
			b[i] = byte(t.k)
		}
		return "s" + string(b), true
	}
	return "", false
}

// mapFind returns the index of the entry whose key equals k, or -1. Symbolic
// keys are compared with the entries one by one, each comparison deciding a branch.
func (st *State) mapFind(m *MapV, k Value, kt types.Type) int {
	ks, simple := mapKey(k)
	if simple {
		if i, ok := m.obj.mkeys[ks]; ok {
			return i
		}
		if m.obj.msym == 0 {
			return -1
		}
	}
	for i := range m.obj.ents {
		e := &m.obj.ents[i]
		if e.dead {
			continue
		}
		if simple {
			if _, s := mapKey(e.key); s {
				continue
			}
		}
		if st.boolOf(st.eqVal(e.key, k, kt)) {
			return i
		}
	}
	return -1
}

func (st *State) lookup(f *Frame, in *ins) bool {
	m, _ := st.get(f, &in.a).R.(*MapV)
	v := aggZero(in.typ)
	ok := false
	if m != nil {
		if i := st.mapFind(m, st.get(f, &in.b), in.typ2); i >= 0 {
			v = m.obj.ents[i].val
			ok = true
		}
	}
	if in.n == 1 {
		f.regs[in.dst] = Value{R: []Value{v, boolV(ok)}}
	} else {
		f.regs[in.dst] = v
	}
	return true
}

func (st *State) builtin(in *ins, args []Value) Value {
	switch in.name {
	case "len", "cap":
		switch r := args[0].R.(type) {
		case nil:
			if a, ok := in.typ.Underlying().(*types.Array); ok {
				return intV(int(a.Len()))
			}
			return Value{}
		case *SliceV:
			if in.name == "cap" {
				return intV(r.cap)
			}
			return intV(r.len)
		case string:
			return intV(len(r))
		case *SymStr:
			return intV(len(r.b))
		case *MapV:
			n := 0
			for _, e := range r.obj.ents {
				if !e.dead {
					n++
				}
			}
			return intV(n)
		case []Value:
			if a, ok := in.typ.Underlying().(*types.Array); ok {
				return intV(int(a.Len()))
			}
		case *Obj:
			if p, ok := in.typ.Underlying().(*types.Pointer); ok {
				return intV(int(p.Elem().Underlying().(*types.Array).Len()))
			}
		}
		st.unsupported("len")
	case "copy":
		d, _ := args[0].R.(*SliceV)
		if in.m == 1 {
			sd, stt := st.strBytes(args[1])
			o := st.mkBytes(sd, stt)
			return intV(st.copySlice(d, &SliceV{o, 0, o.size(), o.size()}, in.n))
		}
		s, _ := args[1].R.(*SliceV)
		return intV(st.copySlice(d, s, in.n))
	case "append":
		d, _ := args[0].R.(*SliceV)
		var s *SliceV
		if len(args) > 1 {
			if in.m == 1 {
				sd, stt := st.strBytes(args[1])
				o := st.mkBytes(sd, stt)
				s = &SliceV{o, 0, o.size(), o.size()}
			} else {
				s, _ = args[1].R.(*SliceV)
			}
		}
		if s == nil || s.len == 0 {
			return args[0]
		}
		dl, dc := 0, 0
		if d != nil {
			dl, dc = d.len, d.cap
		}
		nl := dl + s.len
		var out *SliceV
		if nl <= dc {
			out = &SliceV{d.obj, d.off, nl, dc}
		} else {
			nc := dc * 2
			if nc < nl {
				nc = nl
			}
			if nc < 4 {
				nc = 4
			}
			o := newObjFor(in.typ.Underlying().(*types.Slice).Elem(), nc)
			out = &SliceV{o, 0, nl, nc}
			if d != nil {
				st.copySlice(&SliceV{o, 0, dl, nc}, d, in.n)
			}
		}
		if st.dead {
			return Value{}
		}
		st.copySlice(&SliceV{out.obj, out.off + dl*in.n, s.len, s.len}, s, in.n)
		return Value{R: out}
	case "delete":
		m, _ := args[0].R.(*MapV)
		if m != nil {
			if i := st.mapFind(m, args[1], in.typ.Underlying().(*types.Map).Key()); i >= 0 {
				if ks, ok := mapKey(m.obj.ents[i].key); ok {
					delete(m.obj.mkeys, ks)
				} else {
					m.obj.msym--
				}
				m.obj.ents[i].dead = true
				m.obj.ents[i].key = Value{}
				m.obj.ents[i].val = Value{}
			}
		}
		return Value{}
	case "recover":
		if st.panicV != nil && !st.recovered {
			st.recovered = true
			return *st.panicV
		}
		return Value{}
	case "String":
		n := int(st.conc(args[1]))
		if n == 0 {
			return Value{}
		}
		o, _ := args[0].R.(*Obj)
		if o == nil {
			st.unsupported("unsafe.String of nil")
		}
		d, t, ok := st.sliceBytes(Value{R: &SliceV{o, int(args[0].U), n, n}})
		if !ok {
			return Value{}
		}
		return st.mkStr(d, t)
	case "StringData":
		d, t := st.strBytes(args[0])
		return Value{R: st.mkBytes(d, t)}
	case "SliceData":
		if s, _ := args[0].R.(*SliceV); s != nil {
			return Value{R: s.obj, U: uint64(s.off)}
		}
		return Value{}
	case "Slice":
		n := int(st.conc(args[1]))
		if o, _ := args[0].R.(*Obj); o != nil {
			return Value{R: &SliceV{o, int(args[0].U), n, n}}
		}
		return Value{}
	case "min", "max":
		r := args[0]
		if in.w == 0 {
			st.unsupported("min/max on non-integers")
		}
		for _, a := range args[1:] {
			c := st.w.ctx
			x, y := st.term(r, in.w), st.term(a, in.w)
			lt := c.Ult
			if in.signed {
				lt = c.Slt
			}
			if in.name == "min" {
				r = termV(c.Ite(lt(y, x), y, x))
			} else {
				r = termV(c.Ite(lt(x, y), y, x))
			}
		}
		return r
	case "clear":
		switch r := args[0].R.(type) {
		case nil:
		case *SliceV:
			u := st.resolve(r.obj, true)
			if u == nil {
				return Value{}
			}
			n := 1
			if s, ok := in.typ.Underlying().(*types.Slice); ok {
				n = slotsOf(s.Elem())
			}
			for i := 0; i < r.len*n; i++ {
				if u.kind == kBytes {
					u.setByte(r.off+i, 0, nil)
				} else {
					u.slots[r.off+i] = Value{}
				}
			}
		case *MapV:
			r.obj.ents = nil
			r.obj.mkeys = map[string]int{}
			r.obj.msym = 0
		}
		return Value{}
	case "print", "println":
		return Value{}
	case "ssa:wrapnilchk":
		if args[0].R == nil {
			st.goPanic("nil pointer dereference")
		}
		return args[0]
	}
	st.unsupported("builtin " + in.name)
	return Value{}
}

// copySlice implements copy for element slot size n; returns the element count.
func (st *State) copySlice(d, s *SliceV, n int) int {
	if d == nil || s == nil {
		return 0
	}
	k := d.len
	if s.len < k {
		k = s.len
	}
	if k == 0 {
		return 0
	}
	src := st.resolve(s.obj, false)
	if src == nil {
		return 0
	}
	dst := st.resolve(d.obj, true)
	if dst == nil {
		return 0
	}
	if s.obj == d.obj || (s.obj.kind == kAlias && d.obj.kind == kAlias) {
		src = st.resolve(s.obj, false)
	}
	if src.kind == kBytes && dst.kind == kBytes {
		copyBytesObj(dst, d.off, src, s.off, k)
		return k
	}
	tmp := make([]Value, k*n)
	for i := range tmp {
		v, ok := st.loadSlot(s.obj, s.off+i, 0, nil)
		if !ok {
			return 0
		}
		tmp[i] = v
	}
	for i := range tmp {
		if !st.storeSlot(d.obj, d.off+i, 0, tmp[i]) {
			return 0
		}
	}
	return k
}

var _ = sort.Ints
