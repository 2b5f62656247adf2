package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type pcNode struct {
	t    *Term
	prev *pcNode
	n    int
}

func (p *pcNode) slice() []*Term {
	if p == nil {
		return nil
	}
	r := make([]*Term, p.n)
	for q := p; q != nil; q = q.prev {
		r[q.n-1] = q.t
	}
	return r
}

type deferred struct {
	op   insOp
	in   *ins
	fv   Value
	args []Value
	code *Code
}

type Frame struct {
	code      *Code
	regs      []Value
	blk       *blockC
	ip        int
	retDst    int32
	defers    []deferred
	isDefer   bool // frame is a deferred call run by RunDefers/panic
	panicking bool
	tail      func(st *State, rv Value) Value // post-processing of the result
}

// input log entry
type inEnt struct {
	prev *inEnt
	kind byte // 'c' choice, 's' symbolic
	name string
	val  uint64
	term *Term
	n    int
}

type obsEnt struct {
	prev  *obsEnt
	label string
	bytes []*Term // nil entry means concrete byte in raw
	raw   []byte
}

type State struct {
	w             *Worker
	frames        []*Frame
	globals       []*Obj
	pc            *pcNode
	known         map[*Term]bool
	bounds        []bound
	model         Model
	inputs        *inEnt
	nin           map[string]int
	choiceN       int
	obs           *obsEnt
	reached       map[string]bool
	fresh         int
	epoch         uint32
	strict        bool
	stgs          []*storage
	files         map[string]int
	base          int64
	reuse         bool
	tok           *owner
	steps         int64
	dead          bool
	pushed        bool
	panicV        *Value
	recovered     bool
	forks         int
	opLimit       int64
	choicePending int
}

// storage is the contract model of the external space manager.
type storage struct {
	name       string
	primary    int64 // committed by Close
	curPrimary int64
	spaces     []spaceRec
	open       bool
	base       int64
}

type spaceRec struct {
	obj     *Obj
	addr    int64
	size    int
	aligned bool
	live    bool
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (w *Worker) cloneObj(o *Obj, gen uint32) *Obj {
	if o == nil || o.frozen {
		return o
	}
	if o.gen == gen {
		return o.fwd
	}
	n := &Obj{}
	*n = *o
	n.fwd = nil
	n.gen = gen
	n.fwd = n
	o.gen = gen
	o.fwd = n
	switch o.kind {
	case kBytes:
		o.shared = true
		n.shared = true
	case kSlots:
		n.slots = make([]Value, len(o.slots))
		for i := range o.slots {
			n.slots[i] = w.cloneVal(o.slots[i], gen)
		}
	case kMap:
		n.ents = make([]mapEntry, len(o.ents))
		for i, e := range o.ents {
			n.ents[i] = mapEntry{w.cloneVal(e.key, gen), w.cloneVal(e.val, gen), e.dead}
		}
		n.mkeys = make(map[string]int, len(o.mkeys))
		for k, v := range o.mkeys {
			n.mkeys[k] = v
		}
	}
	return n
}

func (w *Worker) cloneVal(v Value, gen uint32) Value {
	switch r := v.R.(type) {
	case nil:
		return v
	case *Term, string, *SymStr:
		return v
	case *Obj:
		return Value{U: v.U, R: w.cloneObj(r, gen)}
	case *SliceV:
		return Value{U: v.U, R: &SliceV{w.cloneObj(r.obj, gen), r.off, r.len, r.cap}}
	case []Value:
		n := make([]Value, len(r))
		for i := range r {
			n[i] = w.cloneVal(r[i], gen)
		}
		return Value{R: n}
	case *IfaceV:
		return Value{R: &IfaceV{r.t, w.cloneVal(r.v, gen)}}
	case *FuncV:
		if len(r.binds) == 0 {
			return v
		}
		n := make([]Value, len(r.binds))
		for i := range n {
			n[i] = w.cloneVal(r.binds[i], gen)
		}
		return Value{R: &FuncV{r.fn, n}}
	case ptrInt:
		return Value{R: ptrInt{w.cloneObj(r.obj, gen), r.off}}
	case *MapV:
		return Value{R: &MapV{w.cloneObj(r.obj, gen)}}
	case *mapIter:
		c := *r
		c.obj = w.cloneObj(r.obj, gen)
		return Value{R: &c}
	case fsHandle:
		return v
	}
	panic(fmt.Sprintf("cloneVal %T", v.R))
}

func (st *State) clone() *State {
	w := st.w
	w.gen++
	gen := w.gen
	n := &State{}
	*n = *st
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		nf := &Frame{}
		*nf = *f
		nf.regs = make([]Value, len(f.regs))
		for j := range f.regs {
			if f.regs[j].R == nil {
				nf.regs[j] = f.regs[j]
			} else {
				nf.regs[j] = w.cloneVal(f.regs[j], gen)
			}
		}
		if len(f.defers) > 0 {
			nf.defers = make([]deferred, len(f.defers))
			for j, d := range f.defers {
				nd := d
				nd.fv = w.cloneVal(d.fv, gen)
				nd.args = make([]Value, len(d.args))
				for k := range d.args {
					nd.args[k] = w.cloneVal(d.args[k], gen)
				}
				nf.defers[j] = nd
			}
		}
		n.frames[i] = nf
	}
	n.globals = make([]*Obj, len(st.globals))
	for i, g := range st.globals {
		n.globals[i] = w.cloneObj(g, gen)
	}
	n.known = make(map[*Term]bool, len(st.known)+1)
	for k, v := range st.known {
		n.known[k] = v
	}
	n.nin = make(map[string]int, len(st.nin))
	for k, v := range st.nin {
		n.nin[k] = v
	}
	n.reached = make(map[string]bool, len(st.reached))
	for k, v := range st.reached {
		n.reached[k] = v
	}
	n.stgs = make([]*storage, len(st.stgs))
	for i, s := range st.stgs {
		c := *s
		c.spaces = append([]spaceRec(nil), s.spaces...)
		n.stgs[i] = &c
	}
	n.files = make(map[string]int, len(st.files))
	for k, v := range st.files {
		n.files[k] = v
	}
	if st.panicV != nil {
		v := w.cloneVal(*st.panicV, gen)
		n.panicV = &v
	}
	st.tok = &owner{}
	n.tok = &owner{}
	return n
}

func (st *State) addPC(t *Term) {
	n := 1
	if st.pc != nil {
		n = st.pc.n + 1
	}
	st.pc = &pcNode{t, st.pc, n}
	st.learn(t, true)
}

func (st *State) learn(t *Term, v bool) {
	if t.op == OpNot {
		st.learn(t.a, !v)
		return
	}
	st.known[t] = v
	st.learnBounds(t, v)
	if t.op == OpAnd && v {
		st.learn(t.a, true)
		st.learn(t.b, true)
	}
}

func (st *State) lookupKnown(t *Term) (bool, bool) {
	if t.op == OpNot {
		v, ok := st.lookupKnown(t.a)
		return !v, ok
	}
	v, ok := st.known[t]
	return v, ok
}

// decide resolves a boolean term: it forks when both outcomes are feasible.
// It must be called before the instruction has side effects, because the
// other state re-executes the current instruction from its start.
func (st *State) decide(t *Term) bool {
	if t.isConst() {
		return t.k != 0
	}
	if v, ok := st.lookupKnown(t); ok {
		return v
	}
	w := st.w
	w.stats.Branches++
	v := st.model.Eval(t) != 0
	if b, ok := st.decideBounds(t); ok {
		if b != v {
			panic("bounds contradict the model")
		}
		if checkBounds {
			o := t
			if v {
				o = w.ctx.Not(t)
			}
			if res, _ := w.solver.Check(st.pc.slice(), o, false); res != Unsat {
				panic("bounds contradict the solver")
			}
		}
		w.stats.Bounded++
		st.learn(t, v)
		return v
	}
	other := t
	mine := w.ctx.Not(t)
	if v {
		other, mine = w.ctx.Not(t), t
	}
	res, m := w.solver.Check(st.pc.slice(), other, true)
	switch res {
	case Unsat:
		st.learn(mine, true)
		return v
	case Unknown:
		w.noteInconclusive(st, "solver gave no answer on a branch: "+w.solver.lastErr)
		// explore only the side known to be feasible
		st.addPC(mine)
		return v
	}
	o := st.clone()
	o.model = m
	o.addPC(other)
	o.forks++
	w.push(o)
	st.addPC(mine)
	st.forks++
	return v
}

func (st *State) boolOf(v Value) bool {
	if t, ok := v.R.(*Term); ok {
		return st.decide(t)
	}
	return v.U != 0
}

// conc makes an integer value concrete by exhaustive forking over its feasible values.
func (st *State) conc(v Value) uint64 {
	t, ok := v.R.(*Term)
	if !ok {
		return v.U
	}
	w := st.w
	for i := 0; ; i++ {
		x := st.model.Eval(t)
		if st.decide(w.ctx.Eq(t, w.ctx.Const(x, t.w))) {
			return x
		}
		if i > 5 {
			panic("conc: model disagrees")
		}
	}
}

func (st *State) term(v Value, w uint8) *Term {
	if t, ok := v.R.(*Term); ok {
		return t
	}
	return st.w.ctx.Const(v.U, w)
}

func (st *State) boolTerm(v Value) *Term {
	if t, ok := v.R.(*Term); ok {
		return t
	}
	return st.w.ctx.Bool(v.U != 0)
}

type engineError struct{ msg string }

func (st *State) unsupported(msg string) {
	panic(engineError{msg + " at " + st.where()})
}

func (st *State) where() string {
	var sb strings.Builder
	for i := len(st.frames) - 1; i >= 0 && i >= len(st.frames)-6; i-- {
		f := st.frames[i]
		pos := ""
		if f.blk != nil && f.ip < len(f.blk.ins) {
			pos = st.posOf(f.blk.ins[f.ip].in)
		}
		if i < len(st.frames)-1 {
			sb.WriteString(" < ")
		}
		sb.WriteString(shortFn(f.code.name) + pos)
	}
	return sb.String()
}

func shortFn(s string) string {
	s = strings.ReplaceAll(s, "github.com/roy2220/plainkv", "plainkv")
	return s
}

func (st *State) posOf(in ssa.Instruction) string {
	p := in.Pos()
	if !p.IsValid() {
		return ""
	}
	ps := st.w.prog.prog.Fset.Position(p)
	fn := ps.Filename
	if i := strings.LastIndexByte(fn, '/'); i >= 0 {
		fn = fn[i+1:]
	}
	return fmt.Sprintf("(%s:%d)", fn, ps.Line)
}

// inLib reports whether the innermost non-std frame belongs to the library under test.
func (st *State) inLib() bool {
	for i := len(st.frames) - 1; i >= 0; i-- {
		f := st.frames[i]
		if f.code.lib {
			return true
		}
	}
	return false
}
