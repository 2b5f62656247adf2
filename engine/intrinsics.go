package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(st *State, in *ins, args []Value) Value

const ndPath = "zzverif/nd"
const fsmPath = "github.com/roy2220/fsm"

var intrinsics map[string]intrinsic

func init() {
	intrinsics = map[string]intrinsic{
		ndPath + ".Choice":  ndChoice,
		ndPath + ".Byte":    func(st *State, in *ins, a []Value) Value { return st.input(a[0], 8) },
		ndPath + ".U64":     func(st *State, in *ins, a []Value) Value { return st.input(a[0], 64) },
		ndPath + ".U32":     func(st *State, in *ins, a []Value) Value { return st.input(a[0], 32) },
		ndPath + ".Bool":    ndBool,
		ndPath + ".Bytes":   ndBytes,
		ndPath + ".Int":     ndInt,
		ndPath + ".Assume":  ndAssume,
		ndPath + ".Assert":  ndAssert,
		ndPath + ".Observe": ndObserve,
		ndPath + ".Reach":   ndReach,
		ndPath + ".Tier":    func(st *State, in *ins, a []Value) Value { return intV(st.w.run.tier) },
		ndPath + ".Active":  ndActive,
		ndPath + ".Strict":  func(st *State, in *ins, a []Value) Value { st.strict = st.boolOf(a[0]); return Value{} },
		ndPath + ".Reuse":   func(st *State, in *ins, a []Value) Value { st.reuse = st.boolOf(a[0]); return Value{} },
		ndPath + ".Steps": func(st *State, in *ins, a []Value) Value {
			if n := int64(st.conc(a[0])) * 1e6; st.opLimit < n {
				st.opLimit = n
			}
			return Value{}
		},
		ndPath + ".SetBase":    func(st *State, in *ins, a []Value) Value { st.base = int64(st.conc(a[0])); return Value{} },
		ndPath + ".Concrete":   func(st *State, in *ins, a []Value) Value { return Value{U: st.conc(a[0])} },
		ndPath + ".LiveSpaces": ndLiveSpaces,
		ndPath + ".RemoveFile": func(st *State, in *ins, a []Value) Value { s, _ := a[0].str(); delete(st.files, s); return Value{} },
		ndPath + ".IsSymbolic": func(st *State, in *ins, a []Value) Value { return boolV(true) },
		ndPath + ".TempFile":   func(st *State, in *ins, a []Value) Value { s, _ := a[0].str(); return strV("mem:" + s) },

		"bytes.Compare":                  inCompare,
		"internal/bytealg.Compare":       inCompare,
		"bytes.Equal":                    inEqual,
		"internal/bytealg.Equal":         inEqual,
		"internal/bytealg.MakeNoZero":    inMakeNoZero,
		"math/bits.Len64":                inLen64,
		"math/bits.Len":                  inLen64,
		"math/bits.TrailingZeros64":      inTZ64,
		"math.Float64bits":               func(st *State, in *ins, a []Value) Value { return a[0] },
		"math.Float64frombits":           func(st *State, in *ins, a []Value) Value { return Value{U: st.conc(a[0])} },
		"math.Floor":                     inFloat(math.Floor),
		"math.Ceil":                      inFloat(math.Ceil),
		"runtime.KeepAlive":              inNop,
		"runtime.GC":                     inNop,
		"runtime.Gosched":                inNop,
		"runtime.SetFinalizer":           inNop,
		"internal/abi.NoEscape":          func(st *State, in *ins, a []Value) Value { return a[0] },
		"internal/bytealg.CompareString": inCompareStr,
		"math.Max":                       inFloat2(math.Max),
		"math.Min":                       inFloat2(math.Min),
		"math.Pow":                       inFloat2(math.Pow),
		"math.Mod":                       inFloat2(math.Mod),
		"math.Sqrt":                      inFloat(math.Sqrt),
		"math.Log":                       inFloat(math.Log),
		"math.Log2":                      inFloat(math.Log2),
		"math.Exp":                       inFloat(math.Exp),
		"math.Trunc":                     inFloat(math.Trunc),
		"math.Round":                     inFloat(math.Round),
		ndPath + ".swapElems":            inSwapElems,
		ndPath + ".sliceLen":             inSliceLen,
		ndPath + ".fileExists":           inFileExists,
		ndPath + ".encodeFixed":          inEncodeFixed,
		ndPath + ".decodeFixed":          inDecodeFixed,

		"(*" + fsmPath + ".FileStorage).Init":                 fsInit,
		"(*" + fsmPath + ".FileStorage).Open":                 fsOpen,
		"(*" + fsmPath + ".FileStorage).Close":                fsClose,
		"(*" + fsmPath + ".FileStorage).AllocateSpace":        func(st *State, in *ins, a []Value) Value { return fsAlloc(st, a, false) },
		"(*" + fsmPath + ".FileStorage).AllocateAlignedSpace": func(st *State, in *ins, a []Value) Value { return fsAlloc(st, a, true) },
		"(*" + fsmPath + ".FileStorage).FreeSpace":            func(st *State, in *ins, a []Value) Value { return fsFree(st, a, false) },
		"(*" + fsmPath + ".FileStorage).FreeAlignedSpace":     func(st *State, in *ins, a []Value) Value { return fsFree(st, a, true) },
		"(*" + fsmPath + ".FileStorage).AccessSpace":          func(st *State, in *ins, a []Value) Value { return fsAccess(st, a, false) },
		"(*" + fsmPath + ".FileStorage).AccessAlignedSpace":   func(st *State, in *ins, a []Value) Value { return fsAccess(st, a, true) },
		"(*" + fsmPath + ".FileStorage).SetPrimarySpace":      fsSetPrimary,
		"(*" + fsmPath + ".FileStorage).PrimarySpace":         fsPrimary,
		"(*" + fsmPath + ".FileStorage).Stats":                fsStats,
	}
}

func inNop(st *State, in *ins, a []Value) Value { return Value{} }

func inFloat(f func(float64) float64) intrinsic {
	return func(st *State, in *ins, a []Value) Value {
		return Value{U: math.Float64bits(f(math.Float64frombits(a[0].U)))}
	}
}

func inFloat2(f func(x, y float64) float64) intrinsic {
	return func(st *State, in *ins, a []Value) Value {
		return Value{U: math.Float64bits(f(math.Float64frombits(a[0].U), math.Float64frombits(a[1].U)))}
	}
}

func ifaceSlice(st *State, v Value) (*SliceV, types.Type) {
	i, _ := v.R.(*IfaceV)
	if i == nil {
		st.unsupported("not a slice")
	}
	t, ok := i.t.Underlying().(*types.Slice)
	if !ok {
		st.unsupported("not a slice")
	}
	s, _ := i.v.R.(*SliceV)
	return s, t.Elem()
}

func inSliceLen(st *State, in *ins, a []Value) Value {
	s, _ := ifaceSlice(st, a[0])
	if s == nil {
		return intV(0)
	}
	return intV(s.len)
}

func inSwapElems(st *State, in *ins, a []Value) Value {
	s, t := ifaceSlice(st, a[0])
	i, j, n := int(st.conc(a[1])), int(st.conc(a[2])), 1
	if s.obj.kind == kSlots {
		n = slotsOf(t)
	}
	tmp := newObjFor(t, 1)
	st.copySlice(&SliceV{tmp, 0, 1, 1}, &SliceV{s.obj, s.off + i*n, 1, 1}, n)
	st.copySlice(&SliceV{s.obj, s.off + i*n, 1, 1}, &SliceV{s.obj, s.off + j*n, 1, 1}, n)
	st.copySlice(&SliceV{s.obj, s.off + j*n, 1, 1}, &SliceV{tmp, 0, 1, 1}, n)
	return Value{}
}

func inFileExists(st *State, in *ins, a []Value) Value {
	name, ok := a[0].str()
	if !ok {
		st.unsupported("symbolic file name")
	}
	_, ok = st.files[name]
	return boolV(ok)
}

func intrinsicByPattern(fn *ssa.Function, name string) intrinsic {
	pk := fnPkgPath(fn)
	switch pk {
	case "reflect":
		switch fn.Name() {
		case "ValueOf", "TypeOf":
			return func(st *State, in *ins, a []Value) Value {
				st.unsupported(name)
				return Value{}
			}
		}
	case "fmt":
		switch fn.Name() {
		case "Printf", "Println", "Print":
			return func(st *State, in *ins, a []Value) Value { return Value{R: []Value{{}, {}}} }
		}
	case "github.com/gogo/protobuf/proto", "github.com/golang/protobuf/proto":
		if strings.HasPrefix(fn.Name(), "Register") {
			return inNop
		}
	case "sync":
		switch fn.Name() {
		case "Lock", "Unlock", "RLock", "RUnlock":
			return inNop
		}
	}
	if fn.Name() == "init" && fn.Synthetic != "" && fn.Signature.Recv() == nil && fn.Parent() == nil {
		if !initAllowed(pk) {
			return inNop
		}
	}
	return nil
}

// plainArg turns an argument of fmt whose type is a defined one without methods into
// one of the underlying type, so that fmt needs no reflection to print it.
func plainArg(st *State, a []Value) []Value {
	i, _ := a[1].R.(*IfaceV)
	if i == nil {
		return a
	}
	u := i.t.Underlying()
	if u == i.t || types.NewMethodSet(i.t).Len() > 0 {
		return a
	}
	switch x := u.(type) {
	case *types.Basic:
	case *types.Slice:
		if b, ok := x.Elem().(*types.Basic); !ok || b.Kind() != types.Uint8 {
			return a
		}
	default:
		return a
	}
	b := append([]Value{}, a...)
	b[1] = Value{R: &IfaceV{u, i.v}}
	return b
}

func initAllowed(pk string) bool {
	if strings.HasPrefix(pk, libPrefix) || strings.HasPrefix(pk, "zzverif") {
		return true
	}
	switch pk {
	case "io", "bytes", "encoding/binary", "hash", "hash/fnv", "math", "math/bits", "sort", "slices", "cmp", "container/list", "container/heap",
		"fmt", "strconv", "strings", "unicode/utf8", "hash/crc32", "hash/crc64", "hash/adler32":
		return true
	}
	return false
}

func (st *State) mkError(msg string) Value {
	pk := st.w.prog.prog.ImportedPackage("errors")
	if pk == nil {
		st.unsupported("errors package not loaded")
	}
	t := pk.Type("errorString").Type()
	o := &Obj{kind: kSlots, slots: []Value{strV(msg)}}
	return Value{R: &IfaceV{types.NewPointer(t), Value{R: o}}}
}

// ---- inputs

func (st *State) inName(v Value) string {
	s, _ := v.str()
	k := st.nin[s]
	st.nin[s] = k + 1
	if k == 0 {
		return s
	}
	return fmt.Sprintf("%s#%d", s, k)
}

func (st *State) input(nm Value, w uint8) Value {
	name := st.inName(nm)
	t := st.w.ctx.Var(fmt.Sprintf("%s:%d", name, w), w)
	st.inputs = &inEnt{prev: st.inputs, kind: 's', name: name, term: t}
	return Value{R: t}
}

func ndBool(st *State, in *ins, a []Value) Value {
	name := st.inName(a[0])
	t := st.w.ctx.Var(name+":b", 0)
	st.inputs = &inEnt{prev: st.inputs, kind: 's', name: name, term: t}
	return Value{R: t}
}

func ndBytes(st *State, in *ins, a []Value) Value {
	n := int(st.conc(a[1]))
	name := st.inName(a[0])
	o := newBytesObj(n)
	for i := 0; i < n; i++ {
		t := st.w.ctx.Var(fmt.Sprintf("%s[%d]:8", name, i), 8)
		o.setByte(i, 0, t)
		st.inputs = &inEnt{prev: st.inputs, kind: 's', name: fmt.Sprintf("%s[%d]", name, i), term: t}
	}
	return Value{R: &SliceV{o, 0, n, n}}
}

// ndInt(name, lo, hi): symbolic int in [lo, hi].
func ndInt(st *State, in *ins, a []Value) Value {
	c := st.w.ctx
	lo, hi := st.conc(a[1]), st.conc(a[2])
	v := st.input(a[0], 64)
	t := v.R.(*Term)
	cond := c.And(c.Not(c.Slt(t, c.Const(lo, 64))), c.Not(c.Slt(c.Const(hi, 64), t)))
	if !st.assume(cond) {
		st.dead = true
	}
	return v
}

func ndChoice(st *State, in *ins, a []Value) Value {
	n := int(st.conc(a[1]))
	name, _ := a[0].str()
	w := st.w
	if n <= 0 {
		st.dead = true
		return Value{}
	}
	// pending choice recorded by a fork?
	k := st.choiceN
	var v int
	if k < len(st.prefixOf()) {
		v = st.prefixOf()[k]
	} else if n == 1 {
		v = 0
	} else if k < w.job.harness.Split && !w.forked {
		// hand the alternatives to other workers as separate jobs
		base := append([]int(nil), st.prefixOf()...)
		for i := 1; i < n; i++ {
			w.run.addJob(&Job{harness: w.job.harness, prefix: append(append([]int(nil), base...), i)})
		}
		v = 0
		w.jobPrefix = append(append([]int(nil), base...), 0)
	} else {
		// local fork
		if st.choicePending >= 0 {
			v = st.choicePending
			st.choicePending = -1
		} else {
			for i := n - 1; i >= 1; i-- {
				o := st.clone()
				o.choicePending = i
				w.push(o)
			}
			v = 0
		}
	}
	st.choiceN++
	full := st.inName(a[0])
	_ = name
	st.inputs = &inEnt{prev: st.inputs, kind: 'c', name: full, val: uint64(v), n: n}
	return intV(v)
}

func (st *State) prefixOf() []int { return st.w.jobPrefix }

// assume adds a condition; false if infeasible.
func (st *State) assume(t *Term) bool {
	if t.isConst() {
		return t.k != 0
	}
	if v, ok := st.lookupKnown(t); ok {
		return v
	}
	if st.model.Eval(t) != 0 {
		st.addPC(t)
		return true
	}
	res, m := st.w.solver.Check(st.pc.slice(), t, true)
	switch res {
	case Sat:
		st.model = m
		st.addPC(t)
		return true
	case Unknown:
		st.w.noteInconclusive(st, "solver gave no answer on an assumption")
	}
	return false
}

func ndAssume(st *State, in *ins, a []Value) Value {
	if !st.assume(st.boolTerm(a[0])) {
		st.dead = true
		st.w.stats.Assumed++
	}
	return Value{}
}

func labelActive(run *Run, label string) bool {
	if i := strings.IndexByte(label, ':'); i == 3 && label[0] == 'C' {
		return label[:3] == run.prop || run.prop == "ALL"
	}
	return true
}

func ndActive(st *State, in *ins, a []Value) Value {
	s, _ := a[0].str()
	return boolV(s == st.w.run.prop || st.w.run.prop == "ALL")
}

func ndAssert(st *State, in *ins, a []Value) Value {
	label, _ := a[1].str()
	w := st.w
	if !labelActive(w.run, label) {
		return Value{}
	}
	w.stats.Asserts++
	w.assertLabel(label)
	t, ok := a[0].R.(*Term)
	if !ok {
		if a[0].U == 0 {
			st.violate(label, "assertion fails at "+st.where())
		}
		return Value{}
	}
	if v, known := st.lookupKnown(t); known && v {
		return Value{}
	}
	w.stats.AssertQueries++
	nt := w.ctx.Not(t)
	var res Result
	var m Model
	if st.model.Eval(t) == 0 {
		res, m = Sat, st.model
	} else {
		res, m = w.solver.Check(st.pc.slice(), nt, true)
	}
	switch res {
	case Unsat:
		st.learn(t, true)
		return Value{}
	case Unknown:
		w.noteInconclusive(st, "solver gave no answer on assertion "+label)
		return Value{}
	}
	saved := st.model
	st.model = m
	st.report(label, "assertion fails at "+st.where())
	st.model = saved
	if !st.assume(t) {
		st.dead = true
	}
	return Value{}
}

func ndObserve(st *State, in *ins, a []Value) Value {
	label, _ := a[0].str()
	d, t, ok := st.sliceBytes(a[1])
	if !ok {
		return Value{}
	}
	e := &obsEnt{prev: st.obs, label: label}
	if t != nil {
		e.bytes = t
	} else {
		e.raw = append([]byte(nil), d...)
	}
	st.obs = e
	return Value{}
}

func ndReach(st *State, in *ins, a []Value) Value {
	label, _ := a[0].str()
	st.reached[label] = true
	return Value{}
}

func ndLiveSpaces(st *State, in *ins, a []Value) Value {
	s, _ := a[0].str()
	i, ok := st.files[s]
	if !ok {
		return Value{R: []Value{{}, boolV(false)}}
	}
	var vs []Value
	for _, sp := range st.stgs[i].spaces {
		if sp.live {
			vs = append(vs, Value{U: uint64(sp.addr)})
		}
	}
	o := &Obj{kind: kSlots, slots: vs}
	return Value{R: []Value{{R: &SliceV{o, 0, len(vs), len(vs)}}, boolV(true)}}
}

// ---- std

func inCompare(st *State, in *ins, a []Value) Value {
	d1, t1, ok := st.sliceBytes(a[0])
	if !ok {
		return Value{}
	}
	d2, t2, ok := st.sliceBytes(a[1])
	if !ok {
		return Value{}
	}
	return st.cmpBytes(d1, t1, d2, t2)
}

func inCompareStr(st *State, in *ins, a []Value) Value {
	d1, t1 := st.strBytes(a[0])
	d2, t2 := st.strBytes(a[1])
	return st.cmpBytes(d1, t1, d2, t2)
}

func inEqual(st *State, in *ins, a []Value) Value {
	d1, t1, ok := st.sliceBytes(a[0])
	if !ok {
		return Value{}
	}
	d2, t2, ok := st.sliceBytes(a[1])
	if !ok {
		return Value{}
	}
	return st.eqBytes(d1, t1, d2, t2)
}

func inMakeNoZero(st *State, in *ins, a []Value) Value {
	n := int(st.conc(a[0]))
	return Value{R: &SliceV{newBytesObj(n), 0, n, n}}
}

func inLen64(st *State, in *ins, a []Value) Value {
	t, ok := a[0].R.(*Term)
	if !ok {
		return intV(bits.Len64(a[0].U))
	}
	c := st.w.ctx
	r := c.Const(0, 64)
	for i := 0; i < int(t.w); i++ {
		r = c.Ite(c.Eq(c.Extract(t, uint8(i), 1), c.Const(1, 1)), c.Const(uint64(i+1), 64), r)
	}
	return termV(r)
}

func inTZ64(st *State, in *ins, a []Value) Value {
	return intV(bits.TrailingZeros64(st.conc(a[0])))
}

// encodeFixed(big bool, data any) []byte: encoding of a pointer to (or value of) a
// struct of fixed-size integer fields, as encoding/binary does.
func inEncodeFixed(st *State, in *ins, a []Value) Value {
	big := st.boolOf(a[0])
	iv, _ := a[1].R.(*IfaceV)
	if iv == nil {
		st.unsupported("binary.Write of nil")
	}
	var vals []Value
	t := iv.t
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
		o := iv.v.R.(*Obj)
		n := slotsOf(t)
		for i := 0; i < n; i++ {
			v, ok := st.loadSlot(o, int(iv.v.U)+i, 0, nil)
			if !ok {
				return Value{}
			}
			vals = append(vals, v)
		}
	} else if isAgg(t) {
		vals = iv.v.R.([]Value)
	} else {
		vals = []Value{iv.v}
	}
	c := st.w.ctx
	var out []*Term
	i := 0
	var walk func(t types.Type)
	walk = func(t types.Type) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for j := 0; j < u.NumFields(); j++ {
				walk(u.Field(j).Type())
			}
		case *types.Array:
			for j := 0; j < int(u.Len()); j++ {
				walk(u.Elem())
			}
		default:
			if isBool(t) {
				out = append(out, c.Ite(st.boolTerm(vals[i]), c.Const(1, 8), c.Const(0, 8)))
				i++
				return
			}
			w, _, ok := intInfo(t)
			b, isB := u.(*types.Basic)
			if !ok || !isB || b.Kind() == types.Int || b.Kind() == types.Uint || b.Kind() == types.Uintptr {
				st.unsupported("binary encoding of " + t.String())
			}
			x := st.term(vals[i], w)
			i++
			for j := 0; j < int(w/8); j++ {
				k := j
				if big {
					k = int(w/8) - 1 - j
				}
				out = append(out, c.Extract(x, uint8(8*k), 8))
			}
		}
	}
	walk(t)
	o := st.mkBytes(nil, out)
	if len(out) == 0 {
		o = newBytesObj(0)
	}
	return Value{R: &SliceV{o, 0, len(out), len(out)}}
}

// fixedSize / decodeFixed(big bool, data any, buf []byte) int: with nil buf returns the size.
func inDecodeFixed(st *State, in *ins, a []Value) Value {
	big := st.boolOf(a[0])
	iv, _ := a[1].R.(*IfaceV)
	if iv == nil {
		st.unsupported("binary.Read into nil")
	}
	p, ok := iv.t.Underlying().(*types.Pointer)
	if !ok {
		st.unsupported("binary.Read into non-pointer")
	}
	t := p.Elem()
	size := 0
	type fld struct {
		w    uint8
		bool bool
	}
	var fl []fld
	var walk func(t types.Type)
	walk = func(t types.Type) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for j := 0; j < u.NumFields(); j++ {
				walk(u.Field(j).Type())
			}
		case *types.Array:
			for j := 0; j < int(u.Len()); j++ {
				walk(u.Elem())
			}
		default:
			if isBool(t) {
				fl = append(fl, fld{8, true})
				size++
				return
			}
			w, _, ok := intInfo(t)
			b, isB := u.(*types.Basic)
			if !ok || !isB || b.Kind() == types.Int || b.Kind() == types.Uint {
				st.unsupported("binary decoding of " + t.String())
			}
			fl = append(fl, fld{w, false})
			size += int(w / 8)
		}
	}
	walk(t)
	s, _ := a[2].R.(*SliceV)
	if s == nil {
		return intV(size)
	}
	o := iv.v.R.(*Obj)
	c := st.w.ctx
	pos := 0
	for i, f := range fl {
		n := int(f.w / 8)
		ls := make([]*Term, n)
		for j := 0; j < n; j++ {
			k := j
			if big {
				k = n - 1 - j
			}
			ls[j] = st.byteTerm(s.obj, s.off+pos+k)
			if ls[j] == nil {
				return Value{}
			}
		}
		pos += n
		var v Value
		if n == 1 {
			v = termV(ls[0])
		} else {
			v = termV(c.Lanes(ls))
		}
		if f.bool {
			v = st.boolTermV(c.Not(c.Eq(ls[0], c.Const(0, 8))))
		}
		if !st.storeSlot(o, int(iv.v.U)+i, 0, v) {
			return Value{}
		}
	}
	return intV(size)
}
