package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Value is an immutable runtime value. See DESIGN.md for the representation.
type Value struct {
	U uint64
	R any
}

type SliceV struct {
	obj           *Obj
	off, len, cap int // off in slots, len/cap in elements
}

type SymStr struct{ b []*Term }

type IfaceV struct {
	t types.Type
	v Value
}

type FuncV struct {
	fn    *ssa.Function
	binds []Value
}

type ptrInt struct { // a pointer value seen as uintptr
	obj *Obj
	off int
}

type MapV struct{ obj *Obj }

type mapEntry struct {
	key, val Value
	dead     bool
}

const (
	kSlots = iota
	kBytes
	kAlias
	kMap
)

const chunkBits = 7
const chunkSize = 1 << chunkBits

type symChunk [chunkSize]*Term

type Obj struct {
	kind   uint8
	shared bool
	frozen bool
	gen    uint32
	fwd    *Obj
	slots  []Value
	data   []byte
	symc   []*symChunk
	// alias
	stg, space int
	epoch      uint32
	// fs memory
	owner *owner
	// map
	ents  []mapEntry
	mkeys map[string]int
	msym  int // entries whose keys have no index
	name  string
}

type owner struct{ _ byte }

func newBytesObj(n int) *Obj { return &Obj{kind: kBytes, data: make([]byte, n)} }

func (o *Obj) size() int {
	if o.kind == kBytes {
		return len(o.data)
	}
	return len(o.slots)
}

func (o *Obj) unshare() {
	if !o.shared {
		return
	}
	d := make([]byte, len(o.data))
	copy(d, o.data)
	o.data = d
	if o.symc != nil {
		s := make([]*symChunk, len(o.symc))
		for i, c := range o.symc {
			if c != nil {
				cc := *c
				s[i] = &cc
			}
		}
		o.symc = s
	}
	o.shared = false
}

func (o *Obj) symAt(i int) *Term {
	if o.symc == nil {
		return nil
	}
	c := o.symc[i>>chunkBits]
	if c == nil {
		return nil
	}
	return c[i&(chunkSize-1)]
}

func (o *Obj) setByte(i int, v byte, t *Term) {
	if t == nil {
		o.data[i] = v
		if o.symc != nil {
			if c := o.symc[i>>chunkBits]; c != nil {
				c[i&(chunkSize-1)] = nil
			}
		}
		return
	}
	if o.symc == nil {
		o.symc = make([]*symChunk, (len(o.data)+chunkSize-1)>>chunkBits)
	}
	c := o.symc[i>>chunkBits]
	if c == nil {
		c = new(symChunk)
		o.symc[i>>chunkBits] = c
	}
	c[i&(chunkSize-1)] = t
}

// anySym reports whether any byte in [off,off+n) is symbolic.
func (o *Obj) anySym(off, n int) bool {
	if o.symc == nil || n <= 0 {
		return false
	}
	for ci := off >> chunkBits; ci <= (off+n-1)>>chunkBits; ci++ {
		c := o.symc[ci]
		if c == nil {
			continue
		}
		lo, hi := 0, chunkSize
		if b := ci << chunkBits; b < off {
			lo = off - b
		}
		if b := (ci + 1) << chunkBits; b > off+n {
			hi = chunkSize - (b - off - n)
		}
		for j := lo; j < hi; j++ {
			if c[j] != nil {
				return true
			}
		}
	}
	return false
}

// copyBytesObj copies n bytes with memmove semantics. Both are kBytes objects and dst is unshared.
func copyBytesObj(dst *Obj, do int, src *Obj, so int, n int) {
	if n <= 0 {
		return
	}
	if !src.anySym(so, n) {
		if dst.symc != nil && dst.anySym(do, n) {
			for i := do; i < do+n; i++ {
				if c := dst.symc[i>>chunkBits]; c != nil {
					c[i&(chunkSize-1)] = nil
				}
			}
		}
		copy(dst.data[do:do+n], src.data[so:so+n])
		return
	}
	tmp := make([]*Term, n)
	for i := range tmp {
		tmp[i] = src.symAt(so + i)
	}
	copy(dst.data[do:do+n], src.data[so:so+n])
	for i, t := range tmp {
		if t != nil || dst.symc != nil {
			dst.setByte(do+i, dst.data[do+i], t)
		}
	}
}

// ---- type layout

type layoutCache struct{ m map[types.Type]int }

func slotsOf(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			n += slotsOf(u.Field(i).Type())
		}
		return n
	case *types.Array:
		return int(u.Len()) * slotsOf(u.Elem())
	}
	return 1
}

func fieldOff(st *types.Struct, i int) int {
	n := 0
	for j := 0; j < i; j++ {
		n += slotsOf(st.Field(j).Type())
	}
	return n
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func isByteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func intInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// newObjFor allocates an object holding n elements of type t.
func newObjFor(t types.Type, n int) *Obj {
	if a, ok := t.Underlying().(*types.Array); ok && isByteType(a.Elem()) {
		return newBytesObj(n * int(a.Len()))
	}
	if isByteType(t) {
		return newBytesObj(n)
	}
	return &Obj{kind: kSlots, slots: make([]Value, n*slotsOf(t))}
}

func boolV(b bool) Value {
	if b {
		return Value{U: 1}
	}
	return Value{}
}

func intV(i int) Value { return Value{U: uint64(i)} }

func termV(t *Term) Value {
	if t.isConst() {
		return Value{U: t.k}
	}
	return Value{R: t}
}

func strV(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{R: s}
}

func (v Value) str() (string, bool) {
	switch r := v.R.(type) {
	case nil:
		return "", true
	case string:
		return r, true
	}
	return "", false
}

func (v Value) String() string {
	switch r := v.R.(type) {
	case nil:
		return fmt.Sprint(v.U)
	case *Term:
		return r.String()
	case *Obj:
		return fmt.Sprintf("&%p+%d", r, v.U)
	case *SliceV:
		return fmt.Sprintf("slice(%d/%d)", r.len, r.cap)
	}
	return fmt.Sprintf("%v", v.R)
}
