package main

import (
	"fmt"
	"sort"
)

// Contract model of github.com/roy2220/fsm.FileStorage (external dependency).

type fsHandle struct{ stg int }

func (st *State) handle(v Value) (*storage, int, bool) {
	o, _ := v.R.(*Obj)
	if o == nil {
		st.goPanic("nil pointer dereference")
		return nil, 0, false
	}
	u := st.resolve(o, false)
	h, ok := u.slots[v.U].R.(fsHandle)
	if !ok || h.stg < 0 {
		st.violate("storage-misuse", "storage used before it is opened or after it is closed, at "+st.where())
		return nil, 0, false
	}
	return st.stgs[h.stg], h.stg, true
}

func fsInit(st *State, in *ins, a []Value) Value {
	o, _ := a[0].R.(*Obj)
	if o == nil {
		st.goPanic("nil pointer dereference")
		return Value{}
	}
	o.slots[a[0].U] = Value{R: fsHandle{-1}}
	return a[0]
}

func fsOpen(st *State, in *ins, a []Value) Value {
	name, ok := a[1].str()
	if !ok {
		st.unsupported("symbolic file name")
	}
	o := a[0].R.(*Obj)
	if h, ok := o.slots[a[0].U].R.(fsHandle); !ok || h.stg >= 0 {
		st.violate("storage-misuse", "Open on a storage that is not freshly initialised, at "+st.where())
		return Value{}
	}
	i, ok := st.files[name]
	if !ok {
		if !st.boolOf(a[2]) {
			return st.mkError("open: no such file or directory")
		}
		i = len(st.stgs)
		st.stgs = append(st.stgs, &storage{name: name, primary: -1, curPrimary: -1, base: st.base})
		st.files[name] = i
	}
	s := st.stgs[i]
	if s.open {
		st.violate("storage-misuse", "the file is opened again before it has been closed, at "+st.where())
		return Value{}
	}
	s.open = true
	s.curPrimary = s.primary
	o.slots[a[0].U] = Value{R: fsHandle{i}}
	return Value{}
}

func fsClose(st *State, in *ins, a []Value) Value {
	s, _, ok := st.handle(a[0])
	if !ok {
		return Value{}
	}
	s.primary = s.curPrimary
	s.open = false
	st.epoch++
	a[0].R.(*Obj).slots[a[0].U] = Value{R: fsHandle{-2}}
	return Value{}
}

func (st *State) findSpace(s *storage, addr int64) int {
	i := sort.Search(len(s.spaces), func(i int) bool { return s.spaces[i].addr >= addr })
	if i < len(s.spaces) && s.spaces[i].addr == addr {
		return i
	}
	return -1
}

func fsAlloc(st *State, a []Value, aligned bool) Value {
	s, si, ok := st.handle(a[0])
	if !ok {
		return Value{}
	}
	n := int(int64(st.conc(a[1])))
	if n <= 0 || n > 1<<24 {
		st.violate("storage-misuse", fmt.Sprintf("allocation of %d bytes at %s", n, st.where()))
		return Value{}
	}
	next := s.base
	if k := len(s.spaces); k > 0 {
		l := s.spaces[k-1]
		next = l.addr + int64(l.size)
	}
	size := (n + 7) &^ 7
	if aligned {
		size = 4096
		for size < n {
			size *= 2
		}
		next = (next + int64(size) - 1) &^ (int64(size) - 1)
	} else {
		next = (next + 8 + 7) &^ 7
	}
	st.epoch++
	again := -1
	if st.reuse {
		for i := len(s.spaces) - 1; i >= 0; i-- {
			if sp := &s.spaces[i]; !sp.live && sp.size == size && sp.aligned == aligned {
				again = i
				break
			}
		}
	}
	o := newBytesObj(size)
	for i := 0; i < size; i += chunkSize {
		if o.symc == nil {
			o.symc = make([]*symChunk, (size+chunkSize-1)>>chunkBits)
		}
		o.symc[i>>chunkBits] = st.w.uninitChunk()
	}
	o.owner = st.tok
	if again >= 0 {
		next = s.spaces[again].addr
		s.spaces[again].obj, s.spaces[again].live = o, true
		al := &Obj{kind: kAlias, stg: si, space: again, epoch: st.epoch}
		return Value{R: []Value{{U: uint64(next)}, {R: &SliceV{al, 0, size, size}}}}
	}
	s.spaces = append(s.spaces, spaceRec{obj: o, addr: next, size: size, aligned: aligned, live: true})
	al := &Obj{kind: kAlias, stg: si, space: len(s.spaces) - 1, epoch: st.epoch}
	return Value{R: []Value{{U: uint64(next)}, {R: &SliceV{al, 0, size, size}}}}
}

func fsFree(st *State, a []Value, aligned bool) Value {
	s, _, ok := st.handle(a[0])
	if !ok {
		return Value{}
	}
	addr := int64(st.conc(a[1]))
	i := st.findSpace(s, addr)
	if i < 0 || !s.spaces[i].live || s.spaces[i].aligned != aligned {
		st.violate("invalid-release", fmt.Sprintf("release of space %#x which is not a live space of this kind, at %s", addr, st.where()))
		return Value{}
	}
	s.spaces[i].live = false
	st.epoch++
	return Value{}
}

func fsAccess(st *State, a []Value, aligned bool) Value {
	s, si, ok := st.handle(a[0])
	if !ok {
		return Value{}
	}
	addr := int64(st.conc(a[1]))
	i := st.findSpace(s, addr)
	if i < 0 || !s.spaces[i].live || s.spaces[i].aligned != aligned {
		st.violate("invalid-access", fmt.Sprintf("access to space %#x which is not a live space of this kind, at %s", addr, st.where()))
		return Value{}
	}
	n := s.spaces[i].size
	al := &Obj{kind: kAlias, stg: si, space: i, epoch: st.epoch}
	return Value{R: &SliceV{al, 0, n, n}}
}

func fsSetPrimary(st *State, in *ins, a []Value) Value {
	if s, _, ok := st.handle(a[0]); ok {
		s.curPrimary = int64(st.conc(a[1]))
	}
	return Value{}
}

func fsPrimary(st *State, in *ins, a []Value) Value {
	s, _, ok := st.handle(a[0])
	if !ok {
		return Value{}
	}
	return Value{U: uint64(s.curPrimary)}
}

func fsStats(st *State, in *ins, a []Value) Value {
	s, _, ok := st.handle(a[0])
	if !ok {
		return Value{}
	}
	al, end := 0, int64(0)
	for _, sp := range s.spaces {
		if sp.live {
			al += sp.size
		}
		end = sp.addr + int64(sp.size) - s.base
	}
	sz := 4096
	for int64(sz) < end {
		sz *= 2
	}
	return Value{R: []Value{intV(sz), intV(int(end)), intV(sz), intV(al), intV(64), intV(0)}}
}
