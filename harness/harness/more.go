package harness

import (
	"bytes"

	"github.com/roy2220/fsm"
	"github.com/roy2220/plainkv"
	"github.com/roy2220/plainkv/bptree"
	"github.com/roy2220/plainkv/hashmap"
	"zzverif/nd"
)

// dictScanMod: a scan goes on while the dictionary is changed.
func dictScanMod() {
	slots := []int{1, 2, 3, 4, 5, 6, 7, 13}[nd.Choice("slots", 8)]
	n := itemCount(slots, nd.Choice("items", 3))
	var recs []rec
	if slots < 6 && nd.Choice("spread", 2) == 0 {
		recs = someItems(n)
	} else { // over all slots, and those that the next addition splits on both sides
		for i, c := 0, 1; len(recs) < n; c++ {
			k := keyOf(c, []int{3, 24, 25, 4}[c%4])
			if slotOf(fnv1a(k), slots+1) == slots-i%(slots+1) {
				recs = append(recs, rec{k, valOf(c, i%4)})
				i++
			}
		}
	}
	p1 := nd.Choice("before the first change", len(recs)+1)
	ops := 1
	if nd.Tier() > 0 {
		ops = 2
	}
	file := nd.TempFile("d")
	newDict(slots, 1, minDirShift, recs).build(file)
	strict()
	d := openDict(file)
	var got []rec
	var cur plainkv.DictCursor
	scan := func(n int) bool {
		for ; n != 0; n-- {
			k, v, ok := d.Scan(&cur)
			if !ok {
				return false
			}
			if len(got) > 3*len(recs)+6 {
				nd.Assert(false, "C19:a scan ends")
				return false
			}
			got = append(got, rec{append([]byte{}, k...), append([]byte{}, v...)})
		}
		return true
	}
	states := [][]rec{recs}
	min, max := slots, slots
	for i := 0; i < ops; i++ {
		n := p1
		if i > 0 {
			n = nd.Choice("before the next change", 3)
		}
		if !scan(n) {
			break
		}
		op := nd.Choice("op", 4)
		key := symDictKey([]int{1, 3, 4}[nd.Choice("key-kind", 3)])
		if op == 1 && nd.Bool("last") && len(got) > 0 {
			key = got[len(got)-1].k // the usual way: remove what has been seen
		}
		var val []byte
		if op != 1 {
			val = symVal("val", 3)
		}
		recs = dictOp(d, recs, op, key, val, false)
		states = append(states, recs)
		s := d.Stats().NumberOfHashSlots
		if s < min {
			min = s
		}
		if s > max {
			max = s
		}
	}
	scan(-1)
	for i := 0; i < 2; i++ {
		_, _, ok := d.Scan(&cur)
		nd.Assert(!ok, "C19:a finished scan stays finished")
	}
	for _, g := range got {
		in := false
		for _, s := range states {
			i, ok := findItem(s, g.k)
			in = in || ok && bytes.Equal(s[i].v, g.v)
		}
		nd.Assert(in, "C19:a scan yields only pairs that were present")
	}
	for _, r := range states[0] {
		always := true
		for _, s := range states {
			_, ok := findItem(s, r.k)
			always = always && ok
		}
		if !always {
			continue
		}
		n := 0
		for _, g := range got {
			n += b2i(bytes.Equal(g.k, r.k))
		}
		if min == slots {
			nd.Assert(n >= 1, "C19:a scan misses no item that stays, unless the table shrinks")
		}
		if min == max {
			nd.Assert(n == 1, "C19:a scan yields an item that stays once while the table keeps its size")
		}
	}
	if min < max {
		nd.Reach("resized")
	}
	nd.Reach("scanned")
	dictFinish(d, file, recs, false)
}

// odIterMany: iterators side by side, with point reads between their steps.
func odIterMany() {
	t := opTree(2 + nd.Choice("shape", 3))
	file := nd.TempFile("od")
	t.build(file)
	strict()
	od := openOD(file)
	const l = "C08:iterators and reads do not disturb each other"
	n := len(t.recs)
	m := n / 2
	type run struct {
		it   plainkv.OrderedDictIterator
		recs []rec
		desc bool
	}
	rs := []*run{
		{od.RangeAsc(plainkv.MinKey, plainkv.MaxKey), t.recs, false},
		{od.RangeDesc(plainkv.MinKey, plainkv.MaxKey), t.recs, true},
		{od.RangeAsc(t.recs[m].k, plainkv.MaxKey), t.recs[m:], false},
		{od.RangeDesc(plainkv.MinKey, t.recs[m].k), t.recs[:m+1], true},
	}
	a, b := rs[nd.Choice("first", 4)], rs[nd.Choice("second", 4)]
	if a == b {
		b = &run{od.RangeAsc(plainkv.MinKey, plainkv.MaxKey), t.recs, false}
	}
	key := symKey("key", []int{3, 258}[nd.Choice("klen", 2)])
	i, in := find(t.recs, key)
	step := func(r *run) bool {
		if len(r.recs) == 0 {
			nd.Assert(r.it.IsAtEnd(), l)
			return false
		}
		w := r.recs[0]
		r.recs = r.recs[1:]
		if r.desc {
			r.recs = append(append([]rec{}, w), r.recs...)
			w = r.recs[len(r.recs)-1]
			r.recs = r.recs[:len(r.recs)-1]
		}
		if r.it.IsAtEnd() {
			nd.Assert(false, l)
			return false
		}
		k, v, err := r.it.ReadRecordAll()
		nd.Assert(err == nil && bytes.Equal(k, w.k) && bytes.Equal(v, w.v), l)
		v, ok := od.Test(key, true)
		nd.Assert(ok == in && (!ok || bytes.Equal(v, t.recs[i].v)), l)
		r.it.Advance()
		return true
	}
	// a is some steps ahead
	for j := nd.Choice("ahead", 3); j > 0; j-- {
		step(a)
	}
	for x, y := true, true; x || y; {
		x = step(a)
		y = step(b)
	}
	od.Close()
}

// openFlags: opening with and without the flag that lets it create the file.
func openFlags() {
	kind := nd.Choice("kind", 2)
	file := nd.TempFile("f")
	open := func(create bool) (set func(k, v []byte), test func(k []byte) ([]byte, bool), count func() int, close func() error, err error) {
		if kind == 0 {
			d, err := plainkv.OpenDict(file, create)
			if err != nil {
				nd.Assert(d == nil, "C20:a failed open returns no dictionary")
				return nil, nil, nil, nil, err
			}
			return func(k, v []byte) { d.Set(k, v, false) }, func(k []byte) ([]byte, bool) { return d.Test(k, true) },
				func() int { return d.Stats().NumberOfHashItems }, d.Close, nil
		}
		d, err := plainkv.OpenOrderedDict(file, create)
		if err != nil {
			nd.Assert(d == nil, "C20:a failed open returns no dictionary")
			return nil, nil, nil, nil, err
		}
		return func(k, v []byte) { d.Set(k, v, false) }, func(k []byte) ([]byte, bool) { return d.Test(k, true) },
			func() int { return d.Stats().NumberOfBPTreeRecords }, d.Close, nil
	}
	exists := false
	var recs []rec
	for i := 0; i < 3; i++ {
		create := nd.Bool("create")
		set, test, count, cl, err := open(create)
		if !exists && !create {
			nd.Assert(err != nil, "C20:opening a missing file without the flag fails")
			continue
		}
		nd.Assert(err == nil, "C20:opening succeeds")
		if err != nil {
			return
		}
		exists = true
		nd.Assert(count() == len(recs), "C20:a dictionary opens with its contents, a new one empty")
		for _, r := range recs {
			v, ok := test(r.k)
			nd.Assert(ok && bytes.Equal(v, r.v), "C20:a dictionary opens with its contents, a new one empty")
		}
		k, v := nd.Bytes("key", 1), nd.Bytes("val", 1)
		j, ok := findItem(recs, k)
		if got, ok2 := test(k); ok2 != ok || ok && !bytes.Equal(got, recs[j].v) {
			nd.Assert(false, "C20:a dictionary opens with its contents, a new one empty")
		}
		if nd.Bool("set") {
			set(k, v)
			recs = setItem(recs, j, ok, k, v)
		}
		nd.Assert(cl() == nil, "C20:closing succeeds")
	}
}

// twoOds: two ordered dictionaries open at once.
func twoOds() {
	const l = "C21:dictionaries do not disturb each other"
	ta, tb := opTree(2+nd.Choice("shape-a", 3)), opTree([]int{0, 2, 4}[nd.Choice("shape-b", 3)])
	fa, fb := nd.TempFile("a"), nd.TempFile("b")
	ta.build(fa)
	tb.build(fb)
	strict()
	a, b := openOD(fa), openOD(fb)
	it := b.RangeAsc(plainkv.MinKey, plainkv.MaxKey)
	rb := tb.recs
	if len(rb) > 0 && nd.Choice("advance", 2) == 1 {
		it.Advance()
		rb = rb[1:]
	}
	op := nd.Choice("op", 2)
	key := symKey("key", []int{3, 258}[nd.Choice("klen", 2)])
	wa, old := odDo(a, ta.recs, op, key, symVal("val", 130), l)
	keep := append([]byte{}, old...)
	walkRange(it, rb, false, -1, "C21")
	k2 := []byte{0, 0, 107, nd.Byte("key2")}
	if len(tb.recs) > 0 {
		copy(k2, tb.recs[len(tb.recs)/2].k[:3])
	}
	wb, _ := odDo(b, tb.recs, 1-op, k2, symVal("val2", 5), l)
	nd.Assert(bytes.Equal(keep, old), l)
	walkRange(a.RangeDesc(plainkv.MinKey, plainkv.MaxKey), wa, true, -1, "C21")
	walkRange(b.RangeDesc(plainkv.MinKey, plainkv.MaxKey), wb, true, -1, "C21")
	a.Close()
	walkRange(b.RangeAsc(plainkv.MinKey, plainkv.MaxKey), wb, false, -1, "C21")
	b.Close()
	ia := readImage(fa, ta)
	sameRecs(ia.recs, wa, l)
	ia.close()
	ib := readImage(fb, tb)
	sameRecs(ib.recs, wb, l)
	ib.close()
}

// odDo sets (op 0) or clears a key.
func odDo(od *plainkv.OrderedDict, recs []rec, op int, key, val []byte, label string) ([]rec, []byte) {
	i, ok := find(recs, key)
	var cur []byte
	if ok {
		cur = recs[i].v
	}
	if op == 0 {
		old := od.Set(key, val, true)
		nd.Assert(ok && bytes.Equal(old, cur) || !ok && old == nil, label)
		return applySet(recs, i, ok, key, val), old
	}
	old, in := od.Clear(key, true)
	nd.Assert(in == ok && bytes.Equal(old, cur), label)
	if ok {
		recs = applyClear(recs, i)
	}
	return recs, old
}

// twoDicts: two dictionaries open at once, one of them being scanned.
func twoDicts() {
	const l = "C21:dictionaries do not disturb each other"
	sa, sb := []int{1, 2, 3, 4}[nd.Choice("slots-a", 4)], []int{1, 3}[nd.Choice("slots-b", 2)]
	ra, rb := someItems(itemCount(sa, nd.Choice("items-a", 2))), someItems(itemCount(sb, 1))
	fa, fb := nd.TempFile("a"), nd.TempFile("b")
	newDict(sa, 1, minDirShift, ra).build(fa)
	newDict(sb, 1, minDirShift, rb).build(fb)
	strict()
	a, b := openDict(fa), openDict(fb)
	var cur plainkv.DictCursor
	var got []rec
	scan := func(n int) {
		for ; n != 0 && len(got) <= len(rb); n-- {
			k, v, ok := b.Scan(&cur)
			if !ok {
				return
			}
			got = append(got, rec{k, v})
		}
	}
	scan(nd.Choice("scanned", 2))
	op := nd.Choice("op", 2)
	wa, old := dictDo(a, ra, op, symDictKey([]int{1, 3, 4}[nd.Choice("key-kind", 3)]), symVal("val", 4), l)
	keep := append([]byte{}, old...)
	scan(-1)
	sameRecs(got, rb, l)
	wb, _ := dictDo(b, rb, 1-op, nd.Bytes("key2", 2), symVal("val2", 4), l)
	nd.Assert(bytes.Equal(keep, old), l)
	sameRecs(got, rb, l)
	for _, r := range wa {
		v, ok := a.Test(r.k, true)
		nd.Assert(ok && bytes.Equal(v, r.v), l)
	}
	a.Close()
	for _, r := range wb {
		v, ok := b.Test(r.k, true)
		nd.Assert(ok && bytes.Equal(v, r.v), l)
	}
	b.Close()
	ia := readDict(fa)
	sameRecs(ia.recs, wa, l)
	ia.close()
	ib := readDict(fb)
	sameRecs(ib.recs, wb, l)
	ib.close()
}

func dictDo(d *plainkv.Dict, recs []rec, op int, key, val []byte, label string) ([]rec, []byte) {
	i, ok := findItem(recs, key)
	var cur []byte
	if ok {
		cur = recs[i].v
	}
	if op == 0 {
		old := d.Set(key, val, true)
		nd.Assert(ok && bytes.Equal(old, cur) || !ok && old == nil, label)
		return setItem(recs, i, ok, key, val), old
	}
	old, in := d.Clear(key, true)
	nd.Assert(in == ok && bytes.Equal(old, cur), label)
	if ok {
		recs = clearItem(recs, i)
	}
	return recs, old
}

// oneFile: a tree and a table in the same file storage.
func oneFile() {
	const l = "C21:structures in one file do not disturb each other"
	file := nd.TempFile("f")
	var fs fsm.FileStorage
	fs.Init()
	fs.Open(file, true)
	strict()
	t := new(bptree.BPTree).Init(&fs)
	h := new(hashmap.HashMap).Init(&fs)
	t.Create()
	h.Create()
	var rt, rh []rec
	n := []int{0, 2, 40}[nd.Choice("records", 3)]
	first := nd.Choice("first", 2)
	b := &builder{c: 100}
	for i := 0; i < n; i++ {
		r := b.rec([]kvLen{{3, 4}, {258, 130}, {249, 100}, {250, 128}}[i%4])
		rt = append(rt, r)
		t.AddRecord(r.k, r.v, false)
		if i < 5 {
			rh = append(rh, r)
			h.AddItem(r.k, r.v, false)
		}
	}
	for i := 0; i < 2; i++ {
		tree := i == first
		op := nd.Choice("op", 2)
		val := symVal("val", 3)
		var key []byte
		// an iteration of the other structure, begun before and continued afterwards
		var it bptree.Iterator
		var cur hashmap.Cursor
		seen := rh
		some := 1 + nd.Choice("steps before", 2)
		if tree {
			seen = nil
			for ; some > 0 && len(seen) < len(rh); some-- {
				k, v, ok := h.FetchItem(&cur)
				nd.Assert(ok, l)
				seen = append(seen, rec{k, v})
			}
		} else {
			if some *= len(rt) / 2; some == 0 {
				some = 1
			}
			if it = t.SearchForward(bptree.MinKey, bptree.MaxKey); first == 0 {
				it = t.SearchBackward(bptree.MinKey, bptree.MaxKey)
			}
			for i := 0; i < some-1; i++ {
				it.Advance()
			}
			it.ReadRecordAll()
		}
		if tree {
			key = symKey("key", []int{3, 258}[nd.Choice("klen", 2)])
			c := counter(key)
			nd.Assume(c >= 100 && c <= 100+5*keyGap)
		} else {
			key = keyOf(100+keyGap, 3)
			key[2] = nd.Byte("key")
		}
		switch {
		case tree && op == 0:
			i, ok := find(rt, key)
			_, ok2 := t.AddOrUpdateRecord(key, val, false)
			nd.Assert(ok2 == !ok, l)
			rt = applySet(rt, i, ok, key, val)
		case tree:
			i, ok := find(rt, key)
			_, ok2 := t.DeleteRecord(key, false)
			nd.Assert(ok2 == ok, l)
			if ok {
				rt = applyClear(rt, i)
			}
		case op == 0:
			i, ok := findItem(rh, key)
			_, ok2 := h.AddOrUpdateItem(key, val, false)
			nd.Assert(ok2 == !ok, l)
			rh = setItem(rh, i, ok, key, val)
		default:
			i, ok := findItem(rh, key)
			_, ok2 := h.DeleteItem(key, false)
			nd.Assert(ok2 == ok, l)
			if ok {
				rh = clearItem(rh, i)
			}
		}
		if tree {
			for {
				k, v, ok := h.FetchItem(&cur)
				if !ok || len(seen) > len(rh) {
					break
				}
				seen = append(seen, rec{k, v})
			}
			sameRecs(seen, rh, l)
			continue
		}
		for i := some - 1; i < len(rt); i++ {
			r := rt[i]
			if first == 0 {
				r = rt[len(rt)-1-i]
			}
			if it.IsAtEnd() {
				nd.Assert(false, l)
				return
			}
			k, v, err := it.ReadRecordAll()
			nd.Assert(err == nil && bytes.Equal(k, r.k) && bytes.Equal(v, r.v), l)
			it.Advance()
		}
		nd.Assert(it.IsAtEnd(), l)
	}
	check := func() {
		nd.Assert(t.NumberOfRecords() == len(rt) && h.NumberOfItems() == len(rh), l)
		it := t.SearchForward(bptree.MinKey, bptree.MaxKey)
		for _, r := range rt {
			if it.IsAtEnd() {
				nd.Assert(false, l)
				return
			}
			k, v, err := it.ReadRecordAll()
			nd.Assert(err == nil && bytes.Equal(k, r.k) && bytes.Equal(v, r.v), l)
			it.Advance()
		}
		nd.Assert(it.IsAtEnd(), l)
		for _, r := range rh {
			v, ok := h.HasItem(r.k, true)
			nd.Assert(ok && bytes.Equal(v, r.v), l)
		}
	}
	check()
	ta, ha := t.Store(), h.Store()
	fs.Close()
	fs = fsm.FileStorage{}
	fs.Init()
	fs.Open(file, false)
	if nd.Choice("order", 2) == 1 {
		h.Init(&fs).Load(ha)
		t.Init(&fs).Load(ta)
	} else {
		t.Init(&fs).Load(ta)
		h.Init(&fs).Load(ha)
	}
	check()
	for _, r := range rt {
		t.DeleteRecord(r.k, false)
	}
	for _, r := range rh {
		v, ok := h.HasItem(r.k, true)
		nd.Assert(ok && bytes.Equal(v, r.v), l)
		h.DeleteItem(r.k, false)
	}
	t.Destroy()
	h.Destroy()
	fs.Close()
	nd.Assert(liveCount(file) == 0, l)
}

func init() {
	add(
		Entry{"DictScanMod", "C19 C09", "a scan of tables of 1-7 and 13 slots at minimum, middle and maximum load, the items in few slots or in all of them, interrupted after any number of steps by one (thorough: two) of Set, Clear, SetIfExists, SetIfNotExists with an arbitrary key of 3 kinds or the key just seen", true, 3, dictScanMod},
		Entry{"OdIterMany", "C08 C09", "two of four iterators side by side, one up to two steps ahead, with a Test of an arbitrary key of 3/258 bytes after each step, on trees of one to three leaves", true, 3, odIterMany},
		Entry{"OpenFlags", "C20", "three opens of either kind with any flag, arbitrary one-byte keys and values set between them", true, 2, openFlags},
		Entry{"TwoOds", "C21 C09", "two ordered dictionaries of one to three leaves open at once, one iterated while the other is changed by Set or Clear of an arbitrary key of 3/258 bytes, then the other way round", true, 3, twoOds},
		Entry{"TwoDicts", "C21 C09", "two dictionaries of 1-4 slots open at once, one scanned while the other is changed by Set or Clear of an arbitrary key of 3 kinds, then the other way round", true, 3, twoDicts},
		Entry{"OneFile", "C21 C09", "a tree of 0/2/40 records and a table in one file storage, one operation on each with an arbitrary key during an iteration of the other, stored, loaded in either order, emptied and destroyed", true, 3, oneFile},
	)
}
