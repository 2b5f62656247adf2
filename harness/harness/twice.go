package harness

import (
	"bytes"

	"github.com/roy2220/plainkv"
	"zzverif/nd"
)

// Something is read, an operation changes the structure, another one follows:
// whatever the first two left behind in memory (in a cache, say) must not show.
// The storage may hand out released addresses again.

func odTwice() {
	b := &builder{c: 100}
	shape := nd.Choice("shape", 4)
	warm := nd.Choice("warm", 4)
	op1 := nd.Choice("op1", 3)
	at := nd.Choice("at", 5)
	op2 := nd.Choice("op2", 5)
	reuse := nd.Choice("reuse", 2) == 1
	var t *tree
	first := 0 // the first record of the second leaf
	switch shape {
	case 0: // two leaves that merge
		l := b.leaf(leafUnder, 249, nil, []kvLen{{3, 200}})
		first = len(l.recs)
		t = newTree(inner(l, b.leaf(leafUnder, 249, []kvLen{{260, 129}}, nil)))
	case 1: // a leaf that splits
		t = newTree(b.leaf(leafOver, 249, []kvLen{{3, 200}, {260, 5}}, nil))
		first = len(t.recs) / 2
	case 2: // records that move from one leaf to the other
		l := b.leaf(leafUnder, 249, nil, []kvLen{{3, 200}})
		first = len(l.recs)
		t = newTree(inner(l, b.leaf(leafOver, 249, []kvLen{{260, 129}}, nil)))
	case 3: // a few records
		t = newTree(leafNode([]rec{b.rec(kvLen{3, 200}), b.rec(kvLen{3, 1}), b.rec(kvLen{260, 200})}))
		first = 1
	}
	file := nd.TempFile("od")
	t.build(file)
	nd.Reuse(reuse)
	strict()
	od := openOD(file)
	lo, hi := counter(t.recs[first-1].k)-1, counter(t.recs[first].k)+1
	key := append([]byte{}, t.recs[first].k...)
	copy(key, nd.Bytes("key", 3))
	nd.Assume(counter(key) >= lo && counter(key) <= hi)
	recs := t.recs
	i, ok := find(recs, key)
	switch warm {
	case 1:
		v, ok2 := od.Test(key, true)
		nd.Assert(ok == ok2 && (!ok || bytes.Equal(v, recs[i].v)), "C01:Test finds the key before the change")
	case 2:
		for j := first - 1; j <= first+1 && j < len(recs); j++ {
			v, ok := od.Test(recs[j].k, true)
			nd.Assert(ok && bytes.Equal(v, recs[j].v), "C01:Test finds the key before the change")
		}
	case 3:
		it := od.RangeAsc(recs[first-1].k, plainkv.MaxKey)
		for n := 0; n < 3 && !it.IsAtEnd(); n++ {
			it.ReadRecordAll()
			it = it.Advance()
		}
		it = od.RangeDesc(plainkv.MinKey, plainkv.MaxKey)
		it.ReadRecordAll()
	}
	// the first change: to a record at either side of the edge, at the ends, or to the same key
	j := []int{first - 1, first, 0, len(recs) - 1, -1}[at]
	k1 := key
	if j >= 0 {
		k1 = append([]byte{}, recs[j].k...)
		if op1 == 0 { // a new key next to it
			k1 = keyOf(counter(k1)+2, 249)
		}
	}
	v1 := valOf(3, 128)
	if op1 == 2 && j >= 0 && len(recs[j].v) > 60 { // replaced by a much shorter one
		v1 = []byte{7}
	}
	recs = odOp(od, recs, op1, k1, v1, true)
	var val []byte
	if op2 != 1 && op2 != 4 {
		val = symVal("val", []int{200, 2}[nd.Choice("vlen", 2)])
	}
	recs = odOp(od, recs, op2, key, val, true)
	i, ok = find(recs, key)
	v, ok2 := od.Test(key, true)
	nd.Assert(ok == ok2 && (!ok || bytes.Equal(v, recs[i].v)), "C01:Test agrees with the last operation on the key")
	v, ok2 = od.Test(k1, true)
	i, ok = find(recs, k1)
	nd.Assert(ok == ok2 && (!ok || bytes.Equal(v, recs[i].v)), "C01:Test agrees with the last operation on the key")
	odAfter(od, file, t, recs, first)
}

func dictTwice() {
	slots := pick("slots", []int{1, 3, 4}, []int{1, 2, 3, 4, 5, 8})
	recs := someItems(itemCount(slots, nd.Choice("items", 2)))
	warm := nd.Choice("warm", 3)
	op1 := nd.Choice("op1", 3)
	at := nd.Choice("at", 4)
	op2 := nd.Choice("op2", 5)
	reuse := nd.Choice("reuse", 2) == 1
	kind := pick("key-kind", []int{0, 4}, []int{0, 3, 4})
	nd.Assume(len(recs) > 0 || at == 3)
	dd := newDict(slots, 1, minDirShift, recs)
	file := nd.TempFile("d")
	dd.build(file)
	nd.Reuse(reuse)
	strict()
	d := openDict(file)
	key := symDictKey(kind)
	i, ok := findItem(recs, key)
	switch warm {
	case 1:
		v, ok2 := d.Test(key, true)
		nd.Assert(ok == ok2 && (!ok || bytes.Equal(v, recs[i].v)), "C11:Test finds the key before the change")
	case 2:
		for _, r := range recs {
			v, ok := d.Test(r.k, true)
			nd.Assert(ok && bytes.Equal(v, r.v), "C11:Test finds the key before the change")
		}
		var cur plainkv.DictCursor
		d.Scan(&cur)
	}
	k1 := key
	if at < 3 {
		k1 = append([]byte{}, recs[[]int{0, len(recs) / 2, len(recs) - 1}[at]].k...)
		if op1 == 0 {
			k1 = append(k1, 'n')
		}
	}
	recs = dictOp(d, recs, op1, k1, valOf(3, 9), true) // a new key or another value, Clear, SetIfExists
	var val []byte
	if op2 != 1 && op2 != 4 {
		val = symVal("val", 2)
	}
	recs = dictOp(d, recs, op2, key, val, true)
	for _, k := range [][]byte{key, k1} {
		i, ok = findItem(recs, k)
		v, ok2 := d.Test(k, true)
		nd.Assert(ok == ok2 && (!ok || bytes.Equal(v, recs[i].v)), "C11:Test agrees with the last operation on the key")
	}
	for _, r := range recs {
		v, ok := d.Test(r.k, true)
		nd.Assert(ok && bytes.Equal(v, r.v), "C11:every item is found with its value")
		nd.Assert(ok && bytes.Equal(v, r.v), "C13:every item is found after resizing")
	}
	dictAfter(d, file, recs)
}

func init() {
	add(
		Entry{"OdTwice", odAll + " C05", "reads (none, Test of the key or of its neighbours, iterations), then one Set or Clear at either side of the edge between two leaves or at the ends, then one of the five operations with an arbitrary key at the edge, on leaves that merge, split or exchange records and on three records; released addresses used again or not", true, 5, odTwice},
		Entry{"DictTwice", dictAll + " C12 C17", "reads (none, Test of the key, Test of all items and a scan), then one Set or Clear, then one of the five operations with an arbitrary key of 2 (thorough: 3) kinds, on tables of 1/3/4 (thorough: 1-5 and 8) slots at minimum and maximum load; released addresses used again or not", true, 5, dictTwice},
	)
}
