package harness

import (
	"bytes"

	"github.com/roy2220/plainkv"
	"zzverif/nd"
)

// odOp applies one operation to od and to the expected (sorted) records.
func odOp(od *plainkv.OrderedDict, recs []rec, op int, key, val []byte, ret bool) []rec {
	i, ok := find(recs, key)
	var cur []byte
	if ok {
		cur = recs[i].v
	}
	switch op {
	case 0:
		old := od.Set(key, val, ret)
		if ok {
			nd.Assert(eqOpt(old, cur, ret), "C01:Set returns the replaced value")
			nd.Reach("update")
		} else {
			nd.Assert(old == nil, "C01:Set of a new key returns nothing")
			nd.Reach("insert")
		}
		return applySet(recs, i, ok, key, val)
	case 1:
		old, ok2 := od.Clear(key, ret)
		nd.Assert(ok2 == ok, "C01:Clear reports presence")
		if !ok {
			nd.Assert(old == nil, "C01:Clear of an absent key returns nothing")
			return recs
		}
		nd.Reach("clear")
		nd.Assert(eqOpt(old, cur, ret), "C01:Clear returns the removed value")
		return applyClear(recs, i)
	case 2:
		old, ok2 := od.SetIfExists(key, val, ret)
		nd.Assert(ok2 == ok, "C01:SetIfExists reports presence")
		if !ok {
			nd.Assert(old == nil, "C01:SetIfExists of an absent key returns nothing")
			return recs
		}
		nd.Reach("update if exists")
		nd.Assert(eqOpt(old, cur, ret), "C01:SetIfExists returns the replaced value")
		return applySet(recs, i, ok, key, val)
	case 3:
		old, ok2 := od.SetIfNotExists(key, val, ret)
		nd.Assert(ok2 == !ok, "C01:SetIfNotExists reports absence")
		if ok {
			nd.Assert(eqOpt(old, cur, ret), "C01:SetIfNotExists returns the present value")
			return recs
		}
		nd.Reach("insert if not exists")
		nd.Assert(old == nil, "C01:SetIfNotExists of a new key returns nothing")
		return applySet(recs, i, ok, key, val)
	}
	old, ok2 := od.Test(key, ret)
	nd.Assert(ok2 == ok, "C01:Test reports presence")
	nd.Assert(!ok && old == nil || ok && eqOpt(old, cur, ret), "C01:Test returns the present value")
	return recs
}

// opTree is a small tree whose records have assorted lengths.
func opTree(shape int) *tree {
	b := &builder{c: 100}
	switch shape {
	case 0:
		return newTree(leafNode(nil))
	case 1:
		return newTree(leafNode([]rec{b.rec(kvLen{3, 2})}))
	case 2: // every class of record lengths, including the empty key and empty values
		recs := []rec{{[]byte{}, valOf(9, 3)}}
		for _, l := range []kvLen{{3, 0}, {4, 128}, {249, 129}, {256, 5}, {257, 1}, {258, 300}, {3, 121}} {
			recs = append(recs, b.rec(l))
		}
		return newTree(leafNode(recs))
	case 3:
		p := []kvLen{{3, 0}, {257, 129}, {4, 5}}
		return newTree(inner(b.leaf(leafUnder, 200, p, p), b.leaf(leafOver, 249, p, p)))
	}
	p := []kvLen{{257, 0}, {3, 200}}
	return newTree(inner(b.leaf(leafOver, 256, p, nil), b.leaf(leafUnder, 100, p, p), b.leaf(leafUnder+100, 257, nil, p)))
}

// Every point operation with an arbitrary key and value on small trees.
func odOps() {
	t := opTree(nd.Choice("shape", 5))
	op := nd.Choice("op", 5)
	kl := []int{3, 0, 1, 249, 257, 258}[nd.Choice("klen", 6)]
	file := nd.TempFile("od")
	t.build(file)
	strict()
	od := openOD(file)
	var key, val []byte
	if kl < 3 {
		key = nd.Bytes("key", kl)
	} else {
		key = symKey("key", kl)
	}
	if op != 1 && op != 4 {
		vls := []int{0, 5, 128, 129}
		val = symVal("val", vls[nd.Choice("vlen", len(vls))])
	}
	want := odOp(od, t.recs, op, key, val, nd.Bool("ret"))
	got, ok2 := od.Test(key, true)
	i, ok := find(want, key)
	nd.Assert(ok == ok2 && (!ok || bytes.Equal(got, want[i].v)), "C01:Test agrees with the last operation on the key")
	odAfter(od, file, t, want, i)
}

// Every stored key is found by Test, and keys close to one are told apart from it.
func odFind() {
	t := opTree(2 + nd.Choice("shape", 3))
	rel := nd.Choice("relation", 4)
	file := nd.TempFile("od")
	t.build(file)
	strict()
	od := openOD(file)
	r := t.recs[nd.Choice("record", len(t.recs))]
	k := append([]byte{}, r.k...)
	n := len(k)
	switch rel {
	case 1: // the last byte differs
		if n > 0 {
			k[n-1] = nd.Byte("other")
		}
	case 2: // an extension
		k = append(k, nd.Byte("longer"))
	case 3: // a prefix
		if n > 0 {
			k = k[:n-1]
		}
	}
	ret := nd.Bool("ret")
	v, ok := od.Test(k, ret)
	i, in := find(t.recs, k)
	nd.Assert(ok == in, "C01:Test tells a key from its neighbours, prefixes and extensions")
	nd.Assert(!ok && v == nil || ok && eqOpt(v, t.recs[i].v, ret), "C01:Test returns the present value")
	od.Close()
}

// Operations that do nothing leave the dictionary as it was.
func odQuiet() {
	t := opTree(nd.Choice("shape", 5))
	op := nd.Choice("op", 7)
	kl := []int{0, 3, 249, 257, 300}[nd.Choice("klen", 5)]
	file := nd.TempFile("od")
	t.build(file)
	od := openOD(file)
	before := od.Stats()
	var key []byte
	if kl < 3 {
		key = nd.Bytes("key", kl)
	} else {
		key = symKey("key", kl)
	}
	_, in := find(t.recs, key)
	ret := nd.Bool("ret")
	vl := []int{2, 129}
	switch op {
	case 0:
		nd.Assume(!in)
		_, ok := od.SetIfExists(key, symVal("val", vl[nd.Choice("vlen", 2)]), ret)
		nd.Assert(!ok, "C18:SetIfExists of an absent key fails")
	case 1:
		nd.Assume(in)
		_, ok := od.SetIfNotExists(key, symVal("val", vl[nd.Choice("vlen", 2)]), ret)
		nd.Assert(!ok, "C18:SetIfNotExists of a present key fails")
	case 2:
		nd.Assume(!in)
		_, ok := od.Clear(key, ret)
		nd.Assert(!ok, "C18:Clear of an absent key fails")
	case 3:
		od.Test(key, ret)
	case 4:
		for it := od.RangeAsc(key, plainkv.MaxKey); !it.IsAtEnd(); it = it.Advance() {
			it.ReadRecordAll()
		}
	case 5:
		for it := od.RangeDesc(plainkv.MinKey, key); !it.IsAtEnd(); it = it.Advance() {
			it.ReadRecordAll()
		}
	case 6:
		od.Close()
		od = openOD(file)
	}
	after := od.Stats()
	nd.Assert(before.NumberOfBPTreeRecords == after.NumberOfBPTreeRecords && before.PayloadSize == after.PayloadSize &&
		before.NumberOfBPTreeLeafs == after.NumberOfBPTreeLeafs && before.NumberOfBPTreeNonLeafs == after.NumberOfBPTreeNonLeafs &&
		before.BPTreeHeight == after.BPTreeHeight, "C18:an operation that does nothing leaves the stats as they were")
	od.Close()
	im := readImage(file, t)
	sameRecs(im.recs, t.recs, "C18:an operation that does nothing leaves the records as they were")
	live, ok := nd.LiveSpaces(file)
	nd.Assert(!ok || len(live) == len(im.spaces), "C18:an operation that does nothing allocates nothing")
	im.close()
}

// Short histories from an empty dictionary, with reopening.
func odSeq() {
	steps := 3
	if nd.Tier() > 0 {
		steps = 4
	}
	ops := make([]int, steps)
	for s := range ops {
		ops[s] = nd.Choice("op", 6)
	}
	file := nd.TempFile("od")
	strict()
	od := openOD(file)
	var recs []rec
	for _, op := range ops {
		if op == 5 {
			odFinish(od, file, nil, recs)
			od = openOD(file)
			continue
		}
		var key []byte
		switch nd.Choice("key-kind", 3) {
		case 0:
			key = nd.Bytes("key", 1)
		case 1:
			key = []byte{}
		case 2:
			key = append(keyOf(1, 259), nd.Byte("key"))
		}
		var val []byte
		if op != 1 && op != 4 {
			val = symVal("val", []int{1, 130}[nd.Choice("vlen", 2)])
		}
		recs = odOp(od, recs, op, key, val, true)
		st := od.Stats()
		nd.Assert(st.NumberOfBPTreeRecords == len(recs), "C07:Stats reports the number of records")
		nd.Assert(st.PayloadSize == payloadOf(recs), "C07:Stats reports the payload size")
	}
	odAfter(od, file, nil, recs, len(recs)/2)
}

func init() {
	add(
		Entry{"OdOps", odAll + " C05", "one of the five point operations with an arbitrary 0-, 1- or 3-byte key or a key of 249/257/258 bytes with four arbitrary bytes, and a value of 0/5/128/129 bytes with arbitrary ends, on five small trees holding every class of record lengths", true, 3, odOps},
		Entry{"OdFind", "C01 C09", "Test of every key stored in three trees, its prefix, its extension by an arbitrary byte and the keys that differ in the last byte", true, 2, odFind},
		Entry{"OdQuiet", "C18", "failing SetIfExists/SetIfNotExists/Clear, Test, full iterations and close/reopen with an arbitrary key of 0/3/249/257/300 bytes on five trees", true, 3, odQuiet},
		Entry{"OdSeq", odAll, "every history of 3 (thorough: 4) operations out of Set, Clear, SetIfExists, SetIfNotExists, Test and reopen from an empty file, arbitrary 1-byte keys, the empty key and 260-byte keys with an arbitrary last byte, values of 1/130 bytes with arbitrary ends", true, 3, odSeq},
	)
}
