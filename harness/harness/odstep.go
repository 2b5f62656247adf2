package harness

import (
	"bytes"

	"github.com/roy2220/plainkv"
	"zzverif/nd"
)

// keyGap is the distance between the counters of neighbouring keys.
const keyGap = 7

// keyOf makes a key of length n (>= 3) that sorts by c.
func keyOf(c, n int) []byte {
	k := make([]byte, n)
	k[0], k[1], k[2] = byte(c>>16), byte(c>>8), byte(c)
	for i := 3; i < n; {
		i += copy(k[i:], kkk)
	}
	return k
}

const kkk = "kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk"

// counting holds the bytes 0..255 twice.
var counting = func() []byte {
	b := make([]byte, 512)
	for i := range b {
		b[i] = byte(i)
	}
	return b
}()

func valOf(c, n int) []byte {
	v := make([]byte, n)
	for i := 0; i < n; {
		i += copy(v[i:], counting[(c+i)&255:])
	}
	return v
}

type kvLen struct{ k, v int }

// builder hands out records with ascending keys.
type builder struct{ c int }

func (b *builder) rec(l kvLen) rec {
	b.c += keyGap
	return rec{keyOf(b.c, l.k), valOf(b.c, l.v)}
}

// leaf makes a leaf of exactly the given load. head and tail are the lengths of
// its first and last records; the others have keys of length kl.
func (b *builder) leaf(load, kl int, head, tail []kvLen) *node {
	rest := load
	for _, l := range head {
		rest -= recSize(l.k, l.v)
	}
	for _, l := range tail {
		rest -= recSize(l.k, l.v)
	}
	base := recHdr + inKeyLen(kl)
	n := (rest + base + longVal - 1) / (base + longVal)
	var recs []rec
	for _, l := range head {
		recs = append(recs, b.rec(l))
	}
	for i := 0; i < n; i++ {
		s := rest / (n - i)
		rest -= s
		vl := s - base
		if vl < 0 || vl > longVal {
			panic("bad leaf specification")
		}
		if vl == longVal {
			vl = 140
		}
		recs = append(recs, b.rec(kvLen{kl, vl}))
	}
	for _, l := range tail {
		recs = append(recs, b.rec(l))
	}
	return leafNode(recs)
}

func inner(kids ...*node) *node { return &node{kids: kids} }

// find locates key in recs: (index, present).
func find(recs []rec, key []byte) (int, bool) {
	i, j := 0, len(recs)
	for i < j {
		m := (i + j) / 2
		if bytes.Compare(recs[m].k, key) < 0 {
			i = m + 1
		} else {
			j = m
		}
	}
	return i, i < len(recs) && bytes.Equal(recs[i].k, key)
}

func applySet(recs []rec, i int, ok bool, k, v []byte) []rec {
	out := make([]rec, 0, len(recs)+1)
	out = append(out, recs[:i]...)
	out = append(out, rec{k, v})
	if ok {
		i++
	}
	return append(out, recs[i:]...)
}

func applyClear(recs []rec, i int) []rec {
	out := make([]rec, 0, len(recs))
	out = append(out, recs[:i]...)
	return append(out, recs[i+1:]...)
}

// symKey is a key of length n whose first 3 bytes and last byte are arbitrary.
func symKey(name string, n int) []byte {
	k := make([]byte, n)
	for i := range k {
		k[i] = 'k'
	}
	copy(k, nd.Bytes(name, 3))
	if n > 3 {
		k[n-1] = nd.Byte(name + "-last")
	}
	return k
}

// symVal is a value of length n whose first and last bytes are arbitrary.
func symVal(name string, n int) []byte {
	v := make([]byte, n)
	for i := range v {
		v[i] = byte(i)
	}
	if n > 0 {
		v[0] = nd.Byte(name)
		v[n-1] = nd.Byte(name + "-last")
	}
	return v
}

// counter reads back the counter that keyOf stored.
func counter(k []byte) int { return int(k[0])<<16 | int(k[1])<<8 | int(k[2]) }

func openOD(file string) *plainkv.OrderedDict {
	od, err := plainkv.OpenOrderedDict(file, true)
	if err != nil {
		nd.Assert(false, "C04:opens")
	}
	return od
}

func eqOpt(got, want []byte, asked bool) bool {
	if !asked {
		return got == nil
	}
	return bytes.Equal(got, want)
}

// odFinish closes the dictionary and validates the file against the expected records.
func odFinish(od *plainkv.OrderedDict, file string, pre *tree, want []rec) {
	st := od.Stats()
	n, pay := len(want), 0
	for _, r := range want {
		pay += len(r.k) + len(r.v)
	}
	nd.Assert(st.NumberOfBPTreeRecords == n, "C07:Stats reports the number of records")
	nd.Assert(st.PayloadSize == pay, "C07:Stats reports the payload size")
	if err := od.Close(); err != nil {
		nd.Assert(false, "C04:Close succeeds")
	}
	im := readImage(file, pre)
	im.check()
	if nd.Active("C07") {
		nd.Assert(st.NumberOfBPTreeLeafs == len(im.leaves), "C07:Stats reports the number of leaves")
		nd.Assert(st.NumberOfBPTreeNonLeafs == im.nonleafs, "C07:Stats reports the number of inner nodes")
		nd.Assert(st.BPTreeHeight == im.hgt, "C07:Stats reports the height")
	}
	if nd.Active("C01") || nd.Active("C04") || nd.Active("C05") {
		ok := len(im.recs) == n
		nd.Assert(ok, "C01:no other record appears or disappears")
		nd.Assert(ok, "C04:the file holds every record")
		for i := range want {
			g, w := im.recs[i], want[i]
			e := bytes.Equal(g.k, w.k) && bytes.Equal(g.v, w.v)
			nd.Assert(e, "C01:records have the expected keys and values")
			nd.Assert(e, "C04:the file holds the exact keys and values")
			nd.Assert(e, "C05:long keys and values are stored intact")
		}
	}
	if nd.Active("C06") {
		im.checkSpaces(file)
	}
	im.close()
}

// odAfter checks the dictionary after an operation near record i.
func odAfter(od *plainkv.OrderedDict, file string, t *tree, want []rec, i int) {
	limit := 5
	if t == nil || t.height < 3 {
		limit = -1
	}
	if nd.Active("C02") {
		rangesAround(od, want, i, limit, "C02")
	}
	if nd.Active("C01") {
		testsAround(od, t, want, i, "C01")
	}
	before := od.Stats()
	odFinish(od, file, t, want)
	if nd.Active("C04") {
		odReopened(file, t, before, want, i)
	}
}

// stepOn runs one operation with an arbitrary key on the tree.
func stepOn(t *tree, lo, hi int, keyLens, valLens []int, clear bool) {
	file := nd.TempFile("od")
	t.build(file)
	strict()
	od := openOD(file)
	nk := nd.Choice("klen", len(keyLens))
	op := 0
	if clear {
		op = nd.Choice("op", len(valLens)+1)
	} else {
		op = nd.Choice("op", len(valLens))
	}
	key := symKey("key", keyLens[nk])
	c := counter(key)
	nd.Assume(c >= lo && c <= hi)
	i, ok := find(t.recs, key)
	ret := nd.Bool("ret")
	var want []rec
	if op < len(valLens) {
		val := symVal("val", valLens[op])
		old := od.Set(key, val, ret)
		if ok {
			nd.Assert(eqOpt(old, t.recs[i].v, ret), "C01:Set returns the replaced value")
			nd.Reach("update")
		} else {
			nd.Assert(old == nil, "C01:Set of a new key returns nothing")
			nd.Reach("insert")
		}
		want = applySet(t.recs, i, ok, key, val)
		got, ok2 := od.Test(key, true)
		nd.Assert(ok2 && bytes.Equal(got, val), "C01:Test returns the value just set")
	} else {
		old, ok2 := od.Clear(key, ret)
		nd.Assert(ok2 == ok, "C01:Clear reports presence")
		want = t.recs
		if ok {
			nd.Assert(eqOpt(old, t.recs[i].v, ret), "C01:Clear returns the removed value")
			want = applyClear(t.recs, i)
			nd.Reach("clear")
		}
		_, ok2 = od.Test(key, true)
		nd.Assert(!ok2, "C01:Test does not find a cleared key")
	}
	odAfter(od, file, t, want, i)
}
