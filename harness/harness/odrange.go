package harness

import (
	"bytes"

	"github.com/roy2220/plainkv"
	"zzverif/nd"
)

// smallTree is a two-level tree with few records per leaf is not valid (leaves
// have a minimum load), so leaves hold a handful of large records.
func rangeTree(shape int) *tree {
	b := &builder{c: 100}
	big := func(n int) *node {
		var recs []rec
		for i := 0; i < n; i++ {
			recs = append(recs, b.rec(kvLen{256, 128}))
		}
		return leafNode(recs)
	}
	switch shape {
	case 0:
		return newTree(leafNode(nil))
	case 1:
		return newTree(leafNode([]rec{b.rec(kvLen{3, 2})}))
	case 2:
		return newTree(leafNode([]rec{b.rec(kvLen{3, 2}), b.rec(kvLen{0 + 3, 0}), b.rec(kvLen{257, 129})}))
	case 3:
		return newTree(inner(big(8), big(8)))
	case 4:
		return newTree(inner(big(8), big(9), big(8)))
	}
	n1, _ := b.sub(nlUnder, 0, ls{}, ls{}, ls{}, 256, 256)
	n2, _ := b.sub(nlUnder, 0, ls{}, ls{}, ls{}, 257, 257)
	return newTree(inner(n1, n2))
}

// bound returns a range bound: a sentinel or an arbitrary key.
func bound(name string, kinds int) (kind int, key []byte) {
	kind = nd.Choice(name+"-kind", kinds)
	switch kind {
	case 0:
		return kind, plainkv.MinKey
	case 1:
		return kind, plainkv.MaxKey
	case 2:
		return kind, nd.Bytes(name, 3)
	case 3: // an ordinary key that happens to spell like the sentinel
		return kind, []byte("MIN_KEY")
	case 4:
		return kind, []byte("MAX_KEY")
	case 5:
		return kind, symKey(name, 256)
	case 6:
		return kind, symKey(name, 300)
	}
	return kind, []byte{}
}

// lower returns the index of the first record whose key is >= the bound, upper
// the index after the last record whose key is <= the bound.
func lower(recs []rec, kind int, key []byte) int {
	switch kind {
	case 0:
		return 0
	case 1:
		return len(recs) - 1
	}
	i, _ := find(recs, key)
	return i
}

func upper(recs []rec, kind int, key []byte) int {
	switch kind {
	case 0:
		return 1
	case 1:
		return len(recs)
	}
	i, ok := find(recs, key)
	if ok {
		i++
	}
	return i
}

func checkRange(od *plainkv.OrderedDict, recs []rec, desc bool, k1, k2 int, min, max []byte) {
	lo, hi := 0, 0
	if len(recs) > 0 {
		lo, hi = lower(recs, k1, min), upper(recs, k2, max)
	}
	var it plainkv.OrderedDictIterator
	if desc {
		it = od.RangeDesc(min, max)
	} else {
		it = od.RangeAsc(min, max)
	}
	n := hi - lo
	if n < 0 {
		n = 0
	}
	if n > 0 {
		nd.Reach("nonempty range")
	}
	for i := 0; i < n; i++ {
		r := recs[lo+i]
		if desc {
			r = recs[hi-1-i]
		}
		if it.IsAtEnd() {
			nd.Assert(false, "C02:the iteration reaches every record of the range")
			return
		}
		k, v, err := it.ReadRecordAll()
		nd.Assert(err == nil && bytes.Equal(k, r.k) && bytes.Equal(v, r.v), "C02:the iteration yields the records of the range in order")
		it = it.Advance()
	}
	nd.Assert(it.IsAtEnd(), "C02:the iteration ends after the last record of the range")
}

func odRange() {
	shapes := 5
	if nd.Tier() > 0 {
		shapes = 6
	}
	t := rangeTree(nd.Choice("shape", shapes))
	desc := nd.Choice("desc", 2) == 1
	file := nd.TempFile("od")
	t.build(file)
	od := openOD(file)
	kinds := 3
	if nd.Tier() > 0 {
		kinds = 8
	}
	k1, min := bound("min", kinds)
	k2, max := bound("max", kinds)
	checkRange(od, t.recs, desc, k1, k2, min, max)
	od.Close()
}

// The two bounds are the same arbitrary key, given as one slice or as two.
func odRangePoint() {
	t := rangeTree(nd.Choice("shape", 5))
	desc := nd.Choice("desc", 2) == 1
	file := nd.TempFile("od")
	t.build(file)
	od := openOD(file)
	k1, min := bound("min", 8)
	max := min
	if nd.Choice("copy", 2) == 1 && k1 != 0 && k1 != 1 {
		max = append([]byte{}, min...)
	}
	checkRange(od, t.recs, desc, k1, k1, min, max)
	od.Close()
}

// Keys that spell like the sentinels are ordinary keys.
func odRangeKinds() {
	b := &builder{c: 100}
	recs := []rec{b.rec(kvLen{3, 2}), {[]byte("MAX_KEY"), []byte("x")}, {[]byte("MIN_KEY"), []byte("y")}, {[]byte("z"), nil}}
	t := newTree(leafNode(recs))
	desc := nd.Choice("desc", 2) == 1
	file := nd.TempFile("od")
	t.build(file)
	od := openOD(file)
	k1, min := bound("min", 8)
	k2, max := bound("max", 8)
	checkRange(od, t.recs, desc, k1, k2, min, max)
	od.Close()
}

func init() {
	add(
		Entry{"OdRange", "C02", "RangeAsc/RangeDesc with each bound MinKey, MaxKey or an arbitrary 3-byte key (thorough: also empty, sentinel spellings, 256/300-byte keys) over 5 trees of 0-25 records (thorough: also height 3)", true, 4, odRange},
		Entry{"OdRangePoint", "C02", "RangeAsc/RangeDesc with both bounds the same key of 8 kinds (sentinels, arbitrary 3-byte, sentinel spellings, 256/300-byte, empty), given as one slice or two, over 5 trees", true, 4, odRangePoint},
		Entry{"OdRangeKinds", "C02", "RangeAsc/RangeDesc with bounds of 8 kinds each over records whose keys spell like the sentinels", true, 3, odRangeKinds},
	)
}
