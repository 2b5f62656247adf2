package harness

import (
	"bytes"

	"github.com/roy2220/plainkv"
	"zzverif/nd"
)

// dense makes a leaf of at most the given load out of records of 11 bytes, the
// first of which is extended to make the load exact.
func (b *builder) dense(load int) *node {
	n := load / 11
	recs := make([]rec, n)
	for i := range recs {
		recs[i] = b.rec(kvLen{3, 0})
	}
	recs[0].v = valOf(7, load-11*n)
	return leafNode(recs)
}

// odDense: leaves of hundreds of tiny records.
func odDense() {
	b := &builder{c: 100}
	var kids []*node
	x := 0
	shape := nd.Choice("shape", 8)
	switch shape {
	case 0, 1, 2: // one leaf of 131, 259 or 515 records
		kids = []*node{b.dense(11 * []int{131, 259, 515}[shape])}
	case 3: // a full one: it splits
		kids = []*node{b.dense(leafOver)}
	case 4: // a full one between full ones
		kids = []*node{b.dense(leafOver), b.dense(leafOver), b.dense(leafOver)}
		x = 1
	case 5: // a full one before one at the minimum: hundreds of records move right
		kids = []*node{b.dense(leafOver), b.dense(leafUnder)}
	case 6: // and left; or back
		kids = []*node{b.dense(leafUnder), b.dense(leafOver)}
		x = nd.Choice("target", 2)
	case 7: // two at the minimum: they merge
		kids = []*node{b.dense(leafUnder), b.dense(leafUnder)}
		x = nd.Choice("target", 2)
	}
	n := len(kids[x].recs)
	at := []int{0, 127, 255, n / 2, n - 1}[nd.Choice("at", 5)]
	if at >= n {
		at = n - 2
	}
	c := counter(kids[x].recs[at].k)
	root := kids[0]
	if len(kids) > 1 {
		root = inner(kids...)
	}
	stepOn(newTree(root), c-1, c+1, []int{3}, []int{0}, true)
}

// odDenseIter: iterators go along leaves of hundreds of records without losing count.
func odDenseIter() {
	b := &builder{c: 100}
	t := newTree(inner(b.dense(leafOver), b.dense(leafUnder+nd.Choice("more", 2)*1500), b.dense(leafOver)))
	file := nd.TempFile("od")
	t.build(file)
	strict()
	od := openOD(file)
	l := prop("an iteration yields the records of long leaves in order", "C02", "C08", "C09")
	n := len(t.recs)
	i := []int{0, 130, 260, 400, 600}[nd.Choice("from", 5)]
	k := keyOf(counter(t.recs[i].k), 3)
	k[2] = nd.Byte("from")
	nd.Assume(counter(k) >= counter(t.recs[i].k)-1 && counter(k) <= counter(t.recs[i].k)+1)
	j, ok := find(t.recs, k)
	end := n - 1 - []int{0, 130, 260, 400, 600}[nd.Choice("to", 5)]
	desc := nd.Choice("desc", 2) == 1
	var it plainkv.OrderedDictIterator
	recs := t.recs[j : end+1]
	if desc {
		it = od.RangeDesc(k, t.recs[end].k)
	} else {
		it = od.RangeAsc(k, t.recs[end].k)
	}
	_ = ok
	for m := range recs {
		r := recs[m]
		if desc {
			r = recs[len(recs)-1-m]
		}
		if it.IsAtEnd() {
			nd.Assert(false, l)
			return
		}
		key, err := it.ReadKeyAll()
		nd.Assert(err == nil && bytes.Equal(key, r.k), l)
		it = it.Advance()
	}
	nd.Assert(it.IsAtEnd(), l)
	od.Close()
}

// wide makes an inner node of m leaves with 3-byte separators. The leaf at
// index at and its neighbours have the given load, the others little.
func (b *builder) wide(m, at, load int) *node {
	n := &node{}
	for i := 0; i < m; i++ {
		if i >= at-1 && i <= at+1 {
			n.kids = append(n.kids, b.leaf(load, 249, []kvLen{{3, 7}}, nil))
		} else {
			n.kids = append(n.kids, b.leaf(leafUnder+30, 249, []kvLen{{3, 7}}, nil))
		}
	}
	return n
}

// odWide: inner nodes of hundreds of children.
func odWide() {
	b := &builder{c: 100}
	const most = nlOver / (childHdr + 3) // children that fit
	const few = nlUnder/(childHdr+3) + 1 // children at the minimum
	shape := nd.Choice("shape", 6)
	m := []int{128, 256, 513, most, few, few}[shape]
	clear := nd.Choice("clear", 2) == 1
	load := leafOver
	if clear {
		load = leafUnder
	}
	at := []int{1, 127, 255, m - 2}[nd.Choice("at", 4)]
	if at > m-2 {
		at = m / 2
	}
	x := b.wide(m, at, load)
	target := x.kids[at]
	root := x
	switch shape {
	case 3:
		if nd.Choice("sibling", 2) == 1 {
			root = inner(x, b.wide(few, 0, leafUnder))
		}
	case 4:
		root = inner(x, b.wide(few, 0, leafUnder))
	case 5:
		root = inner(x, b.wide(most, 0, leafUnder))
	}
	t := newTree(root)
	c := counter(target.recs[len(target.recs)/2].k)
	if clear {
		stepOn(t, c, c, []int{249}, nil, true)
	} else {
		stepOn(t, c, c+1, []int{249}, []int{128}, false)
	}
}

func init() {
	add(
		Entry{"OdDense", odAll, "one Set/Clear of an arbitrary key next to records number 0, 127, 255, in the middle and at the end of leaves of 131 to 707 records of 11 bytes, that split, merge and give or take hundreds of records", true, 3, odDense},
		Entry{"OdDenseIter", "C02 C08 C09", "iterations in both directions from an arbitrary key next to records number 0, 130, 260, 400 and 600 to as many records before the end, over three leaves of up to 707 records", true, 3, odDenseIter},
		Entry{"OdWide", odAll, "one Set that splits or Clear that merges leaves at children number 1, 127, 255, and before the last, of inner nodes of 128 to 527 children that split, merge, give or take hundreds of children; key concrete but for a few bits", true, 3, odWide},
	)
}
