package harness

import "zzverif/nd"

// ls specifies a leaf: exact load, length of most keys, first and last records.
type ls struct {
	load, kl   int
	head, tail []kvLen
}

func (b *builder) mk(s ls) *node { return b.leaf(s.load, s.kl, s.head, s.tail) }

// edges are the record patterns at the ends of a leaf: they decide where the
// loops that choose how many records to move stop.
func edges(p int) []kvLen {
	switch p {
	case 1: // tiny records, so that a large one follows a small one
		return []kvLen{{3, 0}, {4, 1}}
	case 2: // largest possible record
		return []kvLen{{300, 200}}
	}
	return nil
}

func rev(l []kvLen) []kvLen {
	out := make([]kvLen, 0, len(l))
	for i := len(l) - 1; i >= 0; i-- {
		out = append(out, l[i])
	}
	return out
}

// span is the range of counters whose keys belong to leaf n, given the next leaf.
func span(n, next *node) (int, int) {
	lo := counter(n.recs[0].k)
	hi := 1<<24 - 1
	if next != nil {
		hi = counter(next.recs[0].k) - 1
	}
	return lo, hi
}

func pick(name string, quick, thorough []int) int {
	v := quick
	if nd.Tier() > 0 {
		v = thorough
	}
	return v[nd.Choice(name, len(v))]
}

// A single leaf as root: empty, small, and full (the root then splits).
func odStepH1() {
	b := &builder{c: 100}
	var t *tree
	switch nd.Choice("shape", 5) {
	case 0:
		t = newTree(leafNode(nil))
	case 1:
		t = newTree(leafNode([]rec{b.rec(kvLen{3, 5})}))
	case 2:
		t = newTree(b.leaf(leafOver, 249, nil, nil))
	case 3:
		t = newTree(b.leaf(leafOver-200, 257, []kvLen{{3, 0}}, []kvLen{{300, 200}}))
	case 4:
		t = newTree(b.leaf(leafOver, 100, []kvLen{{3, 0}}, []kvLen{{249, 129}}))
	}
	stepOn(t, 0, 1<<24-1, []int{3, 100, 249, 257}, []int{0, 128, 129}, true)
}

// Two or three leaves under the root; the target leaf is (nearly) full: an
// operation on it shifts records to a sibling or splits it.
func odStepOver() {
	b := &builder{c: 100}
	p := nd.Choice("edges", 3)
	sib := nd.Choice("siblings", 9)
	load := pick("load", []int{leafOver}, []int{leafOver, leafOver - 1, leafOver - 130, leafOver - 380})
	none, near, mid, low := -1, leafOver-150, leafOver-1200, leafUnder
	pairs := [][2]int{{none, leafOver}, {none, near}, {none, low}, {leafOver, none}, {near, none}, {low, none}, {leafOver, near}, {near, leafOver}, {mid, mid}}
	l, r := pairs[sib][0], pairs[sib][1]
	kl := pick("kl", []int{200}, []int{200, 3, 257})
	var kids []*node
	if l >= 0 {
		kids = append(kids, b.leaf(l, 200, nil, edges(p)))
	}
	x := b.leaf(load, kl, edges(p), rev(edges(p)))
	kids = append(kids, x)
	var next *node
	if r >= 0 {
		next = b.leaf(r, 200, edges(p), nil)
		kids = append(kids, next)
	}
	lo, hi := span(x, next)
	if l < 0 {
		lo = 0
	}
	t := newTree(inner(kids...))
	if nd.Tier() > 0 {
		stepOn(t, lo, hi, []int{3, 200, 257}, []int{0, 64, 128, 129}, false)
	} else {
		stepOn(t, lo, hi, []int{3, 200}, []int{0, 129}, false)
	}
}

// Two or three leaves under the root; the target leaf is at the minimum load:
// an operation on it borrows records from a sibling or merges two leaves.
func odStepUnder() {
	b := &builder{c: 100}
	p := nd.Choice("edges", 3)
	sib := nd.Choice("siblings", 11)
	load := pick("load", []int{leafUnder}, []int{leafUnder, leafUnder + 1, leafUnder + 120, leafUnder + 250})
	none, low, lo1, lo2, mid, full := -1, leafUnder, leafUnder+200, leafUnder+420, leafUnder+2000, leafOver
	pairs := [][2]int{{none, low}, {none, lo1}, {none, lo2}, {none, full}, {low, none}, {lo1, none}, {lo2, none}, {full, none}, {low, low}, {mid, lo1}, {lo1, mid}}
	l, r := pairs[sib][0], pairs[sib][1]
	kl := pick("kl", []int{200}, []int{200, 3, 257})
	var kids []*node
	if l >= 0 {
		kids = append(kids, b.leaf(l, 200, nil, edges(p)))
	}
	x := b.leaf(load, kl, edges(p), rev(edges(p)))
	kids = append(kids, x)
	var next *node
	if r >= 0 {
		next = b.leaf(r, 200, edges(p), nil)
		kids = append(kids, next)
	}
	lo, hi := span(x, next)
	t := newTree(inner(kids...))
	if nd.Tier() > 0 {
		stepOn(t, lo, hi, []int{kl, 3, 300}, []int{0, 40, 129}, true)
	} else {
		stepOn(t, lo, hi, []int{kl}, []int{0}, true)
	}
}

// sub makes an inner node of exactly the given load over leaves. at is the
// index of its target leaf (negative: from the end, -1 is the last one); sl, sx
// and sr specify the leaf before the target, the target and the leaf after it
// (load 0: a small default leaf). firstLen is the length of its smallest key.
func (b *builder) sub(load, at int, sl, sx, sr ls, firstLen, sepMax int) (*node, int) {
	rest := load - childHdr
	m := (rest + childHdr + sepMax - 1) / (childHdr + sepMax)
	if at < 0 {
		at += m + 1
	}
	n := &node{}
	for i := 0; i <= m; i++ {
		kl := firstLen
		if i > 0 {
			kl = rest/(m-i+1) - childHdr
			rest -= kl + childHdr
			if kl == longKey {
				kl = 261
			}
		}
		s := ls{}
		switch i {
		case at - 1:
			s = sl
		case at:
			s = sx
		case at + 1:
			s = sr
		}
		if s.load == 0 {
			s.load = leafUnder + 30
			s.kl = 249
		}
		s.head = append([]kvLen{{kl, 7}}, s.head...)
		n.kids = append(n.kids, b.mk(s))
	}
	return n, at
}

// leafAt returns the leaves of the tree in order and the index of leaf x.
func leafIndex(t *tree, x *node) int {
	for i, l := range t.leaves {
		if l == x {
			return i
		}
	}
	return -1
}

// targetSpan is the range of counters to explore around target leaf x.
func targetSpan(t *tree, x *node) (int, int) {
	i := leafIndex(t, x)
	if i+1 < len(t.leaves) {
		return span(x, t.leaves[i+1])
	}
	return span(x, nil)
}

// small ranges around the two ends of the leaf keep height-3 runs short.
func endsOf(x *node, lo, hi int) (int, int) {
	n := len(x.recs)
	switch nd.Choice("where", 3) {
	case 0:
		return lo, counter(x.recs[1].k)
	case 1:
		return counter(x.recs[n/2].k) - 1, counter(x.recs[n/2].k)
	}
	return counter(x.recs[n-2].k) + 1, hi
}

// Height 3: the target leaf splits under an inner node that is (nearly) full.
func odStepInnerOver() {
	b := &builder{c: 100}
	pos := nd.Choice("position", 3)
	sib := nd.Choice("siblings", 8)
	load := pick("load", []int{nlOver, nlOver - 140}, []int{nlOver, nlOver - 1, nlOver - 140, nlOver - 250})
	none, near, mid, low := -1, nlOver-150, nlOver-1000, nlUnder
	pairs := [][2]int{{none, none}, {none, nlOver}, {none, near}, {none, low}, {nlOver, none}, {near, none}, {low, none}, {mid, nlOver}}
	l, r := pairs[sib][0], pairs[sib][1]
	at := []int{0, 14, -1}[pos]
	full := ls{load: leafOver, kl: 249, head: []kvLen{{249, 100}}}
	x := full
	x.tail = edges(2)
	var kids []*node
	if l >= 0 {
		k, _ := b.sub(l, 0, ls{}, ls{}, ls{}, 100, 256)
		kids = append(kids, k)
	}
	n, at := b.sub(load, at, full, x, full, 256, 256)
	kids = append(kids, n)
	if r >= 0 {
		k, _ := b.sub(r, 0, ls{}, ls{}, ls{}, 256, 257)
		kids = append(kids, k)
	}
	root := n
	if len(kids) > 1 {
		root = inner(kids...)
	}
	t := newTree(root)
	lo, hi := targetSpan(t, n.kids[at])
	lo, hi = endsOf(n.kids[at], lo, hi)
	stepOn(t, lo, hi, []int{249, 300}, []int{129}, false)
}

// Height 3: the target leaf merges under an inner node at its minimum load.
func odStepInnerUnder() {
	b := &builder{c: 100}
	pos := nd.Choice("position", 3)
	sib := nd.Choice("siblings", 9)
	load := pick("load", []int{nlUnder, nlUnder + 150}, []int{nlUnder, nlUnder + 1, nlUnder + 150, nlUnder + 260})
	none, low, lo1, lo2, mid, full := -1, nlUnder, nlUnder+150, nlUnder+300, nlUnder+1500, nlOver
	pairs := [][2]int{{none, low}, {none, lo1}, {none, full}, {low, none}, {lo1, none}, {full, none}, {low, low}, {mid, low}, {lo2, lo2}}
	l, r := pairs[sib][0], pairs[sib][1]
	at := []int{0, 4, -1}[pos]
	min := ls{load: leafUnder, kl: 249}
	var kids []*node
	if l >= 0 {
		k, _ := b.sub(l, 0, ls{}, ls{}, ls{}, 100, 256)
		kids = append(kids, k)
	}
	n, at := b.sub(load, at, min, min, min, 256, 256)
	kids = append(kids, n)
	if r >= 0 {
		k, _ := b.sub(r, 0, ls{}, ls{}, ls{}, 256, 257)
		kids = append(kids, k)
	}
	t := newTree(inner(kids...))
	lo, hi := targetSpan(t, n.kids[at])
	stepOn(t, lo, hi, []int{256, 249}, nil, true)
}

// Height 3: removing the first record of a leaf changes a separator's length
// while the inner node above is full or at its minimum.
func odStepSeparator() {
	b := &builder{c: 100}
	grow := nd.Choice("grow", 2)
	pos := nd.Choice("position", 3)
	leafLoad := pick("leaf", []int{leafUnder, leafUnder + 1500}, []int{leafUnder, leafUnder + 1500, leafOver})
	sib := nd.Choice("siblings", 6)
	none := -1
	at := []int{0, 4, -1}[pos]
	x := ls{load: leafLoad, kl: 200}
	load, first, sepMax := nlUnder, 256, 256
	if grow == 1 {
		load, first, sepMax = nlOver, 3, 230
		x.head = []kvLen{{300, 20}}
	} else {
		x.head = []kvLen{{3, 20}}
	}
	pairs := [][2]int{{none, nlUnder}, {none, nlOver}, {nlUnder, none}, {nlOver, none}, {nlOver, nlOver}, {nlUnder + 1000, nlUnder}}
	l, r := pairs[sib][0], pairs[sib][1]
	var kids []*node
	if l >= 0 {
		k, _ := b.sub(l, 0, ls{}, ls{}, ls{}, 100, 256)
		kids = append(kids, k)
	}
	n, at := b.sub(load, at, ls{load: leafUnder, kl: 200}, x, ls{load: leafUnder, kl: 200}, first, sepMax)
	kids = append(kids, n)
	if r >= 0 {
		k, _ := b.sub(r, 0, ls{}, ls{}, ls{}, 256, 257)
		kids = append(kids, k)
	}
	t := newTree(inner(kids...))
	if nd.Choice("base", 2) == 1 {
		nd.SetBase(6 << 30) // a file of more than 6 GiB
	}
	lo := counter(n.kids[at].recs[0].k)
	stepOn(t, lo, lo, []int{len(n.kids[at].recs[0].k)}, nil, true)
}

const odAll = "C01 C02 C03 C04 C06 C07 C09"

func init() {
	add(
		Entry{"OdStepH1", odAll + " C05", "one Set/Clear of an arbitrary key (lengths 3/100/249/257; 4 bytes arbitrary), value 0/128/129 bytes, any return flag, on five single-leaf trees from empty to the maximum load", true, 3, odStepH1},
		Entry{"OdStepOver", odAll, "one Set of an arbitrary key of the target leaf on trees of 1-3 leaves under a root: target at the maximum load (thorough: 1/130/380 below), 9 combinations of sibling loads, 3 patterns of record sizes at the leaf edges", true, 4, odStepOver},
		Entry{"OdStepUnder", odAll, "one Set/Clear of an arbitrary key of the target leaf on trees of 2-3 leaves under a root: target at the minimum load (thorough: up to 250 above), 11 combinations of sibling loads, 3 patterns of record sizes at the edges", true, 4, odStepUnder},
		Entry{"OdStepInnerOver", odAll, "one Set that splits a leaf at the start, middle or end of an inner node at or near its maximum load (height 3), 8 combinations of sibling loads, arbitrary key near both ends and the middle of the leaf", true, 4, odStepInnerOver},
		Entry{"OdStepInnerUnder", odAll, "one Clear that merges leaves under an inner node at or near its minimum load (height 3), 3 positions, 9 combinations of sibling loads, arbitrary key of the leaf", true, 4, odStepInnerUnder},
		Entry{"OdStepSeparator", odAll, "one Clear of the first record of a leaf so that a separator grows or shrinks while inner nodes are full or at the minimum (height 3), 3 positions, 6 combinations of siblings, storage addresses from 0 or from 6 GiB", true, 4, odStepSeparator},
	)
}
