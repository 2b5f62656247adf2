package harness

import "zzverif/nd"

// the trees of height 4 are about structure
const tallProps = "C01 C03"

// over makes a node of exactly the given load over inner nodes. at is the index
// of its target child (negative: from the end), made by target; the others are
// made by other. firstLen is the length of its smallest key. It returns the
// node and the index of the target.
func (b *builder) over(load, at, firstLen, sepMax int, target, other func(firstLen, dist int) *node) (*node, int) {
	rest := load - childHdr
	m := (rest + childHdr + sepMax - 1) / (childHdr + sepMax)
	if at < 0 {
		at += m + 1
	}
	n := &node{}
	for i := 0; i <= m; i++ {
		kl := firstLen
		if i > 0 {
			kl = rest/(m-i+1) - childHdr
			rest -= kl + childHdr
			if kl == longKey {
				kl = 261
			}
		}
		if i == at {
			n.kids = append(n.kids, target(kl, 0))
		} else {
			n.kids = append(n.kids, other(kl, i-at))
		}
	}
	return n, at
}

// odTallOver: height 4. A leaf splits, then the full inner node above it, then the full one above that.
func odTallOver() {
	b := &builder{c: 100}
	full := ls{load: leafOver, kl: 249, head: []kvLen{{249, 100}}}
	x := full
	x.tail = edges(2)
	at0 := []int{0, 14, 15, -1}[nd.Choice("leaf", 4)]
	at1 := []int{0, 14, 15, -1}[nd.Choice("inner", 4)]
	sib := nd.Choice("siblings", 4)
	var n1 *node
	i0 := 0
	target := func(firstLen, _ int) *node {
		n1, i0 = b.sub(nlOver, at0, full, x, full, firstLen, 256)
		return n1
	}
	other := func(firstLen, dist int) *node {
		load := nlUnder + 20
		if dist >= -1 && dist <= 1 {
			load = nlOver // no room for the children of the target
		}
		n, _ := b.sub(load, -9, ls{}, ls{}, ls{}, firstLen, 256)
		return n
	}
	small := func(firstLen, _ int) *node {
		n, _ := b.sub(nlUnder+20, -9, ls{}, ls{}, ls{}, firstLen, 256)
		return n
	}
	var kids []*node
	if sib == 1 || sib == 3 {
		k, _ := b.over([]int{0, nlUnder, 0, nlOver}[sib], -9, 100, 256, small, small)
		kids = append(kids, k)
	}
	n2, _ := b.over(nlOver, at1, 256, 256, target, other)
	kids = append(kids, n2)
	if sib == 2 {
		k, _ := b.over(nlUnder, -9, 256, 256, small, small)
		kids = append(kids, k)
	}
	root := n2
	if len(kids) > 1 {
		root = inner(kids...)
	}
	t := newTree(root)
	leaf := n1.kids[i0]
	c := counter(leaf.recs[[]int{1, len(leaf.recs) / 2, len(leaf.recs) - 1}[nd.Choice("where", 3)]].k)
	stepOn(t, c-1, c, []int{249}, []int{129}, false)
}

// odTallUnder: height 4. Two leaves merge, then the inner nodes above them, then those above them, and the root goes.
func odTallUnder() {
	b := &builder{c: 100}
	min := ls{load: leafUnder, kl: 249}
	at0 := []int{0, 4, -1}[nd.Choice("leaf", 3)]
	at1 := []int{0, 4, -1}[nd.Choice("inner", 3)]
	sib := nd.Choice("siblings", 5)
	deep := nd.Choice("deep", 2)
	var n1 *node
	i0 := 0
	target := func(firstLen, _ int) *node {
		n1, i0 = b.sub(nlUnder, at0, min, min, min, firstLen, 256)
		return n1
	}
	other := func(firstLen, _ int) *node {
		n, _ := b.sub(nlUnder+150*deep, -9, ls{}, ls{}, ls{}, firstLen, 256)
		return n
	}
	pairs := [][2]int{{-1, nlUnder}, {nlUnder, -1}, {nlUnder, nlUnder}, {-1, nlUnder + 1500}, {nlUnder + 1500, -1}}
	l, r := pairs[sib][0], pairs[sib][1]
	var kids []*node
	if l >= 0 {
		k, _ := b.over(l, -9, 100, 256, other, other)
		kids = append(kids, k)
	}
	n2, _ := b.over(nlUnder, at1, 256, 256, target, other)
	kids = append(kids, n2)
	if r >= 0 {
		k, _ := b.over(r, -9, 256, 256, other, other)
		kids = append(kids, k)
	}
	t := newTree(inner(kids...))
	leaf := n1.kids[i0]
	c := counter(leaf.recs[[]int{0, len(leaf.recs) - 1}[nd.Choice("where", 2)]].k)
	stepOn(t, c, c, []int{249, 256}, nil, true)
}

// odTallSeparator: height 4 and 5. The first record of the subtree changes, whose key is a
// separator high above.
func odTallSeparator() {
	b := &builder{c: 100}
	min := ls{load: leafUnder, kl: 200}
	grow := nd.Choice("grow", 2)
	x := ls{load: leafUnder + 1000*nd.Choice("leaf", 2), kl: 200}
	load, first, sepMax := nlUnder, 256, 256
	if grow == 1 {
		load, first, sepMax = nlOver, 3, 230
		x.head = []kvLen{{300, 20}}
	} else {
		x.head = []kvLen{{3, 20}}
	}
	var n1 *node
	i0 := 0
	target := func(firstLen, _ int) *node {
		n1, i0 = b.sub(nlUnder+1000, 0, min, x, min, firstLen, 256)
		return n1
	}
	other := func(firstLen, _ int) *node {
		n, _ := b.sub(nlUnder+20, -9, ls{}, ls{}, ls{}, firstLen, 256)
		return n
	}
	var root *node
	if nd.Choice("root", 2) == 1 {
		// the separator is in the root
		k, _ := b.over(nlUnder+500, -9, 100, 256, other, other)
		n2, _ := b.over(nlUnder+100*nd.Choice("load", 2), 0, first, 256, target, other)
		root = inner(k, n2)
	} else {
		// it is in a full or minimal node under the root
		n2, _ := b.over(load, []int{1, 5}[nd.Choice("inner", 2)], 100, sepMax, func(firstLen, _ int) *node { return target(first, 0) }, other)
		root = n2
		if nd.Choice("sibling", 2) == 1 {
			k, _ := b.over(nlUnder, -9, 256, 256, other, other)
			root = inner(n2, k)
		}
	}
	t := newTree(root)
	c := counter(n1.kids[i0].recs[0].k)
	stepOn(t, c, c, []int{len(n1.kids[i0].recs[0].k)}, nil, true)
}

// odTallShift: height 4. Children move between two inner nodes, and the key that then separates
// them is so much shorter (longer) that the node above becomes underfull (overfull).
func odTallShift() {
	b := &builder{c: 100}
	grow := nd.Choice("grow", 2)   // the separator grows
	under := nd.Choice("under", 2) // leaves merge and children are fetched; else a leaf splits and children are given away
	left := nd.Choice("left", 2)   // the sibling is on the left
	lim := nd.Choice("limit", 2)   // the node above is at the limit, or near it
	inMax, load, sepMax := 50, nlUnder+40*lim, 250
	if grow == 1 {
		inMax, load, sepMax = 256, nlOver-40*lim, 80
	}
	x := ls{load: leafOver, kl: 249, head: []kvLen{{249, 100}}, tail: edges(2)}
	nb := ls{load: leafOver, kl: 249}
	own, sib := nlOver, nlUnder
	if under == 1 {
		x = ls{load: leafUnder, kl: 249}
		nb = x
		own, sib = nlUnder, nlOver
	}
	at0 := 7
	if left == 1 {
		at0 = []int{2, 7}[nd.Choice("leaf", 2)]
	} else {
		at0 = []int{-3, 3}[nd.Choice("leaf", 2)]
	}
	if under == 1 && grow == 1 {
		at0 = 2
	}
	var n1 *node
	i0 := 0
	target := func(firstLen, _ int) *node {
		n1, i0 = b.sub(own, at0, nb, x, nb, firstLen, inMax)
		return n1
	}
	other := func(firstLen, dist int) *node {
		if left == 0 && dist == 1 || left == 1 && dist == -1 {
			n, _ := b.sub(sib, -9, ls{}, ls{}, ls{}, firstLen, inMax)
			return n
		}
		if dist == 1 || dist == -1 {
			far := nlOver
			if under == 1 {
				far = nlUnder
			}
			n, _ := b.sub(far, -9, ls{}, ls{}, ls{}, firstLen, 256)
			return n
		}
		n, _ := b.sub(nlUnder+20, -9, ls{}, ls{}, ls{}, firstLen, 256)
		return n
	}
	above := nd.Choice("above", 2)
	var kids []*node
	if above == 1 {
		k, _ := b.over(nlUnder+900, -9, 100, 256, other, other)
		kids = append(kids, k)
	}
	n2, _ := b.over(load, 2, sepMax, sepMax, target, other)
	kids = append(kids, n2)
	if above == 0 {
		k, _ := b.over(nlUnder, -9, 256, 256, other, other)
		kids = append(kids, k)
	}
	root := inner(kids...)
	t := newTree(root)
	leaf := n1.kids[i0]
	if under == 1 {
		c := counter(leaf.recs[len(leaf.recs)/2].k)
		stepOn(t, c, c, []int{249}, nil, true)
	} else {
		c := counter(leaf.recs[len(leaf.recs)/2].k)
		stepOn(t, c-1, c, []int{249}, []int{129}, false)
	}
}

// odSepLen: height 3. Records move between two leaves, and the key that then separates them is so
// much shorter (longer) that the inner node above becomes underfull (overfull).
func odSepLen() {
	b := &builder{c: 100}
	grow := nd.Choice("grow", 2)
	under := nd.Choice("under", 2) // the leaf loses a record and takes some; else it gains one and gives some away
	left := nd.Choice("left", 2)
	lim := nd.Choice("limit", 2)
	kl, load, sepMax := 20, nlUnder+40*lim, 250
	if grow == 1 {
		kl, load, sepMax = 256, nlOver-40*lim, 80
	}
	own, sib, far := leafOver, leafUnder, leafOver
	if under == 1 {
		own, sib, far = leafUnder, leafOver, leafUnder
	}
	x, l, r := ls{load: own, kl: kl}, ls{load: far, kl: kl}, ls{load: sib, kl: kl}
	if left == 1 {
		l, r = ls{load: sib, kl: kl}, ls{load: far, kl: kl}
	}
	above := nd.Choice("above", 3)
	var kids []*node
	if above == 1 {
		k, _ := b.sub([]int{nlUnder + 900, nlUnder}[nd.Choice("other", 2)], -9, ls{}, ls{}, ls{}, 100, 256)
		kids = append(kids, k)
	}
	n, i := b.sub(load, 2, l, x, r, 256, sepMax)
	kids = append(kids, n)
	if above == 0 {
		k, _ := b.sub([]int{nlOver, nlUnder}[nd.Choice("other", 2)], -9, ls{}, ls{}, ls{}, 256, 256)
		kids = append(kids, k)
	}
	t := newTree(inner(kids...))
	if above == 2 {
		t = newTree(n) // the node above is the root
	}
	leaf := n.kids[i]
	j := []int{0, len(leaf.recs) / 2, len(leaf.recs) - 1}[nd.Choice("where", 3)]
	c := counter(leaf.recs[j].k)
	if under == 1 {
		stepOn(t, c, c, []int{len(leaf.recs[j].k)}, []int{0}, true)
	} else {
		stepOn(t, c, c+1, []int{kl, 3}, []int{129}, false)
	}
}

func init() {
	add(
		Entry{"OdSepLen", tallProps, "height 2-3: one Set that overfills a leaf which gives records to its sibling, or one Clear or Set that makes a minimal leaf underfull, which takes records from its sibling, where the changed separator takes the inner node above below its minimum or above its maximum; 2 x 2 x 2 x 2 x 5 trees, arbitrary key next to three places of the leaf", true, 4, odSepLen},
		Entry{"OdTallShift", tallProps, "height 4: one Set that splits a leaf under a full inner node which gives children to its sibling, or one Clear that merges leaves under a minimal inner node which takes children from its sibling, where the changed separator takes the inner node above below its minimum or above its maximum; 48 combinations; the key concrete but for two bits", true, 4, odTallShift},
		Entry{"OdTallOver", tallProps, "height 4: one Set that splits a leaf at the start, in the middle or at the end of a full inner node at the start, in the middle or at the end of a full inner node, with siblings above at the minimum, full or none; two arbitrary bits of the key at three places of the leaf", true, 4, odTallOver},
		Entry{"OdTallUnder", tallProps, "height 4: one Clear that merges leaves under inner nodes at the minimum load at 3 x 3 positions, 5 combinations of sibling loads above; the key concrete but for its tail", true, 4, odTallUnder},
		Entry{"OdTallSeparator", tallProps, "height 3-4: one Clear of the first record of a subtree whose key is a separator two or three levels up, in a minimal, full or root node", true, 4, odTallSeparator},
	)
}
