package harness

import "zzverif/nd"

// sub2 is like sub, and the lengths of the keys of the children after the first
// one and at the end are given.
func (b *builder) sub2(load, at int, side, sx ls, firstLen, sepMax int, heads, tails []int) (*node, int) {
	rest := load - childHdr
	for _, l := range heads {
		rest -= childHdr + l
	}
	for _, l := range tails {
		rest -= childHdr + l
	}
	m := (rest + childHdr + sepMax - 1) / (childHdr + sepMax)
	last := len(heads) + m + len(tails)
	if at < 0 {
		at += last + 1
	}
	n := &node{}
	for i := 0; i <= last; i++ {
		kl := firstLen
		switch {
		case i == 0:
		case i <= len(heads):
			kl = heads[i-1]
		case i > last-len(tails):
			kl = tails[i-(last-len(tails))-1]
		default:
			left := m - (i - len(heads)) + 1
			kl = rest/left - childHdr
			rest -= kl + childHdr
			if kl == longKey {
				kl = 261
			}
		}
		s := ls{}
		switch i {
		case at:
			s = sx
		case at - 1, at + 1:
			s = side
		}
		if s.load == 0 {
			s.load = leafUnder + 30
			s.kl = 249
		}
		s.head = append([]kvLen{{kl, 7}}, s.head...)
		n.kids = append(n.kids, b.mk(s))
	}
	return n, at
}

// uneven are the lengths of keys next to a sibling, from the outside.
func uneven() []int {
	all := [][]int{{256, 3, 3}, {3, 256, 3}, {3, 3, 256}, {256, 256, 3}, {256, 3, 256}, {3, 256, 256}}
	return all[nd.Choice("pattern", len(all))]
}

func back(l []int) []int {
	out := make([]int, len(l))
	for i := range l {
		out[i] = l[len(l)-1-i]
	}
	return out
}

// odUnevenInner: height 3. Children of very different sizes are to be moved
// between two inner nodes with little room (or little to give).
func odUnevenInner() {
	b := &builder{c: 100}
	under := nd.Choice("under", 2)
	left := nd.Choice("left", 2)
	pat := uneven()
	gap := pick("gap", []int{20, 150, 270}, []int{0, 20, 60, 150, 270, 400, 540})
	sep := []int{3, 256}[nd.Choice("separator", 2)]
	sepMax := pick("keys", []int{256, 40}, []int{256, 120, 40})
	x := ls{load: leafOver, kl: 249, head: []kvLen{{249, 100}}, tail: edges(2)}
	side := ls{load: leafOver, kl: 249}
	own, sib := nlOver, nlOver-gap
	if under == 1 {
		x = ls{load: leafUnder, kl: 249}
		side = x
		own, sib = nlUnder, nlUnder+gap
	}
	// the pattern is in the node that gives
	var nh, nt, sh, st []int
	switch {
	case under == 0 && left == 1:
		nh = pat
	case under == 0:
		nt = back(pat)
	case left == 1:
		st = back(pat)
	default:
		sh = pat
	}
	var kids []*node
	if left == 1 {
		k, _ := b.sub2(sib, -9, ls{}, ls{}, 100, 256, sh, st)
		kids = append(kids, k)
	}
	first := 100
	if left == 1 {
		first = sep
	}
	n, at := b.sub2(own, 5, side, x, first, sepMax, nh, nt)
	kids = append(kids, n)
	if left == 0 {
		k, _ := b.sub2(sib, -9, ls{}, ls{}, sep, 256, sh, st)
		kids = append(kids, k)
	}
	t := newTree(inner(kids...))
	leaf := n.kids[at]
	c := counter(leaf.recs[len(leaf.recs)/2].k)
	if under == 1 {
		stepOn(t, c, c, []int{249}, nil, true)
	} else {
		stepOn(t, c-1, c, []int{249}, []int{129}, false)
	}
}

// odUnevenLeaf: height 2. The same for the records of two leaves.
func odUnevenLeaf() {
	b := &builder{c: 100}
	under := nd.Choice("under", 2)
	left := nd.Choice("left", 2)
	gap := pick("gap", []int{11, 150, 393, 800}, []int{0, 11, 20, 150, 392, 393, 394, 500, 800})
	var pat []kvLen
	for _, l := range uneven() {
		if l == 3 {
			pat = append(pat, kvLen{3, 0})
		} else {
			pat = append(pat, kvLen{258, 130})
		}
	}
	own, sib := leafOver, leafOver-gap
	if under == 1 {
		own, sib = leafUnder, leafUnder+gap
	}
	x, s := ls{load: own, kl: 100}, ls{load: sib, kl: 100}
	switch {
	case under == 0 && left == 1:
		x.head = pat
	case under == 0:
		x.tail = rev(pat)
	case left == 1:
		s.tail = rev(pat)
	default:
		s.head = pat
	}
	var leaf *node
	var kids []*node
	if left == 1 {
		k := b.mk(s)
		leaf = b.mk(x)
		kids = []*node{k, leaf}
	} else {
		leaf = b.mk(x)
		kids = []*node{leaf, b.mk(s)}
	}
	t := newTree(inner(kids...))
	c := counter(leaf.recs[len(leaf.recs)/2].k)
	if under == 1 {
		stepOn(t, c, c, []int{100}, []int{0, 100}, true)
	} else {
		stepOn(t, c-1, c, []int{3, 250}, []int{0, 129}, false)
	}
}

func init() {
	add(
		Entry{"OdUnevenInner", tallProps, "height 3: one Set that splits a leaf under a full inner node, or one Clear that merges leaves under a minimal one, next to a sibling with little room (or little to give), the keys on the side of the sibling and their separator in 6 x 2 patterns of 3 and 256 bytes; two arbitrary bits of the key", true, 3, odUnevenInner},
		Entry{"OdUnevenLeaf", tallProps, "height 2: one Set in a full leaf, or one Set or Clear in a minimal one, next to a sibling with little room (or little to give), the records on that side in 6 patterns of the least and the largest size; key next to the middle record", true, 2, odUnevenLeaf},
	)
}
