package harness

import (
	"bytes"
	"encoding/binary"

	"github.com/roy2220/fsm"
	"zzverif/nd"
)

// The on-disk format of an ordered dictionary, written down independently of
// the code under test (docs/bptree_*.svg): the builder writes arbitrary valid
// pre-states, the checker parses and validates post-states.
const (
	pageSize   = 8192
	leafHdr    = 20
	recHdr     = 8
	nlHdr      = 4
	childHdr   = 12
	maxInKey   = 256
	maxInVal   = 128
	keyPrefix  = 249
	valPrefix  = 121
	longKey    = 257
	longVal    = 129
	leafCap    = pageSize - leafHdr
	nlCap      = pageSize - nlHdr
	maxRec     = recHdr + longKey + longVal
	maxChild   = childHdr + longKey
	leafOver   = leafCap - maxRec
	nlOver     = nlCap - maxChild
	leafUnder  = (leafOver-maxRec)*3/8 + 1
	nlUnder    = (nlOver-maxChild)*3/8 + 1
	infoRecLen = 8 + 1 + 6*8
)

type rec struct{ k, v []byte }

func inKeyLen(n int) int {
	if n > maxInKey {
		return longKey
	}
	return n
}

func inValLen(n int) int {
	if n > maxInVal {
		return longVal
	}
	return n
}

func recSize(kn, vn int) int { return recHdr + inKeyLen(kn) + inValLen(vn) }

// node is a tree to build (kids == nil: a leaf holding recs).
type node struct {
	recs []rec
	kids []*node
	addr int64
	ekey []byte // encoded form of the smallest key, set by build
}

type tree struct {
	root    *node
	height  int
	leaves  []*node
	nonleaf int
	recs    []rec
	payload int
	pages   map[int64]*page // as built
}

type page struct {
	raw  []byte
	keys [][]byte // encoded keys (leaf: record keys; non-leaf: separators, first empty)
	vals [][]byte // encoded values
	kids []int64
	prev int64
	next int64
	leaf bool
	load int
}

func leafNode(recs []rec) *node { return &node{recs: recs} }

func newTree(root *node) *tree {
	t := &tree{root: root, pages: map[int64]*page{}}
	h := 1
	for n := root; n.kids != nil; n = n.kids[0] {
		h++
	}
	t.height = h
	t.collect(root)
	return t
}

func (t *tree) collect(n *node) {
	if n.kids == nil {
		t.leaves = append(t.leaves, n)
		for _, r := range n.recs {
			t.recs = append(t.recs, r)
			t.payload += len(r.k) + len(r.v)
		}
		return
	}
	t.nonleaf++
	for _, c := range n.kids {
		t.collect(c)
	}
}

func uvarint(x int) []byte {
	var b []byte
	for x >= 128 {
		b = append(b, byte(x)|128)
		x >>= 7
	}
	return append(b, byte(x))
}

func encodeLong(fs *fsm.FileStorage, raw []byte, inMax, prefix int) []byte {
	if len(raw) <= inMax {
		return raw
	}
	rest := raw[prefix:]
	l := uvarint(len(rest))
	addr, buf := fs.AllocateSpace(len(l) + len(rest))
	copy(buf, l)
	copy(buf[len(l):], rest)
	e := make([]byte, prefix+8)
	copy(e, raw[:prefix])
	binary.BigEndian.PutUint64(e[prefix:], uint64(addr))
	return e
}

func (t *tree) place(fs *fsm.FileStorage, n *node) {
	n.addr, _ = fs.AllocateAlignedSpace(pageSize)
	for _, c := range n.kids {
		t.place(fs, c)
	}
}

func (t *tree) write(fs *fsm.FileStorage, n *node, li *int) {
	p := &page{}
	t.pages[n.addr] = p
	if n.kids == nil {
		p.leaf = true
		m := len(t.leaves)
		i := *li
		*li = i + 1
		p.prev = t.leaves[(i+m-1)%m].addr
		p.next = t.leaves[(i+1)%m].addr
		size := 0
		for _, r := range n.recs {
			k := encodeLong(fs, r.k, maxInKey, keyPrefix)
			v := encodeLong(fs, r.v, maxInVal, valPrefix)
			p.keys = append(p.keys, k)
			p.vals = append(p.vals, v)
			size += len(k) + len(v)
		}
		p.load = size + recHdr*len(n.recs)
		raw := make([]byte, pageSize)
		binary.BigEndian.PutUint64(raw[0:], uint64(p.prev))
		binary.BigEndian.PutUint64(raw[8:], uint64(p.next))
		binary.BigEndian.PutUint32(raw[16:], uint32(len(n.recs)))
		off := pageSize - size
		for j := range p.keys {
			h := raw[leafHdr+recHdr*j:]
			binary.BigEndian.PutUint32(h[0:], uint32(off))
			off += copy(raw[off:], p.keys[j])
			binary.BigEndian.PutUint32(h[4:], uint32(off))
			off += copy(raw[off:], p.vals[j])
		}
		copy(fs.AccessAlignedSpace(n.addr), raw)
		p.raw = raw
		if len(p.keys) > 0 {
			n.ekey = p.keys[0]
		}
		return
	}
	size := 0
	for j, c := range n.kids {
		t.write(fs, c, li)
		k := c.ekey
		if j == 0 {
			n.ekey = k
			k = nil
		}
		p.keys = append(p.keys, k)
		p.kids = append(p.kids, c.addr)
		size += len(k)
	}
	p.load = size + childHdr*len(n.kids)
	raw := make([]byte, pageSize)
	binary.BigEndian.PutUint32(raw[0:], uint32(len(n.kids)))
	off := pageSize - size
	for j := range p.keys {
		h := raw[nlHdr+childHdr*j:]
		binary.BigEndian.PutUint32(h[0:], uint32(off))
		binary.BigEndian.PutUint64(h[4:], uint64(p.kids[j]))
		off += copy(raw[off:], p.keys[j])
	}
	copy(fs.AccessAlignedSpace(n.addr), raw)
	p.raw = raw
}

// build writes the tree as a closed dictionary file.
func (t *tree) build(file string) {
	nd.Strict(false)
	var fs fsm.FileStorage
	fs.Init()
	if err := fs.Open(file, true); err != nil {
		panic(err)
	}
	t.place(&fs, t.root)
	li := 0
	t.write(&fs, t.root, &li)
	addr, buf := fs.AllocateSpace(infoRecLen)
	m := len(t.leaves)
	for i, x := range []int64{t.leaves[m-1].addr, t.leaves[0].addr, int64(m), int64(t.nonleaf), int64(len(t.recs)), int64(t.payload)} {
		binary.BigEndian.PutUint64(buf[9+8*i:], uint64(x))
	}
	binary.BigEndian.PutUint64(buf[0:], uint64(t.root.addr))
	buf[8] = byte(t.height)
	fs.SetPrimarySpace(addr)
	if err := fs.Close(); err != nil {
		panic(err)
	}
}

// image is a parsed dictionary file.
type image struct {
	fs       fsm.FileStorage
	pre      *tree
	height   int
	recs     []rec
	spaces   []int64
	leaves   []int64
	leafPg   []*page
	nonleafs int
	payload  int
	lastKey  []byte
	haveLast bool
	// info record
	root, tail, head                     int64
	nLeaf, nNonLeaf, nRec, nPayload, hgt int
	infoAddr                             int64
}

func be64(b []byte) int64 { return int64(binary.BigEndian.Uint64(b)) }
func be32(b []byte) int   { return int(int32(binary.BigEndian.Uint32(b))) }

func (im *image) bad(cond bool, label string) bool {
	nd.Assert(cond, label)
	return !cond
}

// readImage parses and validates a closed dictionary file. pre, if not nil, is
// the tree the file was built from: pages whose bytes did not change reuse its parse.
func readImage(file string, pre *tree) *image {
	nd.Strict(false)
	im := &image{pre: pre}
	im.fs.Init()
	if err := im.fs.Open(file, false); err != nil {
		nd.Assert(false, "C04:file reopens")
		return nil
	}
	im.infoAddr = im.fs.PrimarySpace()
	nd.Assert(im.infoAddr >= 0, "C04:closed file records its primary space")
	b := im.fs.AccessSpace(im.infoAddr)
	nd.Assert(len(b) >= infoRecLen, "C04:info record is complete")
	im.root = be64(b)
	im.hgt = int(int8(b[8]))
	im.tail = be64(b[9:])
	im.head = be64(b[17:])
	im.nLeaf = int(be64(b[25:]))
	im.nNonLeaf = int(be64(b[33:]))
	im.nRec = int(be64(b[41:]))
	im.nPayload = int(be64(b[49:]))
	im.spaces = append(im.spaces, im.infoAddr)
	im.walk(im.root, 1, nil, true)
	return im
}

func (im *image) close() {
	im.fs.Close()
	strict()
}

// strict makes accesses through outdated views of the file fail.
func strict() {
	if nd.Active("C09") {
		nd.Strict(true)
	}
}

func (im *image) parse(addr int64, leaf bool) *page {
	raw := im.fs.AccessAlignedSpace(addr)
	if im.pre != nil {
		if p := im.pre.pages[addr]; p != nil && p.leaf == leaf && bytes.Equal(raw, p.raw) {
			return p
		}
	}
	if im.bad(len(raw) == pageSize, "C03:page size") {
		return nil
	}
	p := &page{leaf: leaf, raw: raw}
	if leaf {
		p.prev, p.next = be64(raw), be64(raw[8:])
		n := be32(raw[16:])
		if im.bad(n >= 0 && leafHdr+n*recHdr <= pageSize, "C03:record count fits the page") {
			return nil
		}
		end := pageSize
		p.keys = make([][]byte, n)
		p.vals = make([][]byte, n)
		for j := n - 1; j >= 0; j-- {
			h := raw[leafHdr+recHdr*j:]
			ko, vo := be32(h), be32(h[4:])
			if im.bad(ko >= leafHdr+n*recHdr && ko <= vo && vo <= end && vo-ko <= longKey && end-vo <= longVal, "C03:record offsets are ordered and inside the page") {
				return nil
			}
			p.keys[j] = raw[ko:vo]
			p.vals[j] = raw[vo:end]
			end = ko
		}
		p.load = pageSize - end + n*recHdr
		return p
	}
	n := be32(raw)
	if im.bad(n >= 0 && nlHdr+n*childHdr <= pageSize, "C03:child count fits the page") {
		return nil
	}
	end := pageSize
	p.keys = make([][]byte, n)
	p.kids = make([]int64, n)
	for j := n - 1; j >= 0; j-- {
		h := raw[nlHdr+childHdr*j:]
		ko := be32(h)
		if im.bad(ko >= nlHdr+n*childHdr && ko <= end && end-ko <= longKey, "C03:separator offsets are ordered and inside the page") {
			return nil
		}
		p.keys[j] = raw[ko:end]
		p.kids[j] = be64(h[4:])
		end = ko
	}
	p.load = pageSize - end + n*childHdr
	return p
}

// walk checks the subtree at addr and returns the encoded smallest key.
func (im *image) walk(addr int64, depth int, sep []byte, first bool) []byte {
	leaf := depth == im.hgt
	if im.bad(depth <= im.hgt && im.hgt <= 16, "C03:height") {
		return nil
	}
	im.spaces = append(im.spaces, addr)
	p := im.parse(addr, leaf)
	if p == nil {
		return nil
	}
	root := depth == 1
	if leaf {
		nd.Assert(p.load <= leafOver, "C03:leaf keeps room for one more record of any size")
		nd.Assert(root || p.load >= leafUnder, "C03:leaf is not underfull")
		im.leaves = append(im.leaves, addr)
		im.leafPg = append(im.leafPg, p)
		for j := range p.keys {
			k := im.long(p.keys[j], longKey, keyPrefix)
			v := im.long(p.vals[j], longVal, valPrefix)
			if im.haveLast {
				nd.Assert(bytes.Compare(im.lastKey, k) < 0, "C03:keys strictly ascend")
			}
			im.lastKey, im.haveLast = k, true
			im.recs = append(im.recs, rec{k, v})
			im.payload += len(k) + len(v)
		}
		if len(p.keys) == 0 {
			nd.Assert(root, "C03:only the root leaf may be empty")
			return nil
		}
		return p.keys[0]
	}
	im.nonleafs++
	nd.Assert(p.load <= nlOver, "C03:inner node keeps room for one more child of any size")
	nd.Assert(root || p.load >= nlUnder, "C03:inner node is not underfull")
	nd.Assert(len(p.keys) >= 2, "C03:inner node has at least two children")
	var min []byte
	for j := range p.keys {
		m := im.walk(p.kids[j], depth+1, p.keys[j], j == 0)
		if j == 0 {
			nd.Assert(len(p.keys[0]) == 0, "C03:first separator is empty")
			min = m
		} else {
			nd.Assert(bytes.Equal(p.keys[j], m), "C03:separator is the smallest key of its subtree")
		}
	}
	return min
}

func (im *image) long(e []byte, full, prefix int) []byte {
	if len(e) < full {
		return e
	}
	addr := be64(e[prefix:])
	for _, s := range im.spaces {
		if s == addr {
			nd.Assert(false, "C03:overflow space is referenced once")
		}
	}
	im.spaces = append(im.spaces, addr)
	d := im.fs.AccessSpace(addr)
	n, i := binary.Uvarint(d)
	if im.bad(i > 0 && int(n) >= full-prefix-8 && i+int(n) <= len(d), "C03:overflow length is valid") {
		return e
	}
	r := make([]byte, prefix+int(n))
	copy(r, e[:prefix])
	copy(r[prefix:], d[i:i+int(n)])
	return r
}

// check asserts the whole-tree invariants.
func (im *image) check() {
	n := len(im.leaves)
	nd.Assert(im.head == im.leaves[0] && im.tail == im.leaves[n-1], "C03:leaf list ends")
	for i, p := range im.leafPg {
		nd.Assert(p.next == im.leaves[(i+1)%n] && p.prev == im.leaves[(i+n-1)%n], "C03:leaf list links leaves in key order")
	}
	nd.Assert(im.nLeaf == n, "C07:number of leaves")
	nd.Assert(im.nNonLeaf == im.nonleafs, "C07:number of inner nodes")
	nd.Assert(im.nRec == len(im.recs), "C07:number of records")
	nd.Assert(im.nPayload == im.payload, "C07:payload size")
}

// checkSpaces asserts that exactly the reachable spaces are allocated.
func (im *image) checkSpaces(file string) {
	live, ok := nd.LiveSpaces(file)
	if !ok {
		return
	}
	set := make(map[int64]bool, len(im.spaces))
	for _, s := range im.spaces {
		set[s] = true
	}
	for _, s := range live {
		nd.Assert(set[s], "C06:no allocated space is unreachable")
	}
	nd.Assert(len(set) == len(live), "C06:every referenced space is allocated")
}
