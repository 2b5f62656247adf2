package harness

import (
	"bytes"
	"encoding/binary"

	"github.com/roy2220/fsm"
	"github.com/roy2220/plainkv"
	"github.com/roy2220/plainkv/bptree"
	"github.com/roy2220/plainkv/hashmap"
	"zzverif/nd"
)

// highBase lies beyond everything that fits 32 bits.
const highBase = 6 << 30

// A large file: every address needs more than 32 bits.
func odHigh() {
	b := &builder{c: 100}
	var t *tree
	p := []kvLen{{257, 129}, {3, 0}}
	clear := false
	switch nd.Choice("shape", 6) {
	case 0:
		t = newTree(b.leaf(leafOver, 200, p, p))
	case 1: // a split in the middle
		t = newTree(inner(b.leaf(leafOver, 200, p, nil), b.leaf(leafOver, 200, p, p), b.leaf(leafOver, 200, p, nil)))
	case 2: // a merge
		clear = true
		t = newTree(inner(b.leaf(leafUnder, 200, nil, p), b.leaf(leafUnder, 200, nil, nil)))
	case 3:
		clear = true
		t = newTree(inner(b.leaf(leafUnder+200, 200, p, nil), b.leaf(leafUnder, 200, p, p), b.leaf(leafUnder+200, 200, nil, p)))
	case 4: // an inner node splits
		n, _ := b.sub(nlOver, 14, ls{}, ls{load: leafOver, kl: 249}, ls{load: leafOver, kl: 249}, 256, 256)
		t = newTree(n)
	case 5: // inner nodes merge
		clear = true
		n1, _ := b.sub(nlUnder, 0, ls{}, ls{}, ls{}, 256, 256)
		n2, _ := b.sub(nlUnder, 3, ls{load: leafUnder, kl: 249}, ls{load: leafUnder, kl: 249}, ls{load: leafUnder, kl: 249}, 256, 256)
		t = newTree(inner(n1, n2))
	}
	nd.SetBase(highBase)
	x := t.leaves[len(t.leaves)/2]
	lo, hi := targetSpan(t, x)
	if t.height > 2 {
		lo, hi = counter(x.recs[1].k), counter(x.recs[2].k)
	}
	if clear {
		stepOn(t, lo, hi, []int{249}, nil, true)
	} else {
		stepOn(t, lo, hi, []int{257}, []int{129}, false)
	}
}

// Reading a large file.
func odHighRead() {
	nd.SetBase(highBase)
	shapes := 2
	if nd.Tier() > 0 {
		shapes = 4
	}
	odRangeOn(rangeTree(2+nd.Choice("shape", shapes)), 3)
}

func odRangeOn(t *tree, kinds int) {
	desc := nd.Choice("desc", 2) == 1
	file := nd.TempFile("od")
	t.build(file)
	od := openOD(file)
	k1, min := bound("min", kinds)
	k2, max := bound("max", kinds)
	checkRange(od, t.recs, desc, k1, k2, min, max)
	od.Close()
}

// A large dictionary file.
func dictHigh() {
	nd.SetBase(highBase)
	slots := []int{1, 3, 4}[nd.Choice("slots", 3)]
	at := nd.Choice("items", 2)
	op := nd.Choice("op", 2)
	dd := newDict(slots, 1, minDirShift, someItems(itemCount(slots, at)))
	file := nd.TempFile("d")
	dd.build(file)
	strict()
	d := openDict(file)
	key := symDictKey([]int{0, 3}[nd.Choice("key-kind", 2)])
	var val []byte
	if op == 0 {
		val = symVal("val", 4)
	}
	want := dictOp(d, dd.recs, op, key, val, nd.Bool("ret"))
	var cur plainkv.DictCursor
	var got []rec
	for len(got) <= len(want) {
		k, v, ok := d.Scan(&cur)
		if !ok {
			break
		}
		got = append(got, rec{k, v})
	}
	if nd.Active("C12") {
		sameRecs(got, want, "C12:a scan yields every pair once")
	}
	dictFinish(d, file, want, false)
}

// The counts of an existing dictionary are arbitrarily large: they survive
// reopening and change by what an operation adds or removes.
func odInfo() {
	b := &builder{c: 100}
	t := newTree(leafNode([]rec{b.rec(kvLen{3, 4}), b.rec(kvLen{4, 5})}))
	file := nd.TempFile("od")
	t.build(file)
	var fs fsm.FileStorage
	fs.Init()
	fs.Open(file, false)
	info := fs.AccessSpace(fs.PrimarySpace())
	var n [4]int
	for i := range n {
		n[i] = int(nd.U64("count") & (1<<50 - 1))
		if i == 2 && n[i] < 2 {
			n[i] = 2
		}
		if i == 3 && n[i] < 16 {
			n[i] = 16
		}
		binary.BigEndian.PutUint64(info[25+8*i:], uint64(n[i]))
	}
	fs.Close()
	od := openOD(file)
	same := func(label string) {
		s := od.Stats()
		nd.Assert(s.NumberOfBPTreeLeafs == n[0] && s.NumberOfBPTreeNonLeafs == n[1] && s.NumberOfBPTreeRecords == n[2] && s.PayloadSize == n[3], label)
	}
	same("C04:the counts survive reopening, however large")
	switch nd.Choice("op", 4) {
	case 0:
		od.Set([]byte("zzz"), []byte("12"), false)
		n[2]++
		n[3] += 5
	case 1:
		od.Clear(t.recs[0].k, false)
		n[2]--
		n[3] -= 7
	case 2:
		od.Set(t.recs[1].k, make([]byte, 300), false)
		n[3] += 295
	}
	same("C07:the counts change by what the operation adds or removes")
	if err := od.Close(); err != nil {
		nd.Assert(false, "C04:Close succeeds")
	}
	od = openOD(file)
	same("C04:the counts survive reopening, however large")
	od.Close()
}

func dictInfo() {
	// around every length of the stored number
	w := []int{7, 14, 21, 28, 31, 32, 35, 42, 49}[nd.Choice("width", 9)]
	below := nd.Choice("below", 2) == 1
	op := nd.Choice("op", 3)
	dd := newDict(3, 1, minDirShift, someItems(4))
	file := nd.TempFile("d")
	dd.build(file)
	var fs fsm.FileStorage
	fs.Init()
	fs.Open(file, false)
	old := fs.PrimarySpace()
	b, _ := sized(fs.AccessSpace(old))
	var f [8]int
	for len(b) > 0 {
		n, v, _, rest, _ := pbField(b)
		f[n] = int(v)
		b = rest
	}
	pay := 1<<w | int(nd.Byte("payload")&15)
	if below {
		pay = (1<<w - 16) | int(nd.Byte("payload")&15)
	}
	nd.Assume(pay >= f[7])
	f[7] = pay
	var m []byte
	for i := 1; i < 8; i++ {
		m = pbInt(m, i, f[i])
	}
	m = append(uvarint(len(m)), m...)
	fs.FreeSpace(old)
	a, buf := fs.AllocateSpace(len(m))
	copy(buf, m)
	fs.SetPrimarySpace(a)
	fs.Close()
	d := openDict(file)
	nd.Assert(d.Stats().PayloadSize == pay, "C14:the counts survive reopening, however large")
	items := 4
	switch op {
	case 0:
		d.Set([]byte("new"), []byte("v"), false)
		items++
		pay += 4
	case 1:
		d.Clear(dd.recs[0].k, false)
		items--
		pay -= len(dd.recs[0].k) + len(dd.recs[0].v)
	}
	s := d.Stats()
	nd.Assert(s.PayloadSize == pay && s.NumberOfHashItems == items, "C16:the counts change by what the operation adds or removes")
	d.Close()
	d = openDict(file)
	s = d.Stats()
	nd.Assert(s.PayloadSize == pay && s.NumberOfHashItems == items, "C14:the counts survive reopening, however large")
	d.Close()
}

func liveCount(file string) int {
	l, ok := nd.LiveSpaces(file)
	if !ok {
		return 0
	}
	return len(l)
}

// Two trees in one storage: filling, emptying and destroying one leaves the
// other alone, and everything is released in the end.
func odDestroy() {
	file := nd.TempFile("od")
	var fs fsm.FileStorage
	fs.Init()
	fs.Open(file, true)
	t1 := new(bptree.BPTree).Init(&fs)
	t2 := new(bptree.BPTree).Init(&fs)
	t1.Create()
	t2.Create()
	k1, k2 := symKey("k1", 3), symKey("k2", 258)
	v := symVal("v", 130)
	t2.AddRecord(k2, v, false)
	b := &builder{c: 100}
	n := []int{0, 3, 60}[nd.Choice("records", 3)]
	var recs []rec
	for i := 0; i < n; i++ {
		recs = append(recs, b.rec([]kvLen{{3, 4}, {258, 130}, {249, 100}, {250, 128}}[i%4]))
		t1.AddRecord(recs[i].k, recs[i].v, false)
	}
	_, dup := find(recs, k1)
	_, ok := t1.AddRecord(k1, v, false)
	nd.Assert(ok == !dup, "C06:the records are added")
	if !dup {
		i, _ := find(recs, k1)
		recs = applySet(recs, i, false, k1, v)
	}
	desc := nd.Choice("order", 2) == 1
	for i := range recs {
		r := recs[i]
		if desc {
			r = recs[len(recs)-1-i]
		}
		t1.DeleteRecord(r.k, false)
	}
	nd.Assert(t1.Height() == 1 && t1.NumberOfLeafs() == 1 && t1.NumberOfNonLeafs() == 0 && t1.NumberOfRecords() == 0 && t1.PayloadSize() == 0, "C07:an emptied tree is a single empty leaf")
	t1.Destroy()
	got, ok := t2.HasRecord(k2, true)
	nd.Assert(ok && bytes.Equal(got, v), "C06:destroying one tree leaves the other alone")
	got, ok = t2.DeleteRecord(k2, true)
	nd.Assert(ok && bytes.Equal(got, v), "C06:destroying one tree leaves the other alone")
	t2.Destroy()
	fs.Close()
	nd.Assert(liveCount(file) == 0, "C06:destroying an emptied tree releases everything")
}

func dictDestroy() {
	file := nd.TempFile("d")
	var fs fsm.FileStorage
	fs.Init()
	fs.Open(file, true)
	h1 := new(hashmap.HashMap).Init(&fs)
	h2 := new(hashmap.HashMap).Init(&fs)
	h1.Create()
	h2.Create()
	k2 := nd.Bytes("k2", 2)
	v := symVal("v", 3)
	h2.AddItem(k2, v, false)
	n := []int{0, 2, 7, 12}[nd.Choice("items", 4)]
	recs := someItems(n)
	for _, r := range recs {
		h1.AddItem(r.k, r.v, false)
	}
	k1 := nd.Bytes("k1", 2)
	if _, ok := h1.AddItem(k1, v, false); ok {
		recs = append(recs, rec{k1, v})
	}
	desc := nd.Choice("order", 2) == 1
	for i := range recs {
		r := recs[i]
		if desc {
			r = recs[len(recs)-1-i]
		}
		_, ok := h1.DeleteItem(r.k, false)
		nd.Assert(ok, "C15:every item is removed")
	}
	nd.Assert(h1.NumberOfItems() == 0 && h1.PayloadSize() == 0 && h1.NumberOfSlots() == 1 && h1.NumberOfSlotDirs() == 1 && h1.MinNumberOfSlots() == 1 && h1.MaxNumberOfSlotDirs() == 8, "C13:an emptied table shrinks back to one slot")
	h1.Destroy()
	got, ok := h2.HasItem(k2, true)
	nd.Assert(ok && bytes.Equal(got, v), "C15:destroying one table leaves the other alone")
	got, ok = h2.DeleteItem(k2, true)
	nd.Assert(ok && bytes.Equal(got, v), "C15:destroying one table leaves the other alone")
	h2.Destroy()
	fs.Close()
	nd.Assert(liveCount(file) == 0, "C15:destroying an emptied table releases everything")
}

func init() {
	add(
		Entry{"OdHigh", odAll + " C05", "one Set or Clear that splits or merges leaves or inner nodes in a file whose addresses start at 6 GiB, arbitrary key around one leaf", true, 2, odHigh},
		Entry{"OdHighRead", "C02", "RangeAsc/RangeDesc with bounds MinKey, MaxKey or an arbitrary 3-byte key over two (thorough: four) trees in a file whose addresses start at 6 GiB", true, 2, odHighRead},
		Entry{"DictHigh", dictAll + " C12 C17", "one Set or Clear and a scan on tables of 1/3/4 slots in a file whose addresses start at 6 GiB, arbitrary keys of 1 and 25 bytes", true, 3, dictHigh},
		Entry{"OdInfo", "C04 C07", "stored counts arbitrary up to 2^50, one operation, two reopens", true, 1, odInfo},
		Entry{"DictInfo", "C14 C16", "stored payload size within 16 of 2^7, 2^14, 2^21, 2^28, 2^31, 2^32, 2^35, 2^42 and 2^49, one operation, two reopens", true, 3, dictInfo},
		Entry{"OdDestroy", "C06 C07", "two trees in one storage, one filled with up to 61 records (one arbitrary key), emptied in either order and destroyed", true, 2, odDestroy},
		Entry{"DictDestroy", "C15 C13", "two tables in one storage, one filled with up to 13 items (one arbitrary key), emptied in either order and destroyed", true, 2, dictDestroy},
	)
}
