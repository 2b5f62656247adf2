package harness

import (
	"bytes"

	"github.com/roy2220/plainkv"
	"zzverif/nd"
)

// prop returns the label text for the first of the properties that is active.
func prop(text string, props ...string) string {
	for _, p := range props {
		if nd.Active(p) {
			return p + ":" + text
		}
	}
	return props[0] + ":" + text
}

// pattern returns n bytes that differ from page to page.
func pattern(n int) []byte {
	b := make([]byte, 0, n)
	for i := 0; i < n && i < 251; i++ {
		b = append(b, byte('a'+i%26))
	}
	for len(b) < n { // doubling: the period stays 251 in the main
		m := len(b)
		if m > n-len(b) {
			m = n - len(b)
		}
		b = append(b, b[:m]...)
	}
	return b
}

// odLongMore: pairs of much longer keys, of which one may be a prefix of the other.
func odLongMore() {
	lens := []int{255, 300, 505, 506, 1000, 5000}
	if nd.Tier() > 0 {
		lens = append(lens, 250, 377, 600, 16632, 16633, 20000)
	}
	n1 := lens[nd.Choice("klen1", len(lens))]
	n2 := lens[nd.Choice("klen2", len(lens))]
	k1, k2 := pattern(n1), pattern(n2)
	if n1 > 0 {
		at := []int{0, 249, n1 / 2, n1 - 1}[nd.Choice("at", 4)]
		k1[at] = nd.Byte("k1")
	}
	l := prop("very long keys are compared by all of their bytes", "C05", "C01", "C02")
	file := nd.TempFile("od")
	strict()
	od := openOD(file)
	v1, v2 := symVal("v1", 3), symVal("v2", 3)
	od.Set(k1, v1, false)
	recs := []rec{{k1, v1}}
	i, same := find(recs, k2)
	old := od.Set(k2, v2, true)
	nd.Assert(same && bytes.Equal(old, v1) || !same && old == nil, l)
	recs = applySet(recs, i, same, k2, v2)
	for _, r := range recs {
		v, ok := od.Test(r.k, true)
		nd.Assert(ok && bytes.Equal(v, r.v), l)
	}
	p := prop("", "C05", "C01", "C02")[:3]
	walkRange(od.RangeAsc(plainkv.MinKey, k2), recs[:find1(recs, k2)+1], false, -1, p)
	walkRange(od.RangeDesc(k2, plainkv.MaxKey), recs[find1(recs, k2):], true, -1, p)
	op := nd.Choice("then", 2)
	if op == 0 {
		old, ok := od.Clear(k1, true)
		j, _ := find(recs, k1)
		nd.Assert(ok && bytes.Equal(old, recs[j].v), l)
		recs = applyClear(recs, j)
		_, ok = od.Test(k2, false)
		nd.Assert(ok == !same, l)
	}
	odFinish(od, file, nil, recs)
}

// odHuge: keys and values whose external part has a length of three bytes and more.
func odHuge() {
	lens := []int{16383, 16384, 70000, 1<<21 - 1, 1 << 21}
	if nd.Tier() > 0 {
		lens = append(lens, 65535, 65536, 1<<21+1)
	}
	n := lens[nd.Choice("external length", len(lens))]
	const l = "C05:very long keys and values are kept whole"
	var k, v, k2 []byte
	which := nd.Choice("what", 2)
	if which == 0 {
		k = pattern(249 + n)
		k[len(k)-1] = nd.Byte("last")
		k2 = k[: len(k)-1 : len(k)-1] // its longest prefix
		v = symVal("v", 2)
	} else {
		v = pattern(121 + n)
		v[len(v)-1], v[121] = nd.Byte("last"), nd.Byte("first")
		k, k2 = symKey("k", 3), keyOf(77, 300)
	}
	file := nd.TempFile("od")
	strict()
	od := openOD(file)
	od.Set(k, v, false)
	recs := []rec{{k, v}}
	i, in := find(recs, k2)
	_, ok := od.Test(k2, false)
	nd.Assert(ok == in, l)
	od.Set(k2, []byte("other"), false)
	recs = applySet(recs, i, in, k2, []byte("other"))
	w, ok := od.Test(k, true)
	nd.Assert(ok && bytes.Equal(w, v), l)
	walkRange(od.RangeAsc(plainkv.MinKey, plainkv.MaxKey), recs, false, -1, "C05")
	it := od.RangeAsc(k, k)
	kn, err := it.GetKeySize()
	nd.Assert(err == nil && kn == len(k), l)
	vn, err := it.GetValueSize()
	nd.Assert(err == nil && vn == len(v), l)
	buf := make([]byte, 4)
	kn, _ = it.ReadKey(len(k)-2, buf)
	nd.Assert(kn == 2 && bytes.Equal(buf[:2], k[len(k)-2:]), l)
	if len(v) > 2 {
		vn, _ = it.ReadValue(len(v)-3, buf)
		nd.Assert(vn == 3 && bytes.Equal(buf[:3], v[len(v)-3:]), l)
	}
	if nd.Choice("then", 2) == 0 {
		old, ok := od.Clear(k, true)
		nd.Assert(ok && bytes.Equal(old, v), l)
		recs = applyClear(recs, find1(recs, k))
	} else {
		old := od.Set(k, []byte("short"), true)
		nd.Assert(bytes.Equal(old, v), l)
		recs = applySet(recs, find1(recs, k), true, k, []byte("short"))
	}
	odFinish(od, file, nil, recs)
}

// held is a result that was handed out, and a copy of it.
type held struct{ got, was []byte }

type keeper struct{ all []held }

func (kp *keeper) hold(bs ...[]byte) {
	for _, b := range bs {
		kp.all = append(kp.all, held{b, append([]byte{}, b...)})
	}
}

// check: what was handed out is still the same, and no two results overlap, up
// to their capacity.
func (kp *keeper) check() {
	for _, h := range kp.all {
		nd.Assert(bytes.Equal(h.got, h.was), "C10:what was handed out does not change later")
	}
	for i, h := range kp.all {
		b := h.got[:cap(h.got)]
		for j := range b {
			b[j] = byte(i)
		}
	}
	for i, h := range kp.all {
		b := h.got[:cap(h.got)]
		for j := range b {
			if b[j] != byte(i) {
				nd.Assert(false, "C10:no two results share memory")
				return
			}
		}
	}
}

// odKept: results are kept while reading and changing goes on.
func odKept() {
	t := opTree(2 + nd.Choice("shape", 3))
	file := nd.TempFile("od")
	t.build(file)
	strict()
	od := openOD(file)
	var kp keeper
	n := len(t.recs)
	its := []plainkv.OrderedDictIterator{od.RangeAsc(plainkv.MinKey, plainkv.MaxKey), od.RangeDesc(plainkv.MinKey, plainkv.MaxKey)}
	for i := 0; i < n; i++ {
		for _, it := range its {
			if i < 4 || i > n-3 || i%16 < 2 {
				k, _ := it.ReadKeyAll()
				v, _ := it.ReadValueAll()
				k2, v2, _ := it.ReadRecordAll()
				kp.hold(k, v, k2, v2)
				if i < 2 {
					v, _ = od.Test(k, true)
					kp.hold(v)
				}
			}
			it.Advance()
		}
	}
	recs := t.recs
	for i := 0; i < 2; i++ {
		op := nd.Choice("op", 2)
		key := symKey("key", []int{3, 258}[nd.Choice("klen", 2)])
		if i > 0 {
			key = recs[len(recs)/2].k
		}
		var out []byte
		recs, out = odDo(od, recs, op, key, symVal("val", []int{5, 300}[nd.Choice("vlen", 2)]), "C10:operations return the value of the key")
		kp.hold(out)
	}
	kp.check()
	walkRange(od.RangeAsc(plainkv.MinKey, plainkv.MaxKey), recs, false, -1, "C10")
	od.Close()
}

// dictKept: the same for a Dict.
func dictKept() {
	slots := []int{1, 3, 4}[nd.Choice("slots", 3)]
	recs := someItems(itemCount(slots, nd.Choice("items", 2)))
	file := nd.TempFile("d")
	newDict(slots, 1, minDirShift, recs).build(file)
	strict()
	d := openDict(file)
	var kp keeper
	scan := func(c *plainkv.DictCursor, n int) {
		for ; n != 0 && len(kp.all) < 200; n-- {
			k, v, ok := d.Scan(c)
			if !ok {
				return
			}
			kp.hold(k, v)
		}
	}
	var c1, c2 plainkv.DictCursor
	scan(&c1, 3)
	scan(&c2, 2)
	for i := 0; i < 2; i++ {
		op := nd.Choice("op", 2)
		key := symDictKey([]int{1, 3, 4}[nd.Choice("key-kind", 3)])
		if i > 0 && len(recs) > 0 {
			key = recs[len(recs)/2].k
		}
		for _, r := range recs {
			v, _ := d.Test(r.k, true)
			kp.hold(v)
		}
		var out []byte
		recs, out = dictDo(d, recs, op, key, symVal("val", []int{3, 40}[nd.Choice("vlen", 2)]), "C10:operations return the value of the key")
		kp.hold(out)
	}
	scan(&c1, -1)
	kp.check()
	for _, r := range recs {
		v, ok := d.Test(r.k, true)
		nd.Assert(ok && bytes.Equal(v, r.v), "C10:later writes to buffers do not reach the dictionary")
	}
	d.Close()
}

// dictGaps: all items of a larger table lie in one or two slots.
func dictGaps() {
	slots := []int{7, 12, 40, 150}[nd.Choice("slots", 4)]
	mask := 1
	for mask < slots {
		mask *= 2
	}
	n := itemCount(slots, 0)
	place := []int{0, 1, slots / 2, slots - 1}
	a, b := place[nd.Choice("slot", 4)], place[nd.Choice("other slot", 4)]
	one := nd.Choice("in the other", 3)
	// slots below low have a buddy beyond the end and hold two residues
	c := 1
	var recs []rec
	use := func(slot, n int) {
		for _, k := range keysFor(slot, mask, n, &c) {
			recs = append(recs, rec{k, valOf(c, c%5)})
		}
	}
	use(a, n-one)
	use(b, one)
	recs[len(recs)-1].v = symVal("val", 3)
	file := nd.TempFile("d")
	newDict(slots, 1, minDirShift, recs).build(file)
	strict()
	d := openDict(file)
	nd.Assert(d.Stats().NumberOfHashSlots == slots, "C12:the table is as built")
	var got []rec
	var cur plainkv.DictCursor
	for len(got) <= len(recs) {
		k, v, ok := d.Scan(&cur)
		if !ok {
			break
		}
		got = append(got, rec{k, v})
	}
	sameRecs(got, recs, "C12:a scan yields every pair once")
	_, _, ok := d.Scan(&cur)
	nd.Assert(!ok, "C12:a finished scan stays finished")
	d.Close()
}

// twoOdsRanges: ranges of every kind over one ordered dictionary after another one was changed.
func twoOdsRanges() {
	small := []int{0, 1, 2}
	ta, tb := opTree(small[nd.Choice("shape-a", 3)]), opTree(small[nd.Choice("shape-b", 3)])
	fa, fb := nd.TempFile("a"), nd.TempFile("b")
	ta.build(fa)
	tb.build(fb)
	strict()
	a, b := openOD(fa), openOD(fb)
	ra, rb := ta.recs, tb.recs
	const l = "C21:dictionaries do not disturb each other"
	order := nd.Choice("order", 2)
	for i := 0; i < 2; i++ {
		op := nd.Choice("op", 3)
		if op == 2 {
			continue
		}
		if i == order {
			ra, _ = odDo(a, ra, op, symKey("key-a", 3), symVal("val", 2), l)
		} else {
			rb, _ = odDo(b, rb, op, symKey("key-b", 3), symVal("val", 2), l)
		}
	}
	kinds := 2
	if len(ra) > 0 {
		kinds = 3
	}
	bound := func(kind int) []byte {
		return [][]byte{plainkv.MinKey, plainkv.MaxKey, nil}[kind]
	}
	for k1 := 0; k1 < kinds; k1++ {
		for k2 := 0; k2 < kinds; k2++ {
			min, max := bound(k1), bound(k2)
			if k1 == 2 {
				min = ra[len(ra)/2].k
			}
			if k2 == 2 {
				max = ra[len(ra)/2].k
			}
			lo, hi := 0, 0
			if len(ra) > 0 {
				lo, hi = lower(ra, k1, min), upper(ra, k2, max)
			}
			if hi < lo {
				hi = lo
			}
			walkRange(a.RangeAsc(min, max), ra[lo:hi], false, -1, "C21")
			walkRange(a.RangeDesc(min, max), ra[lo:hi], true, -1, "C21")
		}
	}
	walkRange(b.RangeAsc(plainkv.MinKey, plainkv.MaxKey), rb, false, -1, "C21")
	b.Close()
	walkRange(a.RangeAsc(plainkv.MinKey, plainkv.MaxKey), ra, false, -1, "C21")
	a.Close()
}

func init() {
	add(
		Entry{"OdLongMore", "C05 C01 C02 C09", "pairs of keys of lengths 255/300/505/506/1000/5000 (thorough: 12 lengths up to 20000) with a common prefix, equal except for length and one arbitrary byte at position 0/249/middle/last; set, read, ranged over, cleared", true, 3, odLongMore},
		Entry{"OdHuge", "C05 C09 C04 C06 C07", "a key or a value whose external part has 16383/16384/70000/2^21-1/2^21 bytes (thorough: also 65535/65536/2^21+1), arbitrary boundary bytes, next to its longest prefix or another key; read whole and in part, ranged over, replaced or cleared", true, 2, odHuge},
		Entry{"OdKept", "C10", "every result of two iterators along trees of one to three leaves, of Test and of two changes with an arbitrary key of 3/258 bytes and value of 5/300 bytes, kept to the end and then overwritten up to their capacity", true, 3, odKept},
		Entry{"DictKept", "C10", "every result of two scans, of Test and of two changes with an arbitrary key of 3 kinds on tables of 1/3/4 slots, kept to the end and then overwritten up to their capacity", true, 3, dictKept},
		Entry{"DictGaps", "C12 C09", "scans of tables of 7/12/40/150 slots whose items all lie in one or two slots out of the first, second, middle and last", true, 3, dictGaps},
		Entry{"TwoOdsRanges", "C21", "two ordered dictionaries of 0/1/8 records, none, one or both of them changed in either order with an arbitrary key, then ranges with every combination of MinKey, MaxKey and a present key", true, 3, twoOdsRanges},
	)
}
