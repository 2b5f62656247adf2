package harness

import (
	"bytes"
	"math"

	"github.com/roy2220/plainkv"
	"zzverif/nd"
)

// longKeyOf is a key of length n, equal to every other one except for the
// arbitrary byte at position at (and its length).
func longKeyOf(n, at int, name string) []byte {
	k := make([]byte, n)
	for i := range k {
		k[i] = byte('a' + i%7)
	}
	if at < n {
		k[at] = nd.Byte(name)
	}
	return k
}

func longValOf(n int, name string) []byte {
	v := make([]byte, n)
	for i := range v {
		v[i] = byte(i*3 + 1)
	}
	for i, at := range []int{0, 120, 121, 122, n - 1} {
		if at >= 0 && at < n {
			v[at] = nd.Byte(name + string(rune('0'+i)))
		}
	}
	return v
}

func keyLengths() []int {
	l := []int{248, 249, 250, 256, 257, 258, 376, 377}
	if nd.Tier() > 0 {
		l = append(l, 3, 251, 255, 259, 300, 375, 378, 16632, 16633, 16634)
	}
	return l
}

func valLengths() []int {
	l := []int{0, 120, 121, 128, 129, 130, 248, 249}
	if nd.Tier() > 0 {
		l = append(l, 1, 122, 127, 247, 250, 300, 16504, 16505, 16506)
	}
	return l
}

// keyMax bounds the lengths of the second key of a pair.
func lessLengths() []int {
	l := []int{249, 250, 256, 257, 258, 377}
	if nd.Tier() > 0 {
		l = append(l, 1, 248, 251, 300)
	}
	return l
}

// Two keys around the overflow boundary that share a long prefix: they are
// stored, told apart, ordered and removed by all of their bytes.
func odLongKeys() {
	kl := keyLengths()
	ll := lessLengths()
	n1 := kl[nd.Choice("klen1", len(kl))]
	n2 := ll[nd.Choice("klen2", len(ll))]
	at := []int{0, 248, 249, 250, 255, 256, n1 - 1}[nd.Choice("at", 7)]
	file := nd.TempFile("od")
	strict()
	od := openOD(file)
	k1 := longKeyOf(n1, at, "k1")
	k2 := longKeyOf(n2, at, "k2")
	v1, v2 := []byte("one"), []byte("two")
	od.Set(k1, v1, false)
	i, same := find([]rec{{k1, v1}}, k2)
	old, ok := od.Test(k2, true)
	nd.Assert(ok == same && (!ok || bytes.Equal(old, v1)), "C05:keys are compared by all of their bytes")
	old, ok = od.SetIfNotExists(k2, v2, true)
	nd.Assert(ok == !same && (ok || bytes.Equal(old, v1)), "C05:keys are compared by all of their bytes")
	want := []rec{{k1, v1}}
	if !same {
		want = applySet(want, i, false, k2, v2)
		nd.Reach("two long keys")
	}
	n := 0
	for it := od.RangeAsc(plainkv.MinKey, plainkv.MaxKey); !it.IsAtEnd(); it = it.Advance() {
		k, v, err := it.ReadRecordAll()
		nd.Assert(n < len(want) && err == nil && bytes.Equal(k, want[n].k) && bytes.Equal(v, want[n].v), "C05:iteration yields long keys whole and in order")
		n++
	}
	nd.Assert(n == len(want), "C05:iteration yields long keys whole and in order")
	n = 0
	lo := find1(want, k2)
	for it := od.RangeDesc(k2, plainkv.MaxKey); !it.IsAtEnd(); it = it.Advance() {
		k, err := it.ReadKeyAll()
		nd.Assert(n < len(want)-lo && err == nil && bytes.Equal(k, want[len(want)-1-n].k), "C05:ranges compare long bounds by all of their bytes")
		n++
	}
	nd.Assert(n == len(want)-lo, "C05:ranges compare long bounds by all of their bytes")
	if nd.Choice("clear", 2) == 1 {
		old, ok = od.Clear(k1, true)
		nd.Assert(ok && bytes.Equal(old, v1), "C05:Clear finds a long key")
		j, _ := find(want, k1)
		want = applyClear(want, j)
		_, ok = od.Test(k2, false)
		nd.Assert(ok == !same, "C05:Clear removes only the given key")
	}
	odFinish(od, file, nil, want)
}

func find1(recs []rec, key []byte) int {
	i, _ := find(recs, key)
	return i
}

// A value of one length is replaced by a value of another: every change between
// inline and overflow storage, under a short or a long key.
func odLongVals() {
	vl := valLengths()
	n1 := vl[nd.Choice("vlen1", len(vl))]
	n2 := vl[nd.Choice("vlen2", len(vl))]
	kl := []int{3, 256, 257}[nd.Choice("klen", 3)]
	file := nd.TempFile("od")
	b := &builder{c: 100}
	key := symKey("key", kl)
	nd.Assume(counter(key) == 104)
	v1 := longValOf(n1, "v1-")
	v2 := longValOf(n2, "v2-")
	recs := []rec{b.rec(kvLen{3, 2}), b.rec(kvLen{260, 131})}
	i, ok := find(recs, key)
	recs = applySet(recs, i, ok, key, v1)
	t := newTree(leafNode(recs))
	var od *plainkv.OrderedDict
	if nd.Choice("built", 2) == 1 {
		t.build(file)
		od = openOD(file)
	} else {
		od = openOD(file)
		for _, r := range recs {
			od.Set(r.k, r.v, false)
		}
		t = nil
	}
	strict()
	v, ok := od.Test(key, true)
	nd.Assert(ok && bytes.Equal(v, v1), "C05:Test returns the whole value")
	ret := nd.Bool("ret")
	op := nd.Choice("op", 3)
	switch op {
	case 0:
		v = od.Set(key, v2, ret)
		nd.Assert(eqOpt(v, v1, ret), "C05:Set returns the whole replaced value")
		recs = applySet(recs, find1(recs, key), true, key, v2)
	case 1:
		v, ok = od.SetIfExists(key, v2, ret)
		nd.Assert(ok && eqOpt(v, v1, ret), "C05:SetIfExists returns the whole replaced value")
		recs = applySet(recs, find1(recs, key), true, key, v2)
	case 2:
		v, ok = od.Clear(key, ret)
		nd.Assert(ok && eqOpt(v, v1, ret), "C05:Clear returns the whole removed value")
		recs = applyClear(recs, find1(recs, key))
	}
	v, ok = od.Test(key, true)
	nd.Assert(ok == (op < 2) && (!ok || bytes.Equal(v, v2)), "C05:Test returns the whole value after the change")
	v, ok = od.SetIfNotExists(key, v1, ret)
	if op < 2 {
		nd.Assert(!ok && eqOpt(v, v2, ret), "C05:SetIfNotExists returns the whole present value")
	} else {
		recs = applySet(recs, find1(recs, key), false, key, v1)
	}
	odFinish(od, file, t, recs)
}

// offsetIn is an arbitrary offset into data of length n: anywhere (thorough) or
// in a window around a boundary, or anywhere beyond the data.
func offsetIn(n int) int {
	if nd.Choice("offset beyond", 2) == 1 {
		return nd.Int("offset", n, math.MaxInt)
	}
	if nd.Tier() > 0 && n < 400 {
		w := nd.Choice("offset window", 8)
		lo, hi := w*(n+3)/8, (w+1)*(n+3)/8-1
		nd.Assume(lo <= hi)
		return nd.Int("offset", lo, hi)
	}
	mid := []int{2, 121, 249, n}[nd.Choice("offset window", 4)]
	lo, hi := mid-2, mid+2
	if hi > n+2 {
		hi = n + 2
	}
	nd.Assume(lo >= 0 && lo <= hi)
	return nd.Int("offset", lo, hi)
}

// ReadKey and ReadValue at any offset into buffers of many lengths.
func odPartial() {
	kl := []int{0, 5, 249, 256, 257, 258, 300}
	vl := []int{0, 5, 121, 128, 129, 130, 300}
	if nd.Tier() > 0 {
		kl = append(kl, 248, 250, 376, 377, 1000)
		vl = append(vl, 120, 122, 248, 249, 1000)
	}
	which := nd.Choice("what", 2)
	file := nd.TempFile("od")
	od := openOD(file)
	var k, v []byte
	if which == 0 {
		k = longKeyOf(kl[nd.Choice("len", len(kl))], 249, "k")
		v = []byte("v")
	} else {
		k = []byte("k")
		v = longValOf(vl[nd.Choice("len", len(vl))], "v")
	}
	bl := []int{0, 1, 3, 128, 249, 250, 257, 400}
	buf := make([]byte, bl[nd.Choice("buffer", len(bl))]+1)
	guard := buf[len(buf)-1:]
	buf = buf[:len(buf)-1]
	od.Set(k, v, false)
	var it plainkv.OrderedDictIterator
	if nd.Choice("desc", 2) == 1 {
		it = od.RangeDesc(plainkv.MinKey, plainkv.MaxKey)
	} else {
		it = od.RangeAsc(k, k)
	}
	nd.Assert(!it.IsAtEnd(), "C05:the record is found")
	data := k
	if which == 1 {
		data = v
	}
	var n int
	var err error
	if which == 0 {
		n, err = it.GetKeySize()
	} else {
		n, err = it.GetValueSize()
	}
	nd.Assert(err == nil && n == len(data), "C05:size getters return the size of the whole data")
	off := offsetIn(len(data))
	if which == 0 {
		n, err = it.ReadKey(off, buf)
	} else {
		n, err = it.ReadValue(off, buf)
	}
	m := len(data) - off
	if m < 0 {
		m = 0
	}
	if m > len(buf) {
		m = len(buf)
	}
	nd.Assert(err == nil && n == m, "C05:a partial read returns the number of bytes available")
	if m > 0 {
		nd.Assert(bytes.Equal(buf[:m], data[off:off+m]), "C05:a partial read returns the bytes at the offset")
	}
	nd.Assert(bytes.Equal(buf[m:], make([]byte, len(buf)-m)), "C05:a partial read leaves the rest of the buffer alone")
	nd.Assert(guard[0] == 0, "C05:a partial read stays within the buffer")
	k2, v2, err := it.ReadRecordAll()
	nd.Assert(err == nil && bytes.Equal(k2, k) && bytes.Equal(v2, v), "C05:ReadRecordAll returns the whole record")
	od.Close()
}

// checkGetters: every getter agrees with the given record.
func checkGetters(it plainkv.OrderedDictIterator, r rec) {
	const l = "C08:before the end every getter returns the current record"
	kn, err := it.GetKeySize()
	nd.Assert(err == nil && kn == len(r.k), l)
	vn, err := it.GetValueSize()
	nd.Assert(err == nil && vn == len(r.v), l)
	k, err := it.ReadKeyAll()
	nd.Assert(err == nil && bytes.Equal(k, r.k), l)
	v, err := it.ReadValueAll()
	nd.Assert(err == nil && bytes.Equal(v, r.v), l)
	k, v, err = it.ReadRecordAll()
	nd.Assert(err == nil && bytes.Equal(k, r.k) && bytes.Equal(v, r.v), l)
	buf := make([]byte, kn+vn)
	n, err := it.ReadKey(0, buf)
	nd.Assert(err == nil && n == kn && bytes.Equal(buf[:n], r.k), l)
	buf = make([]byte, kn+vn)
	n, err = it.ReadValue(0, buf)
	nd.Assert(err == nil && n == vn && bytes.Equal(buf[:n], r.v), l)
	n, err = it.ReadKey(0, nil)
	nd.Assert(err == nil && n == 0, l)
	n, err = it.ReadValue(0, buf[:0])
	nd.Assert(err == nil && n == 0, l)
	n, err = it.ReadKey(kn, buf)
	nd.Assert(err == nil && n == 0, l)
	n, err = it.ReadValue(vn, buf)
	nd.Assert(err == nil && n == 0, l)
	nd.Assert(!it.IsAtEnd(), "C08:reading does not advance the iteration")
}

func checkEnd(it plainkv.OrderedDictIterator) {
	const l = "C08:at the end every getter returns an error and no data"
	nd.Assert(it.IsAtEnd(), "C08:IsAtEnd stays true at the end")
	n, err := it.GetKeySize()
	nd.Assert(err != nil && n == 0, l)
	n, err = it.GetValueSize()
	nd.Assert(err != nil && n == 0, l)
	k, err := it.ReadKeyAll()
	nd.Assert(err != nil && len(k) == 0, l)
	v, err := it.ReadValueAll()
	nd.Assert(err != nil && len(v) == 0, l)
	k, v, err = it.ReadRecordAll()
	nd.Assert(err != nil && len(k) == 0 && len(v) == 0, l)
	buf := []byte{7, 7}
	n, err = it.ReadKey(0, buf)
	nd.Assert(err != nil && n == 0 && buf[0] == 7 && buf[1] == 7, l)
	n, err = it.ReadValue(1, buf)
	nd.Assert(err != nil && n == 0 && buf[0] == 7 && buf[1] == 7, l)
	for i, b := range [][]byte{nil, {}} {
		n, err = it.ReadKey(i, b)
		nd.Assert(err != nil && n == 0, l)
		n, err = it.ReadValue(1-i, b)
		nd.Assert(err != nil && n == 0, l)
	}
	n, err = it.ReadKey(300, buf)
	nd.Assert(err != nil && n == 0, l)
	n, err = it.ReadValue(300, buf)
	nd.Assert(err != nil && n == 0, l)
}

func odIterEnd() {
	shapes := 5
	if nd.Tier() > 0 {
		shapes = 6
	}
	t := rangeTree(nd.Choice("shape", shapes))
	desc := nd.Choice("desc", 2) == 1
	file := nd.TempFile("od")
	t.build(file)
	od := openOD(file)
	k1, min := bound("min", 3)
	k2, max := bound("max", 3)
	var it plainkv.OrderedDictIterator
	if desc {
		it = od.RangeDesc(min, max)
	} else {
		it = od.RangeAsc(min, max)
	}
	lo, hi := 0, 0
	if len(t.recs) > 0 {
		lo, hi = lower(t.recs, k1, min), upper(t.recs, k2, max)
	}
	n := 0
	for i := 0; lo+i < hi; i++ {
		r := t.recs[lo+i]
		if desc {
			r = t.recs[hi-1-i]
		}
		nd.Assert(!it.IsAtEnd(), "C08:the iteration is not at the end before its last record")
		if i < 2 || lo+i+2 >= hi || len(r.k) > 256 {
			checkGetters(it, r)
		}
		it2 := it.Advance()
		nd.Assert(it2 == it, "C08:Advance returns the iterator itself")
		n++
	}
	if n == 0 {
		nd.Reach("empty range")
	} else {
		nd.Reach("end of a nonempty range")
	}
	checkEnd(it)
	for i := 0; i < 2; i++ {
		it2 := it.Advance()
		nd.Assert(it2 == it, "C08:Advance returns the iterator itself")
		checkEnd(it)
	}
	// new iterations leave the ended one at its end, and it them
	next := []plainkv.OrderedDictIterator{od.RangeAsc(plainkv.MinKey, plainkv.MaxKey), od.RangeDesc(plainkv.MinKey, plainkv.MaxKey)}
	checkEnd(it)
	it.Advance()
	for i, it3 := range next {
		walkRange(it3, t.recs, i == 1, 2, "C08")
		checkEnd(it)
	}
	od.Close()
}

// The dictionary keeps no reference to the caller's buffers and hands out none of its own.
func odBuffers() {
	t := opTree([]int{0, 2, 3}[nd.Choice("shape", 3)])
	op := nd.Choice("op", 5)
	kn := []int{3, 249, 257}[nd.Choice("klen", 3)]
	vn := []int{3, 128, 129}[nd.Choice("vlen", 3)]
	file := nd.TempFile("od")
	t.build(file)
	od := openOD(file)
	kb := make([]byte, kn+20)
	copy(kb, symKey("key", kn))
	key := kb[:kn]
	vb := make([]byte, vn+20)
	copy(vb, symVal("val", vn))
	vb[vn] = 9
	val := vb[:vn]
	i, ok := find(t.recs, key)
	if ok && vn == 3 && (op == 0 || op > 2) && nd.Choice("same", 2) == 1 { // the value which the key has
		vn = len(t.recs[i].v)
		vb = append(append([]byte{}, t.recs[i].v...), 9, 9, 9)
		val = vb[:vn]
	}
	k0, v0 := append([]byte{}, kb...), append([]byte{}, vb...)
	want := t.recs
	var out []byte
	switch op {
	case 0:
		out = od.Set(key, val, true)
		want = applySet(want, i, ok, k0[:kn], v0[:vn])
	case 1:
		out, _ = od.Clear(key, true)
		if ok {
			want = applyClear(want, i)
		}
	case 2:
		out, _ = od.Test(key, true)
	case 3:
		out, _ = od.SetIfNotExists(key, val, true)
		if !ok {
			want = applySet(want, i, false, k0[:kn], v0[:vn])
		}
	case 4:
		out, _ = od.SetIfExists(key, val, true)
		if ok {
			want = applySet(want, i, true, k0[:kn], v0[:vn])
		}
	}
	out0 := append([]byte{}, out...)
	nd.Assert(bytes.Equal(kb, k0) && bytes.Equal(vb, v0), "C10:operations do not write to the caller's key and value")
	junk := nd.Byte("junk")
	fill := func(b []byte) {
		b = b[:cap(b)] // what is returned belongs to the caller, up to its capacity
		for j := range b {
			b[j] = junk
		}
	}
	fill(kb)
	fill(vb)
	nd.Assert(bytes.Equal(out, out0), "C10:later writes to the key and value given do not reach the result")
	fill(out)
	n := 0
	for it := od.RangeAsc(plainkv.MinKey, plainkv.MaxKey); !it.IsAtEnd() && n < 10; it = it.Advance() {
		a, b, _ := it.ReadRecordAll()
		fill(a)
		fill(b)
		a, _ = it.ReadKeyAll()
		fill(a)
		b, _ = it.ReadValueAll()
		fill(b)
		n++
	}
	for j, r := range want {
		if j > 6 && j < len(want)-6 && (j < i-2 || j > i+2) {
			continue
		}
		v, ok := od.Test(r.k, true)
		nd.Assert(ok && bytes.Equal(v, r.v), "C10:later writes to buffers do not reach the dictionary")
	}
	od.Close()
	im := readImage(file, t)
	sameRecs(im.recs, want, "C10:later writes to buffers do not reach the file")
	im.close()
}

func init() {
	add(
		Entry{"OdLongKeys", "C05 C09 C04", "pairs of keys of lengths 248..258, 376, 377 (thorough: up to 16634) that differ in one arbitrary byte at positions 0/248/249/250/255/256/last or only in length", true, 3, odLongKeys},
		Entry{"OdLongVals", "C05 C09 C04 C06", "every replacement of a value of one length by another out of 0/120/121/128/129/130/248/249 (thorough: up to 16506) under keys of 3/256/257 bytes, arbitrary bytes at the boundaries, Set/SetIfExists/Clear then SetIfNotExists", true, 3, odLongVals},
		Entry{"OdPartial", "C05", "ReadKey/ReadValue with an arbitrary offset within 2 of 2/121/249/end (thorough: any offset) into buffers of 8 lengths over data of 7 (thorough: 12) lengths", true, 4, odPartial},
		Entry{"OdIterEnd", "C08", "every getter and Advance along and beyond the end of RangeAsc/RangeDesc with bounds MinKey, MaxKey or an arbitrary 3-byte key over 5 trees (thorough: also height 3)", true, 2, odIterEnd},
		Entry{"OdBuffers", "C10", "each point operation with an arbitrary key (3/249/257 bytes) and value (3/128/129 bytes) on three trees, then every buffer given or received (up to its capacity) overwritten with an arbitrary byte", true, 3, odBuffers},
	)
}
