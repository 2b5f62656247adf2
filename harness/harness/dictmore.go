package harness

import (
	"bytes"

	"github.com/roy2220/plainkv"
	"zzverif/nd"
)

// Scan over an unchanging dictionary yields every pair once.
func dictScan() {
	slots := []int{1, 2, 3, 5, 8}[nd.Choice("slots", 5)]
	n := itemCount(slots, nd.Choice("items", 3))
	if slots == 1 && n == 0 {
		n = nd.Choice("one", 2)
	}
	recs := someItems(n)
	for i := range recs {
		if len(recs[i].v) > 0 {
			recs[i].v = nd.Bytes("v", len(recs[i].v)%4)
		}
	}
	if n > 0 { // one arbitrary key
		k := nd.Bytes("k", 2)
		for _, r := range recs[:n-1] {
			nd.Assume(!bytes.Equal(r.k, k))
		}
		recs[n-1].k = k
	}
	file := nd.TempFile("d")
	d := openDict(file)
	for _, r := range recs {
		d.Set(r.k, r.v, false)
	}
	if nd.Choice("reopen", 2) == 1 {
		d.Close()
		d = openDict(file)
	}
	mix := nd.Choice("reads between", 2) == 1
	var got []rec
	var cur plainkv.DictCursor
	for {
		k, v, ok := d.Scan(&cur)
		if !ok {
			nd.Assert(k == nil && v == nil, "C12:the end of a scan yields nothing")
			break
		}
		if len(got) > len(recs) {
			nd.Assert(false, "C12:a scan yields no more pairs than there are")
			return
		}
		got = append(got, rec{append([]byte{}, k...), append([]byte{}, v...)})
		if mix {
			d.Test(k, true)
			var other plainkv.DictCursor
			d.Scan(&other)
			if len(v) > 0 {
				v[0]++ // what a scan returns belongs to the caller
			}
		}
	}
	for i := 0; i < 2; i++ {
		_, _, ok := d.Scan(&cur)
		nd.Assert(!ok, "C12:a finished scan stays finished")
	}
	sameRecs(got, recs, "C12:a scan yields every pair once")
	nd.Reach("scanned")
	d.Close()
}

// scanMulti: the zero cursor of a second scan starts over; two interleaved
// cursors do not disturb each other.
func dictScanTwo() {
	slots := []int{1, 3, 4}[nd.Choice("slots", 3)]
	recs := someItems(itemCount(slots, 1))
	dd := newDict(slots, 1, minDirShift, recs)
	file := nd.TempFile("d")
	dd.build(file)
	d := openDict(file)
	var c1, c2 plainkv.DictCursor
	var g1, g2 []rec
	e1, e2 := false, false
	for step := 0; !(e1 && e2); step++ {
		if step > 2*len(recs)+2 {
			nd.Assert(false, "C12:a scan ends")
			return
		}
		first := !e1 && (e2 || nd.Bool("first"))
		if first {
			k, v, ok := d.Scan(&c1)
			e1 = !ok
			if ok {
				g1 = append(g1, rec{k, v})
			}
		} else {
			k, v, ok := d.Scan(&c2)
			e2 = !ok
			if ok {
				g2 = append(g2, rec{k, v})
			}
		}
	}
	sameRecs(g1, recs, "C12:interleaved scans yield every pair once")
	sameRecs(g2, recs, "C12:interleaved scans yield every pair once")
	d.Close()
}

// dictSeq: arbitrary short histories from an empty dictionary with reopening.
func dictSeq() {
	file := nd.TempFile("d")
	strict()
	d := openDict(file)
	steps := 3
	if nd.Tier() > 0 {
		steps = 4
	}
	ops := make([]int, steps)
	for s := range ops {
		ops[s] = nd.Choice("op", 6)
	}
	var recs []rec
	for _, op := range ops {
		if op == 5 {
			if err := d.Close(); err != nil {
				nd.Assert(false, "C14:Close succeeds")
			}
			readDict(file).close()
			d = openDict(file)
			continue
		}
		var key []byte
		if nd.Bool("empty key") {
			key = []byte{}
		} else {
			key = nd.Bytes("key", 1)
		}
		var val []byte
		if op != 1 && op != 4 {
			val = nd.Bytes("val", nd.Choice("vlen", 2))
		}
		recs = dictOp(d, recs, op, key, val, true)
		dictStats(d, recs)
	}
	for _, r := range recs {
		v, ok := d.Test(r.k, true)
		nd.Assert(ok && bytes.Equal(v, r.v), "C11:every item is found with its value")
	}
	dictAfter(d, file, recs)
}

// dictQuiet: operations that do nothing leave the dictionary as it was.
func dictQuiet() {
	slots := []int{1, 2, 5}[nd.Choice("slots", 3)]
	n := itemCount(slots, nd.Choice("items", 2))
	recs := someItems(n)
	dd := newDict(slots, 1, minDirShift, recs)
	file := nd.TempFile("d")
	dd.build(file)
	d := openDict(file)
	before := d.Stats()
	op := nd.Choice("op", 6)
	key := symDictKey([]int{0, 3, 4, 6}[nd.Choice("key-kind", 4)])
	_, in := findItem(recs, key)
	val := symVal("val", 2)
	ret := nd.Bool("ret")
	switch op {
	case 0:
		nd.Assume(!in)
		_, ok := d.SetIfExists(key, val, ret)
		nd.Assert(!ok, "C18:SetIfExists of an absent key fails")
	case 1:
		nd.Assume(in)
		_, ok := d.SetIfNotExists(key, val, ret)
		nd.Assert(!ok, "C18:SetIfNotExists of a present key fails")
	case 2:
		nd.Assume(!in)
		_, ok := d.Clear(key, ret)
		nd.Assert(!ok, "C18:Clear of an absent key fails")
	case 3:
		d.Test(key, ret)
	case 4:
		var c plainkv.DictCursor
		for {
			if _, _, ok := d.Scan(&c); !ok {
				break
			}
		}
	case 5:
		d.Close()
		d = openDict(file)
	}
	after := d.Stats()
	nd.Assert(before.NumberOfHashItems == after.NumberOfHashItems && before.NumberOfHashSlots == after.NumberOfHashSlots &&
		before.NumberOfHashSlotDirs == after.NumberOfHashSlotDirs && before.PayloadSize == after.PayloadSize, "C18:an operation that does nothing leaves the stats as they were")
	d.Close()
	im := readDict(file)
	sameRecs(im.recs, recs, "C18:an operation that does nothing leaves the items as they were")
	im.checkSpacesAs(file, "C18:an operation that does nothing allocates nothing")
	im.close()
}

// dictLong: lengths around every boundary of the slot encoding.
func dictLong() {
	kl := []int{0, 1, 24, 25, 126, 127, 128, 129, 300}
	vl := []int{0, 1, 127, 128, 300, 70}
	if nd.Tier() > 0 {
		kl = append(kl, 16383, 16384)
		vl = append(vl, 16383, 16384)
	}
	mk := func(name string, n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i * 7)
		}
		if n > 0 {
			b[n-1] = nd.Byte(name)
		}
		if n > 30 && name[0] == 'v' {
			b[n/2] = nd.Byte(name + "-mid")
		}
		return b
	}
	k1 := mk("k1", kl[nd.Choice("klen", len(kl))])
	v1 := mk("v1", vl[nd.Choice("vlen", len(vl))])
	file := nd.TempFile("d")
	strict()
	d := openDict(file)
	var recs []rec
	set := func(k, v []byte) {
		i, ok := findItem(recs, k)
		old := d.Set(k, v, true)
		nd.Assert(!ok && old == nil || ok && bytes.Equal(old, recs[i].v), "C17:Set returns the whole replaced value")
		recs = setItem(recs, i, ok, k, v)
	}
	// the item is first, in the middle and last in its slot
	set([]byte("x"), []byte("1"))
	set(k1, v1)
	set([]byte("y"), nil)
	v2 := mk("v2", vl[nd.Choice("vlen2", len(vl))])
	set(k1, v2)
	for _, r := range recs {
		v, ok := d.Test(r.k, true)
		nd.Assert(ok && bytes.Equal(v, r.v), "C17:a value of any length is read back whole")
	}
	dictFinish(d, file, recs, false)
	d = openDict(file)
	old, ok := d.Clear(k1, true)
	nd.Assert(ok && bytes.Equal(old, v2), "C17:Clear returns the whole value")
	d.Close()
}

// dictHuge: lengths of three bytes and more, first and last in the slot.
func dictHuge() {
	lens := []int{16383, 16384, 65535, 65536, 70000, 1<<21 - 1, 1 << 21}
	n := lens[nd.Choice("len", len(lens))]
	part := nd.Choice("part", 2)
	nd.Assume(part == 1 || n < 1<<20) // hashing longer keys takes too many steps
	big := pattern(n)
	big[n-1] = nd.Byte("last")
	small := symVal("small", 2)
	k1, v1 := big, small
	if part == 1 {
		big[0], big[n/2] = nd.Byte("first"), nd.Byte("mid")
		k1, v1 = []byte("k"), big
	}
	file := nd.TempFile("d")
	strict()
	d := openDict(file)
	var recs []rec
	last := nd.Choice("last", 2) == 1
	if last {
		recs = dictOp(d, recs, 0, []byte("x"), small, true)
	}
	recs = dictOp(d, recs, 0, k1, v1, true)
	if !last {
		recs = dictOp(d, recs, 0, []byte("x"), small, true)
	}
	v, ok := d.Test(k1, true)
	nd.Assert(ok && bytes.Equal(v, v1), "C17:a value of any length is read back whole")
	v, ok = d.Test([]byte("x"), true)
	nd.Assert(ok && bytes.Equal(v, small), "C17:an item next to a long one is left alone")
	dictStats(d, recs)
	dictFinish(d, file, recs, false)
	d = openDict(file)
	strict()
	dictStats(d, recs)
	recs = dictOp(d, recs, 4, []byte("x"), nil, true)
	if nd.Choice("then", 2) == 1 {
		recs = dictOp(d, recs, 1, k1, nil, true)
	} else {
		recs = dictOp(d, recs, 0, k1, small, true)
	}
	dictFinish(d, file, recs, false)
}

// dictBuffers: the dictionary keeps no reference to the caller's buffers and
// hands out none of its own.
func dictBuffers() {
	slots := []int{1, 2, 3}[nd.Choice("slots", 3)]
	recs := someItems(itemCount(slots, nd.Choice("items", 2)))
	dd := newDict(slots, 1, minDirShift, recs)
	file := nd.TempFile("d")
	dd.build(file)
	d := openDict(file)
	op := nd.Choice("op", 5)
	kb := make([]byte, 40)
	n := copy(kb, symDictKey([]int{1, 3, 4}[nd.Choice("key-kind", 3)]))
	key := kb[:n]
	vb := make([]byte, 16)
	vb[0], vb[1], vb[2], vb[5] = nd.Byte("val"), 1, 2, 9
	vn := 3
	i, ok := findItem(recs, key)
	if ok && (op == 0 || op > 2) && nd.Choice("same", 2) == 1 { // the value which the key has
		vn = len(recs[i].v)
		vb = append(append([]byte{}, recs[i].v...), 9, 9, 9)
	}
	val := vb[:vn]
	k0, v0 := append([]byte{}, kb...), append([]byte{}, vb...)
	want := recs
	var out []byte
	switch op {
	case 0:
		out = d.Set(key, val, true)
		want = setItem(recs, i, ok, k0[:n], v0[:vn])
	case 1:
		out, _ = d.Clear(key, true)
		if ok {
			want = clearItem(recs, i)
		}
	case 2:
		out, _ = d.Test(key, true)
	case 3:
		out, _ = d.SetIfNotExists(key, val, true)
		if !ok {
			want = setItem(recs, i, false, k0[:n], v0[:vn])
		}
	case 4:
		out, _ = d.SetIfExists(key, val, true)
		if ok {
			want = setItem(recs, i, true, k0[:n], v0[:vn])
		}
	}
	out0 := append([]byte{}, out...)
	nd.Assert(bytes.Equal(kb, k0) && bytes.Equal(vb, v0), "C10:operations do not write to the caller's key and value")
	junk := nd.Byte("junk")
	fill := func(b []byte) {
		b = b[:cap(b)] // what is returned belongs to the caller, up to its capacity
		for j := range b {
			b[j] = junk
		}
	}
	fill(kb)
	fill(vb)
	nd.Assert(bytes.Equal(out, out0), "C10:later writes to the key and value given do not reach the result")
	fill(out)
	var cur plainkv.DictCursor
	for n := 0; n <= len(want); n++ {
		sk, sv, ok := d.Scan(&cur)
		if !ok {
			nd.Assert(n == len(want), "C10:later writes to buffers do not reach the scan")
			break
		}
		sv0 := append([]byte{}, sv...)
		fill(sk)
		nd.Assert(bytes.Equal(sv, sv0), "C10:a returned key and value do not overlap")
		fill(sv)
		in := false
		for _, r := range want {
			in = in || bytes.Equal(sv0, r.v)
		}
		nd.Assert(in, "C10:later writes to buffers do not reach the scan")
	}
	for _, r := range want {
		v, ok := d.Test(r.k, true)
		nd.Assert(ok && bytes.Equal(v, r.v), "C10:later writes to buffers do not reach the dictionary")
	}
	d.Close()
	im := readDict(file)
	sameRecs(im.recs, want, "C10:later writes to buffers do not reach the file")
	im.close()
}

func (im *dictImage) checkSpacesAs(file, label string) {
	live, ok := nd.LiveSpaces(file)
	if !ok {
		return
	}
	nd.Assert(len(live) == len(im.spaces), label)
}

func init() {
	add(
		Entry{"DictScan", "C12", "complete scans of tables of 1-8 slots at minimum, middle and maximum load built by Set, one arbitrary 2-byte key and arbitrary values, with and without reopening and interleaved reads", true, 3, dictScan},
		Entry{"DictScanTwo", "C12", "two scans interleaved in every order over tables of 1/3/4 slots", true, 1, dictScanTwo},
		Entry{"DictSeq", dictAll + " C12", "every history of 3 (thorough: 4) operations out of Set, Clear, SetIfExists, SetIfNotExists, Test and reopen from an empty file, arbitrary 1-byte keys and the empty key, values of 0/1 arbitrary bytes", true, 3, dictSeq},
		Entry{"DictQuiet", "C18", "failing SetIfExists/SetIfNotExists/Clear, Test, full scans and close/reopen with an arbitrary key of 4 kinds on tables of 1/2/5 slots", true, 3, dictQuiet},
		Entry{"DictLong", "C17 C09 C14 C16", "two successive values of lengths 0/1/70/127/128/300 under keys of lengths 0/1/24/25/126..129/300 (thorough: 16383/16384 too), arbitrary last and middle bytes, between two other items", true, 2, dictLong},
		Entry{"DictHuge", "C17 C09 C14 C15 C16", "a key of 16383/16384/65535/65536/70000 bytes or a value of these lengths or of 2^21-1/2^21 bytes with arbitrary last (values: also first and middle) bytes, before or after another item; reopened, then cleared or replaced", true, 2, dictHuge},
		Entry{"DictBuffers", "C10", "each point operation with an arbitrary key of 3 kinds and arbitrary value byte on tables of 1-3 slots, then every buffer given or received overwritten with an arbitrary byte", true, 3, dictBuffers},
	)
}
