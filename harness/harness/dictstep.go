package harness

import (
	"bytes"

	"github.com/roy2220/plainkv"
	"zzverif/nd"
)

// Two keys of 37 bytes with the same 64-bit FNV-1a sum (tools/fnv_collision.py).
var (
	twinA = unhex("612d6c6f6e672d6b65792d7368617265642d7072656669782d535773716d72df1c7b4e15e6")
	twinB = unhex("612d6c6f6e672d6b65792d7368617265642d7072656669782d544241737f9ad864de4e22fb")
)

func unhex(s string) []byte {
	b := make([]byte, len(s)/2)
	for i := range b {
		for j := 0; j < 2; j++ {
			c := s[2*i+j]
			if c >= 'a' {
				c -= 'a' - '0' - 10
			}
			b[i] = b[i]<<4 | (c - '0')
		}
	}
	return b
}

func openDict(file string) *plainkv.Dict {
	d, err := plainkv.OpenDict(file, true)
	if err != nil {
		nd.Assert(false, "C14:opens")
	}
	return d
}

func findItem(recs []rec, key []byte) (int, bool) {
	for i, r := range recs {
		if bytes.Equal(r.k, key) {
			return i, true
		}
	}
	return 0, false
}

func setItem(recs []rec, i int, ok bool, k, v []byte) []rec {
	out := append([]rec{}, recs...)
	if ok {
		out[i] = rec{k, v}
		return out
	}
	return append(out, rec{k, v})
}

func clearItem(recs []rec, i int) []rec {
	out := append([]rec{}, recs[:i]...)
	return append(out, recs[i+1:]...)
}

// the golden ratio bounds of the load factor, compared exactly: x/y exceeds the
// golden ratio if x*x - x*y - y*y is positive.
func overLoad(items, slots int) bool { return items*(items-slots) > slots*slots }
func underLoad(items, slots int) bool {
	return slots >= 2 && 2*items*(2*items-slots) < slots*slots
}

func payloadOf(recs []rec) int {
	n := 0
	for _, r := range recs {
		n += len(r.k) + len(r.v)
	}
	return n
}

func dictStats(d *plainkv.Dict, want []rec) plainkv.DictStats {
	st := d.Stats()
	nd.Assert(st.NumberOfHashItems == len(want), "C16:Stats reports the number of items")
	nd.Assert(st.PayloadSize == payloadOf(want), "C16:Stats reports the payload size")
	nd.Assert(!overLoad(st.NumberOfHashItems, st.NumberOfHashSlots), "C13:the table grows with its items")
	nd.Assert(!underLoad(st.NumberOfHashItems, st.NumberOfHashSlots), "C13:the table shrinks with its items")
	return st
}

func dictFinish(d *plainkv.Dict, file string, want []rec, big bool) {
	st := dictStats(d, want)
	if err := d.Close(); err != nil {
		nd.Assert(false, "C14:Close succeeds")
	}
	im := readDict(file)
	nd.Assert(st.NumberOfHashSlots == im.slots, "C16:Stats reports the number of slots")
	nd.Assert(st.NumberOfHashSlotDirs == im.dirs, "C16:Stats reports the number of directories")
	same := sameRecs
	if big {
		same = sameBig
	}
	if nd.Active("C11") {
		same(im.recs, want, "C11:items have the expected keys and values")
	}
	if nd.Active("C13") {
		same(im.recs, want, "C13:resizing keeps every item")
	}
	if nd.Active("C14") {
		same(im.recs, want, "C14:the file holds the exact keys and values")
	}
	if nd.Active("C17") {
		same(im.recs, want, "C17:long keys and values are stored intact")
	}
	if nd.Active("C15") {
		im.checkSpaces(file)
	}
	im.close()
}

// dictOp applies one operation to d and to the expected items.
func dictOp(d *plainkv.Dict, recs []rec, op int, key, val []byte, ret bool) []rec {
	i, ok := findItem(recs, key)
	var cur []byte
	if ok {
		cur = recs[i].v
	}
	switch op {
	case 0:
		old := d.Set(key, val, ret)
		if ok {
			nd.Assert(eqOpt(old, cur, ret), "C11:Set returns the replaced value")
			nd.Reach("update")
		} else {
			nd.Assert(old == nil, "C11:Set of a new key returns nothing")
			nd.Reach("insert")
		}
		return setItem(recs, i, ok, key, val)
	case 1:
		old, ok2 := d.Clear(key, ret)
		nd.Assert(ok2 == ok, "C11:Clear reports presence")
		if !ok {
			nd.Assert(old == nil, "C11:Clear of an absent key returns nothing")
			return recs
		}
		nd.Reach("clear")
		nd.Assert(eqOpt(old, cur, ret), "C11:Clear returns the removed value")
		return clearItem(recs, i)
	case 2:
		old, ok2 := d.SetIfExists(key, val, ret)
		nd.Assert(ok2 == ok, "C11:SetIfExists reports presence")
		if !ok {
			nd.Assert(old == nil, "C11:SetIfExists of an absent key returns nothing")
			return recs
		}
		nd.Assert(eqOpt(old, cur, ret), "C11:SetIfExists returns the replaced value")
		return setItem(recs, i, ok, key, val)
	case 3:
		old, ok2 := d.SetIfNotExists(key, val, ret)
		nd.Assert(ok2 == !ok, "C11:SetIfNotExists reports absence")
		if ok {
			nd.Assert(eqOpt(old, cur, ret), "C11:SetIfNotExists returns the present value")
			return recs
		}
		nd.Assert(old == nil, "C11:SetIfNotExists of a new key returns nothing")
		return setItem(recs, i, ok, key, val)
	}
	old, ok2 := d.Test(key, ret)
	nd.Assert(ok2 == ok, "C11:Test reports presence")
	nd.Assert(!ok && old == nil || ok && eqOpt(old, cur, ret), "C11:Test returns the present value")
	return recs
}

// items for small dictionaries: assorted key and value lengths.
func someItems(n int) []rec {
	var recs []rec
	for i := 0; i < n; i++ {
		var k []byte
		switch i % 7 {
		case 0:
			k = []byte{byte(i), 'a'}
		case 1:
			k = []byte{byte(i)}
		case 2:
			k = keyOf(i, 24)
		case 3:
			k = keyOf(i, 25)
		case 4:
			if i == 4 {
				k = twinA
			} else {
				k = keyOf(i, 130)
			}
		case 5:
			if i == 5 {
				k = []byte{}
			} else {
				k = keyOf(i, 4)
			}
		case 6:
			k = []byte{'z', byte(i), 'b'}
		}
		recs = append(recs, rec{k, valOf(i, []int{3, 0, 130, 1, 7}[i%5])})
	}
	return recs
}

// symDictKey is an arbitrary key of one of several lengths.
func symDictKey(kind int) []byte {
	switch kind {
	case 0:
		return nd.Bytes("key", 1)
	case 1:
		return nd.Bytes("key", 2)
	case 2: // 24 and 25 bytes: the two ways of storing checksums
		return append(keyOf(2, 22), nd.Bytes("key", 2)...)
	case 3:
		return append(keyOf(3, 23), nd.Bytes("key", 2)...)
	case 4:
		if nd.Bool("twin") {
			return twinA
		}
		return twinB
	case 5:
		return []byte{}
	}
	return nd.Bytes("key", 3)
}

// count picks the number of items relative to the bounds for the slot count.
func itemCount(slots, at int) int {
	lo, hi := 0, 0
	for hi = slots; !overLoad(hi+1, slots); hi++ {
	}
	for lo = hi; lo > 0 && !underLoad(lo-1, slots); lo-- {
	}
	switch at {
	case 0:
		return lo
	case 1:
		return hi
	}
	return (lo + hi) / 2
}

func dictStep() {
	sizes := []int{1, 2, 3, 4, 5, 8}
	if nd.Tier() > 0 {
		sizes = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17}
	}
	slots := sizes[nd.Choice("slots", len(sizes))]
	at := nd.Choice("items", 3)
	kind := nd.Choice("key-kind", 7)
	dirs := 1
	if slots >= 2 {
		dirs = 1 + nd.Choice("spare directory", 2)
	}
	dd := newDict(slots, dirs, minDirShift, someItems(itemCount(slots, at)))
	file := nd.TempFile("d")
	dd.build(file)
	strict()
	d := openDict(file)
	op := nd.Choice("op", 5)
	key := symDictKey(kind)
	var val []byte
	if op != 1 && op != 4 {
		vl := []int{0, 4, 200}
		val = symVal("val", vl[nd.Choice("vlen", 3)])
	}
	want := dictOp(d, dd.recs, op, key, val, nd.Bool("ret"))
	for _, r := range want {
		v, ok := d.Test(r.k, true)
		nd.Assert(ok && bytes.Equal(v, r.v), "C11:every item is found with its value")
		nd.Assert(ok && bytes.Equal(v, r.v), "C13:every item is found after resizing")
	}
	v, ok := d.Test(key, true)
	i, in := findItem(want, key)
	nd.Assert(ok == in && (!ok || bytes.Equal(v, want[i].v)), "C11:Test agrees with the last operation on the key")
	dictAfter(d, file, want)
}

// dictBig: the table crosses a slot directory boundary.
func dictBig() {
	type shape struct{ slots, dirs, shift, at, op int }
	shapes := []shape{
		{4096, 1, 3, 1, 0},  // a second directory is added
		{4098, 3, 3, 0, 1},  // the third directory is removed
		{4097, 2, 3, 0, 1},  // the second one is kept
		{4096, 2, 3, 1, 0},  // the spare directory is used
		{12290, 5, 4, 0, 1}, // a directory is removed and the array shrinks
		{24578, 8, 3, 0, 1}, // one is removed, and the array has its minimum size
		{32768, 8, 3, 1, 0}, // a directory is added and the array grows
		{32768, 9, 4, 1, 0},
		{28674, 9, 4, 0, 1},
		{40962, 12, 4, 0, 1}, // the array is well filled
		{8362, 3, 3, 0, 1},   // one item above half the golden ratio by a few 2^-27
		{4181, 2, 3, 1, 0},   // Fibonacci numbers: one item below the golden ratio
		{10946, 3, 3, 1, 0},  // likewise above
		{6765, 2, 3, 1, 0},
		{28674, 9, 5, 0, 1},  // the array is larger than needed
		{65536, 16, 4, 1, 0}, // the array grows a second time
		{65600, 17, 5, 0, 1}, // more slots than 16 bits count
	}
	if nd.Tier() > 0 {
		shapes = append(shapes, shape{131072, 32, 5, 1, 0}, // and a third time
			shape{57346, 16, 4, 0, 1}, shape{16386, 6, 4, 0, 1})
	}
	s := shapes[nd.Choice("shape", len(shapes))]
	if s.slots > 20000 {
		nd.Steps(300)
	}
	count := itemCount(s.slots, s.at)
	recs := make([]rec, count)
	for i := range recs {
		recs[i] = rec{keyOf(i, 3), valOf(i, i&1)}
	}
	dd := newDict(s.slots, s.dirs, s.shift, recs)
	file := nd.TempFile("d")
	dd.build(file)
	strict()
	d := openDict(file)
	key := keyOf(count, 3)
	if s.op == 1 {
		key = recs[count/2].k
	}
	want := dictOp(d, recs, s.op, key, symVal("val", 2), nd.Bool("ret"))
	for i := 0; i < len(want); i += 1 + len(want)/1500 {
		v, ok := d.Test(want[i].k, true)
		nd.Assert(ok && bytes.Equal(v, want[i].v), "C11:every item is found with its value")
		nd.Assert(ok && bytes.Equal(v, want[i].v), "C13:every item is found after resizing")
	}
	for i := range want { // those in the last slots
		if slotOf(fnv1a(want[i].k), s.slots) > s.slots-40 {
			v, ok := d.Test(want[i].k, true)
			nd.Assert(ok && bytes.Equal(v, want[i].v), "C13:every item is found after resizing")
		}
	}
	dictFinish(d, file, want, true)
}

const dictAll = "C09 C11 C13 C14 C15 C16"

func init() {
	add(
		Entry{"DictStep", dictAll + " C12 C17", "one of the five operations with an arbitrary key of 7 kinds (1-3 bytes, 24/25 bytes, two 37-byte keys of equal hash, empty), values 0/4/200 bytes, on tables of 1-5 and 8 slots (thorough: up to 17) at minimum, middle and maximum load, with and without a spare directory", true, 4, dictStep},
		Entry{"DictBig", dictAll, "one Set or Clear that crosses a slot directory boundary: 4096-65536 slots (also where the load is closest to its bounds), the growth and shrinking of the directory array included, arbitrary value bytes and return flag; keys concrete", true, 1, dictBig},
	)
}
