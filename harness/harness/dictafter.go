package harness

import (
	"bytes"

	"github.com/roy2220/plainkv"
	"github.com/roy2220/plainkv/hashmap"
	"zzverif/nd"

	"github.com/roy2220/fsm"
)

// fullScan reads everything from the zero cursor.
func fullScan(d *plainkv.Dict, want []rec, prop string) {
	var got []rec
	var cur plainkv.DictCursor
	for len(got) <= len(want) {
		k, v, ok := d.Scan(&cur)
		if !ok {
			_, _, ok = d.Scan(&cur)
			nd.Assert(!ok, prop+":a finished scan stays finished")
			break
		}
		got = append(got, rec{k, v})
	}
	sameRecs(got, want, prop+":a scan yields every pair once")
}

// dictAfter checks the dictionary after an operation.
func dictAfter(d *plainkv.Dict, file string, want []rec) {
	if nd.Active("C12") {
		fullScan(d, want, "C12")
	}
	before := d.Stats()
	dictFinish(d, file, want, false)
	if nd.Active("C14") || nd.Active("C12") {
		d = openDict(file)
		st := d.Stats()
		nd.Assert(st.NumberOfHashSlotDirs == before.NumberOfHashSlotDirs && st.NumberOfHashSlots == before.NumberOfHashSlots && st.NumberOfHashItems == before.NumberOfHashItems &&
			st.PayloadSize == before.PayloadSize, "C14:statistics are the same after reopening")
		for _, r := range want {
			v, ok := d.Test(r.k, true)
			nd.Assert(ok && bytes.Equal(v, r.v), "C14:every item is found after reopening")
		}
		if nd.Active("C12") {
			fullScan(d, want, "C12")
		}
		if err := d.Close(); err != nil {
			nd.Assert(false, "C14:Close succeeds")
		}
		im := readDict(file)
		if nd.Active("C14") {
			sameRecs(im.recs, want, "C14:the file holds the exact keys and values")
		}
		im.close()
	}
}

// keysFor finds n keys whose hashes agree with slot modulo slots (a power of
// two); every third one is long.
func keysFor(slot, slots, n int, from *int) [][]byte {
	var out [][]byte
	for len(out) < n {
		l := []int{3, 24, 25, 4, 40, 3}[len(out)%6]
		k := keyOf(*from, l)
		*from = *from + 1
		if int(fnv1a(k))&(slots-1) == slot {
			out = append(out, k)
		}
	}
	return out
}

// dictSkew: slots that hold many items are split and merged.
func dictSkew() {
	c := 1
	recs := []rec{}
	use := func(slot, slots, n int) {
		for i, k := range keysFor(slot, slots, n, &c) {
			recs = append(recs, rec{k, valOf(c, []int{2, 0, 30, 1, 130}[(i+slot)%5])})
		}
	}
	op := nd.Choice("op", 2)
	slots := 0
	if op == 1 {
		// 8 (16, 32) slots at the minimum load of 7 (13, 26) items: one removal merges slots 7 and 3 (15 and 7, 31 and 15)
		slots = pick("slots", []int{8, 16, 32}, []int{8, 16, 32, 64})
		all := itemCount(slots, 0)
		n1 := nd.Choice("in the removed slot", all)
		n2 := nd.Choice("in its buddy", all)
		nd.Assume(n1+n2 < all)
		use(slots-1, slots, n1)
		use(slots/2-1, slots, n2)
		use(0, slots, all-n1-n2)
	} else {
		// 6 (12) slots at the maximum load of 9 (19) items: one addition splits slot 2 into 2 and 6 (4 into 4 and 12)
		slots = []int{6, 12}[nd.Choice("slots", 2)]
		half := slots / 3 * 2
		low := slots &^ half
		all := itemCount(slots, 1)
		n1 := nd.Choice("staying", all/2+2)
		n2 := nd.Choice("moving", all/2+2)
		nd.Assume(n1+n2 <= all)
		if nd.Choice("order", 2) == 1 {
			use(slots, 2*half, n2)
			use(low, 2*half, n1)
		} else {
			use(low, 2*half, n1)
			use(slots, 2*half, n2)
		}
		use(1, half, all-n1-n2)
	}
	dd := newDict(slots, 1, minDirShift, recs)
	file := nd.TempFile("d")
	dd.build(file)
	strict()
	d := openDict(file)
	var key, val []byte
	if op == 1 {
		key = recs[len(recs)-1].k
	} else {
		key, val = keyOf(c, 3), symVal("val", 3)
		key[2] = nd.Byte("key")
		_, in := findItem(recs, key)
		nd.Assume(!in)
	}
	want := dictOp(d, recs, op, key, val, nd.Bool("ret"))
	for _, r := range want {
		v, ok := d.Test(r.k, true)
		nd.Assert(ok && bytes.Equal(v, r.v), "C11:every item is found with its value")
		nd.Assert(ok && bytes.Equal(v, r.v), "C13:every item is found after resizing")
	}
	dictAfter(d, file, want)
}

// dictInfoWide: every field of the info record survives Store and Load,
// whatever its size. The slots themselves are never touched, so only their
// number is made up.
func dictInfoWide() {
	w := []int{6, 7, 8, 13, 14, 15, 16, 20, 21, 27, 28, 30, 31, 32, 33, 35}[nd.Choice("width", 16)]
	sym := func(base int, name string) int { return base&^15 | int(nd.Byte(name)&15) }
	slots := sym(1<<w, "slots")
	dirs := (1<<w + 15 + dirLen - 1) >> dirShift
	if nd.Choice("spare", 2) == 1 {
		dirs++
	}
	shift := minDirShift
	for 1<<shift < dirs {
		shift++
	}
	items := sym(1<<w+1<<(w-2), "items")
	pay := sym([]int{1 << w, 1<<w*3 + 16, 1 << (w + 7)}[nd.Choice("payload", 3)], "payload")
	addr := sym(1<<(w+20), "address")
	file := nd.TempFile("d")
	var fs fsm.FileStorage
	fs.Init()
	fs.Open(file, true)
	var m []byte
	for f, v := range []int{addr, dirs, shift, slots, w, items, pay} {
		m = pbInt(m, f+1, v)
	}
	m = append(uvarint(len(m)), m...)
	info, buf := fs.AllocateSpace(len(m))
	copy(buf, m)
	hm := new(hashmap.HashMap).Init(&fs)
	hm.Load(info)
	same := func() {
		nd.Assert(hm.NumberOfSlots() == slots && hm.MinNumberOfSlots() == 1<<w, "C14:the number of slots survives reopening, however large")
		nd.Assert(hm.NumberOfSlotDirs() == dirs && hm.MaxNumberOfSlotDirs() == 1<<shift, "C14:the number of directories survives reopening, however large")
		nd.Assert(hm.NumberOfItems() == items && hm.PayloadSize() == pay, "C14:the counts survive reopening, however large")
	}
	same()
	for i := 0; i < 2; i++ {
		info = hm.Store()
		hm = new(hashmap.HashMap).Init(&fs)
		hm.Load(info)
		same()
	}
	// the address of the directory array too
	info = hm.Store()
	b, ok := sized(fs.AccessSpace(info))
	nd.Assert(ok, "C14:info record is complete")
	_, v, _, _, ok := pbField(b)
	nd.Assert(ok && v == uint64(addr), "C14:the address of the directory array survives reopening")
	fs.Close()
}

func init() {
	add(
		Entry{"DictSkew", dictAll + " C12 C17", "one Clear that merges slots of 0-25 items in all (8/16/32 slots), and one Set that splits a slot of 0-10 staying and 0-10 moving items (6/12 slots; short and long keys with found hashes, an arbitrary key byte and value)", true, 3, dictSkew},
		Entry{"DictInfoWide", "C14 C16", "the info record of tables of 2^6 to 2^35 slots, with numbers of slots and items, payload sizes and addresses arbitrary in their last four bits, stored and loaded twice", true, 3, dictInfoWide},
	)
}
