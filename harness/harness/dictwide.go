package harness

import (
	"bytes"

	"github.com/roy2220/plainkv"
	"zzverif/nd"
)

// dictCrowd: slots that hold dozens or hundreds of items.
func dictCrowd() {
	crowd := []int{9, 17, 33, 65, 130, 260}[nd.Choice("crowd", 6)]
	slots := 1
	for overLoad(crowd, slots) {
		slots *= 2
	}
	c := 1
	var recs []rec
	last := nd.Choice("last slot", 2) == 1
	slot := 0
	if last {
		slot = slots - 1
	}
	for len(recs) < crowd {
		l := 3
		if len(recs)%16 == 5 {
			l = 25
		}
		k := keyOf(c, l)
		c++
		if int(fnv1a(k))&(slots-1) == slot {
			recs = append(recs, rec{k, valOf(c, len(recs)%3)})
		}
	}
	for underLoad(len(recs), slots) || underLoad(len(recs)-1, slots) {
		recs = append(recs, rec{keyOf(c, 4), valOf(c, 1)})
		c++
	}
	dd := newDict(slots, 1, minDirShift, recs)
	file := nd.TempFile("d")
	dd.build(file)
	strict()
	d := openDict(file)
	op := nd.Choice("op", 4)
	var key, val []byte
	switch nd.Choice("key", 4) {
	case 0:
		key = append([]byte{}, recs[0].k...)
	case 1:
		key = append([]byte{}, recs[crowd/2].k...)
	case 2:
		key = append([]byte{}, recs[crowd-1].k...)
	case 3:
		for { // a new key in the same slot
			key = keyOf(c, 4)
			c++
			if int(fnv1a(key))&(slots-1) == slot {
				break
			}
		}
	}
	if op != 1 {
		val = symVal("val", 3)
	}
	want := dictOp(d, recs, op, key, val, nd.Bool("ret"))
	for _, j := range []int{0, crowd / 2, crowd - 2, len(want) - 1} {
		v, ok := d.Test(want[j].k, true)
		l := prop("every item of a crowded slot is found with its value", "C11", "C17")
		nd.Assert(ok && bytes.Equal(v, want[j].v), l)
	}
	if nd.Active("C12") {
		bigScan(d, want)
	}
	dictFinish(d, file, want, true)
}

// bigScan scans a dictionary of items with concrete keys.
func bigScan(d *plainkv.Dict, want []rec) {
	var got []rec
	var cur plainkv.DictCursor
	for {
		k, v, ok := d.Scan(&cur)
		if !ok {
			break
		}
		if len(got) == len(want) {
			nd.Assert(false, "C12:a scan yields no more pairs than there are")
			return
		}
		got = append(got, rec{k, v})
	}
	_, _, ok := d.Scan(&cur)
	nd.Assert(!ok, "C12:a finished scan stays finished")
	sameBig(got, want, "C12:a scan yields every pair once")
}

// dictScanBig: scans of tables of hundreds to tens of thousands of slots.
func dictScanBig() {
	shapes := [][3]int{{130, 1, 3}, {260, 1, 3}, {4096, 1, 3}, {4098, 2, 3}, {8300, 3, 3}, {32900, 9, 4}, {65600, 17, 5}}
	if nd.Tier() > 0 {
		shapes = append(shapes, [][3]int{{16500, 5, 4}, {131100, 33, 6}}...)
	}
	s := shapes[nd.Choice("shape", len(shapes))]
	recs := make([]rec, itemCount(s[0], 0))
	for i := range recs {
		recs[i] = rec{keyOf(i, 3), nil}
	}
	recs[len(recs)/2].v = symVal("val", 2)
	dd := newDict(s[0], s[1], s[2], recs)
	file := nd.TempFile("d")
	dd.build(file)
	strict()
	d := openDict(file)
	bigScan(d, recs)
	d.Close()
}

func init() {
	add(
		Entry{"DictCrowd", dictAll + " C12 C17", "one of Set, Clear, SetIfExists, SetIfNotExists of the first, middle or last of 9/17/33/65/130/260 items that share the first or last slot, or of a new key in it, arbitrary value bytes and return flag", true, 3, dictCrowd},
		Entry{"DictScanBig", "C12 C09", "scans of tables of 130/260/4096/4098/8300/32900/65600 (thorough: also 16500/131100) slots at the minimum load; keys concrete", true, 1, dictScanBig},
	)
}
