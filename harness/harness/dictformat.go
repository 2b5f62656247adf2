package harness

import (
	"bytes"
	"encoding/binary"

	"github.com/roy2220/fsm"
	"zzverif/nd"
)

// The on-disk format of a dictionary, written down independently of the code
// under test: a protobuf info record, an array of slot directory addresses,
// directories of 4096 slot addresses, and one protobuf message per used slot.
const (
	dirShift    = 12
	dirLen      = 1 << dirShift
	minDirShift = 3
	shortKey    = 24
)

func fnv1a(k []byte) uint64 {
	h := uint64(0xcbf29ce484222325)
	for _, x := range k {
		h = (h ^ uint64(x)) * 0x100000001b3
	}
	return h
}

func log2(n int) int {
	s := 0
	for n > 1 {
		n >>= 1
		s++
	}
	return s
}

func slotOf(sum uint64, slots int) int {
	min := 1 << log2(slots)
	i := int(sum & uint64(2*min-1))
	if i >= slots {
		i -= min
	}
	return i
}

// dict is a dictionary to build.
type dict struct {
	slots, dirs, maxShift int
	recs                  []rec
	bySlot                map[int][]rec
}

func newDict(slots, dirs, maxShift int, recs []rec) *dict {
	d := &dict{slots: slots, dirs: dirs, maxShift: maxShift, recs: recs, bySlot: map[int][]rec{}}
	for _, r := range recs {
		i := slotOf(fnv1a(r.k), slots)
		d.bySlot[i] = append(d.bySlot[i], r)
	}
	return d
}

func pbInt(b []byte, field int, v int) []byte {
	if v == 0 {
		return b
	}
	return append(append(b, byte(field<<3)), uvarint(v)...)
}

func encodeSlot(items []rec) []byte {
	var m, bin []byte
	for i, r := range items {
		var e []byte
		if len(r.k) > shortKey {
			e = append(e, 1<<3|1)
			s := fnv1a(r.k)
			for j := 0; j < 8; j++ {
				e = append(e, byte(s>>(8*j)))
			}
		}
		e = pbInt(e, 2, len(r.k))
		if i < len(items)-1 {
			e = pbInt(e, 3, len(r.v))
		}
		m = append(append(append(m, 1<<3|2), uvarint(len(e))...), e...)
		bin = append(append(bin, r.k...), r.v...)
	}
	m = append(append(append(m, 2<<3|2), uvarint(len(bin))...), bin...)
	return append(uvarint(len(m)), m...)
}

func (d *dict) build(file string) {
	nd.Strict(false)
	var fs fsm.FileStorage
	fs.Init()
	if err := fs.Open(file, true); err != nil {
		panic(err)
	}
	arr, buf := fs.AllocateSpace(8 << d.maxShift)
	raw := make([]byte, 8<<d.maxShift)
	dirs := make([]int64, d.dirs)
	for i := range dirs {
		dirs[i], _ = fs.AllocateSpace(8 * dirLen)
		binary.BigEndian.PutUint64(raw[8*i:], uint64(dirs[i]))
	}
	copy(fs.AccessSpace(arr), raw)
	_ = buf
	for i := range dirs {
		n := d.slots - i*dirLen
		if n > dirLen {
			n = dirLen
		}
		if n <= 0 {
			continue // an empty directory is kept to avoid thrashing
		}
		db := make([]byte, 8*n)
		for j := range db {
			db[j] = 0xff
		}
		for s := 0; s < n; s++ {
			if items := d.bySlot[i*dirLen+s]; items != nil {
				e := encodeSlot(items)
				a, b := fs.AllocateSpace(len(e))
				copy(b, e)
				binary.BigEndian.PutUint64(db[8*s:], uint64(a))
			}
		}
		copy(fs.AccessSpace(dirs[i]), db)
	}
	pay := 0
	for _, r := range d.recs {
		pay += len(r.k) + len(r.v)
	}
	var m []byte
	for f, v := range []int{int(arr), d.dirs, d.maxShift, d.slots, log2(d.slots), len(d.recs), pay} {
		m = pbInt(m, f+1, v)
	}
	m = append(uvarint(len(m)), m...)
	a, b := fs.AllocateSpace(len(m))
	copy(b, m)
	fs.SetPrimarySpace(a)
	if err := fs.Close(); err != nil {
		panic(err)
	}
}

// dictImage is a parsed dictionary file.
type dictImage struct {
	fs                           fsm.FileStorage
	spaces                       []int64
	slots, dirs, maxShift, shift int
	nItems, nPayload             int
	recs                         []rec
	payload                      int
}

// pbField reads one field: number, varint or fixed64 value, or bytes.
func pbField(b []byte) (field int, v uint64, data []byte, rest []byte, ok bool) {
	tag, i := binary.Uvarint(b)
	if i <= 0 {
		return 0, 0, nil, nil, false
	}
	b = b[i:]
	switch tag & 7 {
	case 0:
		x, j := binary.Uvarint(b)
		if j <= 0 {
			return 0, 0, nil, nil, false
		}
		return int(tag >> 3), x, nil, b[j:], true
	case 1:
		if len(b) < 8 {
			return 0, 0, nil, nil, false
		}
		return int(tag >> 3), binary.LittleEndian.Uint64(b), nil, b[8:], true
	case 2:
		n, j := binary.Uvarint(b)
		if j <= 0 || uint64(len(b)-j) < n {
			return 0, 0, nil, nil, false
		}
		return int(tag >> 3), 0, b[j : j+int(n)], b[j+int(n):], true
	}
	return 0, 0, nil, nil, false
}

func sized(b []byte) ([]byte, bool) {
	n, i := binary.Uvarint(b)
	if i <= 0 || uint64(len(b)-i) < n {
		return nil, false
	}
	return b[i : i+int(n)], true
}

// readDict parses and validates a closed dictionary file.
func readDict(file string) *dictImage {
	nd.Strict(false)
	im := &dictImage{}
	im.fs.Init()
	if err := im.fs.Open(file, false); err != nil {
		nd.Assert(false, "C14:file reopens")
		return nil
	}
	info := im.fs.PrimarySpace()
	nd.Assert(info >= 0, "C14:closed file records its primary space")
	im.spaces = append(im.spaces, info)
	b, ok := sized(im.fs.AccessSpace(info))
	nd.Assert(ok, "C14:info record is complete")
	var f [8]int
	for len(b) > 0 {
		n, v, _, rest, ok := pbField(b)
		nd.Assert(ok && n >= 1 && n <= 7, "C14:info record is well formed")
		f[n] = int(v)
		b = rest
	}
	im.dirs, im.maxShift, im.slots, im.shift, im.nItems, im.nPayload = f[2], f[3], f[4], f[5], f[6], f[7]
	nd.Assert(im.slots >= 1 && im.shift == log2(im.slots), "C13:slot count and its power of two agree")
	nd.Assert(im.maxShift >= minDirShift && im.dirs >= 1 && im.dirs <= 1<<im.maxShift, "C13:directory array has room for the directories")
	nd.Assert(im.slots <= im.dirs<<dirShift && (im.dirs == 1 || im.slots > (im.dirs-2)<<dirShift+1), "C13:number of directories follows the number of slots")
	nd.Assert(im.maxShift == minDirShift || im.dirs > 1<<(im.maxShift-2), "C13:directory array follows the number of directories")
	arr := im.fs.AccessSpace(int64(f[1]))
	im.spaces = append(im.spaces, int64(f[1]))
	nd.Assert(len(arr) >= 8<<im.maxShift, "C13:directory array is allocated")
	for i := 0; i < im.dirs; i++ {
		da := be64(arr[8*i:])
		im.spaces = append(im.spaces, da)
		db := im.fs.AccessSpace(da)
		nd.Assert(len(db) >= 8*dirLen, "C13:directory is allocated")
		for s := 0; s < dirLen && i*dirLen+s < im.slots; s++ {
			a := be64(db[8*s:])
			if a == -1 {
				continue
			}
			im.spaces = append(im.spaces, a)
			im.slot(i*dirLen+s, im.fs.AccessSpace(a))
		}
	}
	nd.Assert(im.nItems == len(im.recs), "C16:number of items")
	nd.Assert(im.nPayload == im.payload, "C16:payload size")
	return im
}

func (im *dictImage) slot(index int, b []byte) {
	b, ok := sized(b)
	nd.Assert(ok, "C14:slot is complete")
	var sums []uint64
	var ks, vs []int
	var bin []byte
	for len(b) > 0 {
		n, _, data, rest, ok := pbField(b)
		nd.Assert(ok && (n == 1 || n == 2), "C14:slot is well formed")
		if n == 2 {
			bin = data
		} else {
			var sum uint64
			var k, v int
			for len(data) > 0 {
				n, x, _, rest, ok := pbField(data)
				nd.Assert(ok && n >= 1 && n <= 3, "C14:item is well formed")
				switch n {
				case 1:
					sum = x
				case 2:
					k = int(x)
				case 3:
					v = int(x)
				}
				data = rest
			}
			sums, ks, vs = append(sums, sum), append(ks, k), append(vs, v)
		}
		b = rest
	}
	nd.Assert(len(ks) > 0, "C15:an empty slot has no space")
	for i := range ks {
		if i == len(ks)-1 {
			nd.Assert(len(bin) >= ks[i], "C14:item data is complete")
			vs[i] = len(bin) - ks[i]
		}
		nd.Assert(len(bin) >= ks[i]+vs[i], "C14:item data is complete")
		k, v := bin[:ks[i]], bin[ks[i]:ks[i]+vs[i]]
		bin = bin[ks[i]+vs[i]:]
		im.recs = append(im.recs, rec{k, v})
		im.payload += len(k) + len(v)
		nd.Assert(len(k) <= shortKey || sums[i] == fnv1a(k), "C14:long keys carry their checksum")
		nd.Assert(slotOf(fnv1a(k), im.slots) == index, "C13:an item lies in the slot of its hash")
	}
}

func (im *dictImage) close() {
	im.fs.Close()
	strict()
}

func (im *dictImage) checkSpaces(file string) {
	live, ok := nd.LiveSpaces(file)
	if !ok {
		return
	}
	set := make(map[int64]bool, len(im.spaces))
	for _, s := range im.spaces {
		nd.Assert(!set[s], "C15:a space is referenced once")
		set[s] = true
	}
	for _, s := range live {
		nd.Assert(set[s], "C15:no allocated space is unreachable")
	}
	nd.Assert(len(set) == len(live), "C15:every referenced space is allocated")
}

// sameRecs asserts that got is a permutation of want.
func sameRecs(got, want []rec, label string) {
	nd.Assert(len(got) == len(want), label+" (count)")
	used := make([]bool, len(want))
	for _, g := range got {
		found := false
		for i, w := range want {
			if !used[i] && bytes.Equal(g.k, w.k) {
				used[i] = true
				found = true
				nd.Assert(bytes.Equal(g.v, w.v), label+" (value)")
				break
			}
		}
		nd.Assert(found, label+" (key)")
	}
}

// sameBig is sameRecs for many records whose keys are concrete.
func sameBig(got, want []rec, label string) {
	nd.Assert(len(got) == len(want), label+" (count)")
	at := make(map[string]int, len(want))
	for i, w := range want {
		at[string(w.k)] = i + 1
	}
	for _, g := range got {
		i := at[string(g.k)]
		nd.Assert(i > 0, label+" (key)")
		nd.Assert(bytes.Equal(g.v, want[i-1].v), label+" (value)")
		at[string(g.k)] = 0
	}
}
