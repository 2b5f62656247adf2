package harness

import (
	"bytes"

	"github.com/roy2220/plainkv"
	"zzverif/nd"
)

// walkRange checks the first records (at most limit) of a range whose records
// are recs, and its end if it is reached.
func walkRange(it plainkv.OrderedDictIterator, recs []rec, desc bool, limit int, prop string) {
	for i := 0; i < len(recs); i++ {
		if i == limit {
			return
		}
		r := recs[i]
		if desc {
			r = recs[len(recs)-1-i]
		}
		if it.IsAtEnd() {
			nd.Assert(false, prop+":the iteration reaches every record of the range")
			return
		}
		k, v, err := it.ReadRecordAll()
		nd.Assert(err == nil && bytes.Equal(k, r.k) && bytes.Equal(v, r.v), prop+":the iteration yields the records of the range in order")
		it = it.Advance()
	}
	nd.Assert(it.IsAtEnd(), prop+":the iteration ends after the last record of the range")
}

// rangesAround checks ranges in both directions: from the ends, around record
// number i, and outside of all records. It assumes ascending recs.
func rangesAround(od *plainkv.OrderedDict, recs []rec, i, limit int, prop string) {
	both := func(min, max []byte, want []rec, limit int) {
		walkRange(od.RangeAsc(min, max), want, false, limit, prop)
		walkRange(od.RangeDesc(min, max), want, true, limit, prop)
	}
	n := len(recs)
	both(plainkv.MinKey, plainkv.MaxKey, recs, limit)
	if n == 0 {
		both([]byte{}, []byte("x"), nil, 1)
		return
	}
	// a key greater than every other one: the largest with one more byte
	beyond := append(append([]byte{}, recs[n-1].k...), 0)
	both(beyond, append(append([]byte{}, beyond...), 0), nil, 1)
	both(beyond, plainkv.MaxKey, nil, 1)
	both(plainkv.MinKey, beyond, recs, 2)
	if len(recs[0].k) > 0 {
		both([]byte{}, recs[0].k[:len(recs[0].k)-1], nil, 1)
		both(plainkv.MinKey, []byte{}, nil, 1)
		both([]byte{}, recs[0].k, recs[:1], 2)
	}
	both(plainkv.MaxKey, plainkv.MinKey, recs[n-1:][:1*b2i(n == 1)], 2)
	if i >= n {
		i = n - 1
	}
	a, b := i-3, i+3
	if a < 0 {
		a = 0
	}
	if b > n {
		b = n
	}
	both(recs[a].k, recs[b-1].k, recs[a:b], 9)
	both(recs[i].k, plainkv.MaxKey, recs[i:], 4)
	both(plainkv.MinKey, recs[i].k, recs[:i+1], 4)
	both(recs[i].k, recs[i].k, recs[i:i+1], 2)
	if i > 0 {
		both(recs[i].k, recs[i-1].k, nil, 1)
		both(recs[i-1].k, recs[i].k, recs[i-1:i+1], 3)
		// bounds between the records
		gap := append(append([]byte{}, recs[i-1].k...), 0)
		if bytes.Compare(gap, recs[i].k) < 0 {
			both(gap, recs[b-1].k, recs[i:b], 9)
			both(recs[a].k, gap, recs[a:i], 9)
			both(gap, gap, nil, 1)
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// testsAround: keys near record i and at the ends of the original leaves are found.
func testsAround(od *plainkv.OrderedDict, t *tree, want []rec, i int, prop string) {
	check := func(r rec) {
		v, ok := od.Test(r.k, true)
		nd.Assert(ok && bytes.Equal(v, r.v), prop+":every other key is found with its value")
	}
	for j := i - 3; j <= i+3; j++ {
		if j >= 0 && j < len(want) {
			check(want[j])
		}
	}
	if t == nil {
		return
	}
	for _, l := range t.leaves {
		for _, j := range []int{0, len(l.recs) / 2, len(l.recs) - 1} {
			if j < 0 || j >= len(l.recs) {
				continue
			}
			if k, ok := find(want, l.recs[j].k); ok {
				check(want[k])
			}
		}
	}
}

// odReopened: a reopened dictionary has the same records and statistics.
func odReopened(file string, t *tree, before plainkv.OrderedDictStats, want []rec, i int) {
	od := openOD(file)
	st := od.Stats()
	nd.Assert(st.NumberOfBPTreeLeafs == before.NumberOfBPTreeLeafs && st.NumberOfBPTreeNonLeafs == before.NumberOfBPTreeNonLeafs && st.NumberOfBPTreeRecords == before.NumberOfBPTreeRecords &&
		st.PayloadSize == before.PayloadSize && st.BPTreeHeight == before.BPTreeHeight, "C04:statistics are the same after reopening")
	nd.Assert(st.NumberOfBPTreeRecords == len(want), "C04:statistics are the same after reopening")
	rangesAround(od, want, i, 5, "C04")
	testsAround(od, t, want, i, "C04")
	if err := od.Close(); err != nil {
		nd.Assert(false, "C04:Close succeeds")
	}
	im := readImage(file, t)
	nd.Assert(len(im.recs) == len(want), "C04:the file holds every record")
	n := len(im.leaves)
	nd.Assert(im.head == im.leaves[0] && im.tail == im.leaves[n-1], "C04:the file records the ends of the leaf list")
	for j, p := range im.leafPg {
		nd.Assert(p.next == im.leaves[(j+1)%n] && p.prev == im.leaves[(j+n-1)%n], "C04:the leaf list links leaves in key order")
	}
	im.close()
}
