B, L, N, K, V, I = ('bptree/%s.go' % x for x in ('bptree', 'leaf', 'nonleaf', 'key', 'value', 'iterator'))
LL = 'bptree/leaflist.go'

seed('od-stale-tail', 'C02', 'The last leaf is merged away, then a range lies wholly beyond the largest key',
 'RemoveLeaf no longer moves the tail when the last leaf is merged into its neighbour; a range beyond the largest key wraps around to the first leaf and yields every record up to its upper bound.',
 [(LL, '''	} else if leafAddr == ll.tailAddr {
		ll.tailAddr = leafPrevAddr
	}
''', '''	}
''')],
'''package main

import "fmt"

func main() {
	od := openOD("x")
	key := func(i int) []byte { return []byte(fmt.Sprintf("k%06d", i)) }
	for i := 0; i < 200; i++ {
		od.Set(key(i), rep('v', 100), false)
	}
	n := od.Stats().NumberOfBPTreeLeafs
	i := 199
	for ; od.Stats().NumberOfBPTreeLeafs >= n && i > 5; i-- {
		od.Clear(key(i), false)
	}
	if it := od.RangeAsc([]byte("x"), []byte("y")); !it.IsAtEnd() {
		fatal("a range beyond the largest key is not empty")
	}
	if it := od.RangeDesc([]byte("x"), []byte("y")); !it.IsAtEnd() {
		fatal("a range beyond the largest key is not empty")
	}
}
''', helpers=['lib'])

seed('od-sync-parent-only', 'C03', 'Height 3: the first record of a leaf which is the first child of a non-first inner node is removed',
 'After the smallest key of a subtree changed, only the immediate parent is looked at, so the separator in a higher node goes stale: it no longer equals the smallest key of its subtree.',
 [(B, '	for i := n - 2; i >= 0; i-- {\n		nonLeafChildIndex', '	for i := n - 2; i >= n-2; i-- {\n		nonLeafChildIndex')],
'''package bptree

import "testing"

func TestZZDemo(t *testing.T) {
	bpt, fs := newTree(t, "x")
	defer fs.Close()
	for i := 0; bpt.Height() < 3; i++ {
		bpt.AddRecord(num(i, 200), rep('v', 120), false)
	}
	wellFormed(t, bpt, "before")
	root := bpt.getNonLeafController(bpt.rootAddr)
	k := append([]byte(nil), root.GetKey(1)...)
	if _, ok := bpt.DeleteRecord(k, false); !ok {
		t.Fatal("not deleted")
	}
	wellFormed(t, bpt, "after")
}
''', kind='bptree', helpers=['pkglib_bptree'])

seed('od-sync-no-split', 'C03', 'Separators of an inner node grow, one by one, because the first records of its leaves are removed and the following keys are longer',
 'When the separator of a leaf is replaced by a longer one, the inner node is no longer split on overload, so its page fills beyond the bound and finally overflows.',
 [(B, '''			bpt.ensureNotUnderloadNonLeaf(recordPath, i)
			bpt.ensureNotOverloadNonLeaf(recordPath, i)
			return
		}
	}
}
''', '''			bpt.ensureNotUnderloadNonLeaf(recordPath, i)
			return
		}
	}
}
''')],
'''package bptree

import "testing"

// Many leaves under one root, each with a short first key followed by long ones.
func TestZZDemo(t *testing.T) {
	bpt, fs := newTree(t, "x")
	defer fs.Close()
	for i := 0; bpt.NumberOfLeafs() < 45; i++ {
		bpt.AddRecord(num(i, 8), rep('v', 128), false)
	}
	var firsts [][]byte
	root := bpt.getNonLeafController(bpt.rootAddr)
	for i := 0; i < root.NumberOfChildren(); i++ {
		lc := bpt.getLeafController(root.GetChildAddr(i))
		firsts = append(firsts, append([]byte(nil), lc.GetKey(0)...))
	}
	for i, f := range firsts {
		lc := bpt.getLeafController(bpt.getNonLeafController(bpt.rootAddr).GetChildAddr(i))
		var others [][]byte
		for j := 1; j < lc.NumberOfRecords(); j++ {
			others = append(others, append([]byte(nil), lc.GetKey(j)...))
		}
		for j := 0; j < 10; j++ {
			if j < len(others) {
				bpt.DeleteRecord(others[j], false)
			}
			if j+10 < len(others) {
				bpt.DeleteRecord(others[j+10], false)
			}
			k := rep('x', 256)
			copy(k, f)
			k[200] = byte(j)
			bpt.AddRecord(k, rep('v', 128), false)
		}
		for _, k := range others {
			bpt.DeleteRecord(k, false)
		}
	}
	wellFormed(t, bpt, "before")
	for _, f := range firsts {
		bpt.DeleteRecord(f, false)
		wellFormed(t, bpt, "after removing a first key")
	}
}
''', kind='bptree', helpers=['pkglib_bptree'])

seed('od-nonleaf-stale-parent', 'C09', 'Height 3: an inner node is split and the mapping moves when the new page is allocated',
 'The view of the parent of an inner node which is split is taken before the allocation of the new page and used after it.',
 [(B, '''	nonLeafController1 = bpt.getNonLeafController(nonLeafAddr)
	nonLeafParentController = bpt.getNonLeafController(nonLeafParentAddr)
	// <<< fix node controllers ned
''', '''	nonLeafController1 = bpt.getNonLeafController(nonLeafAddr)
	// <<< fix node controllers ned
''')],
'''package bptree

import (
	"fmt"
	"testing"
)

// Grows trees from different starting sizes, so that the file grows (and the mapping moves) at every
// kind of allocation, that of a new inner page among them.
func TestZZDemo(t *testing.T) {
	for skew := 0; skew < 120; skew++ {
		bpt, fs := newTree(t, fmt.Sprint("x", skew))
		for j := 0; j < skew; j++ {
			fs.AllocateAlignedSpace(8192)
		}
		if !func() (ok bool) {
			i := 0
			for ; bpt.NumberOfNonLeafs() < 6; i++ {
				bpt.AddRecord(num(i, 250), rep('v', 120), false)
			}
			wellFormed(t, bpt, fmt.Sprint("skew ", skew))
			return true
		}() {
			t.Fatal("broken")
		}
		fs.Close()
	}
}
''', kind='bptree', helpers=['pkglib_bptree'])

seed('od-payload-long', 'C07', 'A value of more than 128 bytes is replaced without asking for the old one',
 'The size of a replaced long value is taken to be the size of its part in the page, so the payload size drifts.',
 [(B, 'oldValueSize = valueFactory{bpt.fileStorage}.GetRawValueSize(value)', 'oldValueSize = len(value)')],
'''package main

func main() {
	od := openOD("x")
	od.Set([]byte("a"), rep('v', 300), false)
	od.Set([]byte("a"), rep('w', 5), false)
	if s := od.Stats(); s.PayloadSize != 6 {
		fatal("payload size %d", s.PayloadSize)
	}
}
''', helpers=['lib'])

seed('od-leak-key', 'C06', 'A key of more than 256 bytes is removed with the removed value asked for',
 'Removing a record with a long key and returning its value leaves the external part of the key allocated.',
 [(B, '''	keySize := keyFactory{bpt.fileStorage}.DestroyKey(record.Key)
	var value []byte

	if returnValue {
''', '''	keySize := keyFactory{bpt.fileStorage}.GetRawKeySize(record.Key)
	var value []byte

	if !returnValue {
		keyFactory{bpt.fileStorage}.DestroyKey(record.Key)
	}

	if returnValue {
''')],
'''package bptree

import "testing"

func TestZZDemo(t *testing.T) {
	bpt, fs := newTree(t, "x")
	defer fs.Close()
	bpt.AddRecord(rep('k', 5000), []byte("v"), false)
	bpt.DeleteRecord(rep('k', 5000), true)
	bpt.Destroy()
	if n := fs.Stats().AllocatedSpaceSize; n != 0 {
		t.Fatalf("%d bytes stay allocated", n)
	}
}
''', kind='bptree', helpers=['pkglib_bptree'])

seed('od-max-min-single', 'C02', 'A range from MaxKey to MinKey on a dictionary of exactly one record',
 'With a single record the smallest and the largest key coincide, but the range [MaxKey, MinKey] is taken to be inverted and yields nothing.',
 [(B, 'if f1 == f2 || bpt.recordCount == 1 {', 'if f1 == f2 {')],
'''package main

import "github.com/roy2220/plainkv"

func main() {
	od := openOD("x")
	od.Set([]byte("a"), []byte("v"), false)
	if od.RangeAsc(plainkv.MaxKey, plainkv.MinKey).IsAtEnd() {
		fatal("the only record is not in [MaxKey, MinKey]")
	}
	od.Set([]byte("b"), []byte("v"), false)
	if !od.RangeAsc(plainkv.MaxKey, plainkv.MinKey).IsAtEnd() {
		fatal("the inverted range is not empty")
	}
}
''', helpers=['lib'])

seed('od-partial-read', 'C05', 'A partial read of a long value at one to seven bytes past its end',
 'ReadValue compares the offset with a size which counts the address of the external part, so reading just past the end of a long value panics instead of returning nothing.',
 [(V, 'if dataOffset >= valuePrefixSize+len(valueOverflow) {', 'if dataOffset >= len(value)+len(valueOverflow) {')],
'''package main

import (
	"bytes"

	"github.com/roy2220/plainkv"
)

func main() {
	od := openOD("x")
	od.Set([]byte("a"), rep('v', 300), false)
	it := od.RangeAsc(plainkv.MinKey, plainkv.MaxKey)
	for off := 0; off < 310; off++ {
		for n := 0; n < 40; n++ {
			b := make([]byte, n)
			m, err := it.ReadValue(off, b)
			if err != nil || !bytes.Equal(b[:m], rep('v', m)) || off < 300 && (m > 300-off || m < n && m != 300-off) || off >= 300 && m != 0 {
				fatal("ReadValue at %d of %d bytes: %d %q", off, n, m, b[:m])
			}
		}
	}
}
''', helpers=['lib'])

seed('od-compare-prefix', 'C05', 'A key of more than 256 bytes and one of 250 to 256 bytes with the same first 249 bytes',
 'A long key in the page is compared with a key of 250 to 256 bytes by the bytes of the stored address instead of by those of the external part.',
 [(K, 'if len(key) < maxKeySize || len(rawKey) <= keyPrefixSize {', 'if len(key) < maxKeySize || len(rawKey) < maxKeySize {')],
'''package main

func main() {
	od := openOD("x")
	m := map[string]string{}
	for _, b := range []byte{'a', 0, 0xff} {
		for _, n := range []int{245, 249, 250, 251, 253, 256, 257, 258, 300} {
			k := append(rep('p', 249), rep(b, 60)...)[:n]
			od.Set(k, []byte{b, byte(n)}, false)
			m[string(k)] = string([]byte{b, byte(n)})
			checkOD(od, m, "set")
		}
	}
}
''', helpers=['lib'])

seed('od-swap-head-tail', 'C04', 'At least two leaves, close and reopen, then a range beyond the largest key',
 'The head of the leaf list is stored for the tail, so after reopening a range beyond the largest key wraps around.',
 [(B, 'LeafListTailAddr: bpt.leafList.TailAddr(),', 'LeafListTailAddr: bpt.leafList.HeadAddr(),')],
'''package main

import "fmt"

func main() {
	od := openOD("x")
	for i := 0; i < 200; i++ {
		od.Set([]byte(fmt.Sprintf("k%06d", i)), rep('v', 100), false)
	}
	if !od.RangeAsc([]byte("x"), []byte("y")).IsAtEnd() {
		fatal("before closing")
	}
	od.Close()
	od = openOD("x")
	if !od.RangeAsc([]byte("x"), []byte("y")).IsAtEnd() {
		fatal("after reopening a range beyond the largest key is not empty")
	}
}
''', helpers=['lib'])

seed('od-count-root', 'C07', 'The tree shrinks in height',
 'The removed root is not subtracted from the number of inner pages.',
 [(B, '''	bpt.destroyNonLeaf(bpt.rootAddr)
''', '''	nonLeafFactory{bpt.fileStorage}.DestroyNonLeaf(bpt.rootAddr)
''')],
'''package main

import "fmt"

func main() {
	od := openOD("x")
	for i := 0; i < 200; i++ {
		od.Set([]byte(fmt.Sprintf("k%06d", i)), rep('v', 100), false)
	}
	for i := 0; i < 200; i++ {
		od.Clear([]byte(fmt.Sprintf("k%06d", i)), false)
	}
	if s := od.Stats(); s.NumberOfBPTreeNonLeafs != 0 || s.BPTreeHeight != 1 || s.NumberOfBPTreeLeafs != 1 {
		fatal("stats %+v", s)
	}
}
''', helpers=['lib'])

seed('od-leak-129', 'C06', 'A value of exactly 129 bytes is replaced',
 'The external part of a replaced value of exactly 129 bytes, the shortest one that has an external part, stays allocated.',
 [(B, '''	valueFactory{bpt.fileStorage}.DestroyValue(value)
	value = valueFactory''', '''	if oldValueSize > maxValueSize {
		valueFactory{bpt.fileStorage}.DestroyValue(value)
	}

	value = valueFactory''')],
'''package bptree

import "testing"

func TestZZDemo(t *testing.T) {
	bpt, fs := newTree(t, "x")
	defer fs.Close()
	for n := 100; n < 200; n++ {
		bpt.AddOrUpdateRecord([]byte("k"), rep('v', n), false)
		bpt.UpdateRecord([]byte("k"), []byte("w"), false)
	}
	bpt.DeleteRecord([]byte("k"), false)
	bpt.Destroy()
	if n := fs.Stats().AllocatedSpaceSize; n != 0 {
		t.Fatalf("%d bytes stay allocated", n)
	}
}
''', kind='bptree', helpers=['pkglib_bptree'])

seed('od-refused-leak', 'C18', 'SetIfNotExists of a present key with a value of more than 128 bytes',
 'AddRecord prepares the value before it looks for the key, so a refused addition with a long value leaves space allocated.',
 [(B, '''	recordPath, ok := bpt.findRecord(key)

	if ok {
		return bpt.getValue(recordPath, returnPresentValue), false
	}

	bpt.insertRecord(recordPath, bpt.createRecord(key, value))
	return nil, true
}

// UpdateRecord''', '''	inlineValue := valueFactory{bpt.fileStorage}.CreateValue(value)
	recordPath, ok := bpt.findRecord(key)

	if ok {
		return bpt.getValue(recordPath, returnPresentValue), false
	}

	bpt.payloadSize += len(key) + len(value)
	bpt.insertRecord(recordPath, record{keyFactory{bpt.fileStorage}.CreateKey(key), inlineValue})
	return nil, true
}

// UpdateRecord''')],
'''package bptree

import "testing"

func TestZZDemo(t *testing.T) {
	bpt, fs := newTree(t, "x")
	defer fs.Close()
	bpt.AddRecord([]byte("k"), []byte("v"), false)
	bpt.AddRecord([]byte("k"), rep('w', 9000), false)
	bpt.DeleteRecord([]byte("k"), false)
	bpt.Destroy()
	if n := fs.Stats().AllocatedSpaceSize; n != 0 {
		t.Fatalf("%d bytes stay allocated", n)
	}
}
''', kind='bptree', helpers=['pkglib_bptree'])

seed('od-end-size', 'C08', 'GetValueSize on an iterator of a range which was empty from the start',
 'GetValueSize takes an iterator for ended only when it has been advanced to its end, so on a range that was empty from the start it reads a page that does not exist.',
 [(I, '''func (i *iterator) GetValueSize() (int, error) {
	if i.isAtEnd {''', '''func (i *iterator) GetValueSize() (int, error) {
	if i.isAtEnd && i.fileStorage == nil {''')],
'''package main

import "github.com/roy2220/plainkv"

func main() {
	od := openOD("x")
	od.Set([]byte("a"), []byte("v"), false)
	it := od.RangeAsc(plainkv.MinKey, plainkv.MaxKey)
	it.Advance()
	if _, err := it.GetValueSize(); err == nil {
		fatal("no error at the end")
	}
	defer func() {
		if e := recover(); e != nil {
			fatal("%v", e)
		}
	}()
	it = od.RangeAsc([]byte("b"), []byte("c"))
	if _, err := it.GetValueSize(); err == nil {
		fatal("no error on an empty range")
	}
}
''', helpers=['lib'])

seed('od-read-alias', 'C10', 'The caller writes to a short key returned by an iterator',
 'ReadKeyAll returns the bytes of the page itself for keys of up to 256 bytes: a caller who writes to the slice changes the stored key.',
 [(K, """	if len(key) < maxKeySize {
		return copyBytes(key)
	}
""", """	if len(key) < maxKeySize {
		return key
	}
""")],
"""package main

import "github.com/roy2220/plainkv"

func main() {
	od := openOD("x")
	od.Set([]byte("a"), []byte("value"), false)
	k, _ := od.RangeAsc(plainkv.MinKey, plainkv.MaxKey).ReadKeyAll()
	k[0] = 'X'
	if _, ok := od.Test([]byte("a"), true); !ok {
		fatal("the stored key is changed")
	}
}
""", helpers=['lib'])

seed('od-merge-path', 'C01', 'Height 3: an inner node is merged into its left neighbour in the middle of an insertion whose separator update made it underloaded',
 'After an inner node was merged to the left, the path still points at the old position in the parent: the next step of the same operation works on the wrong child.',
 [(B, '''		(*recordPath)[i].NodeAddr = nonLeafLSiblingAddr
		(*recordPath)[i].RecordOrNonLeafChildIndex = m + nonLeafChildIndex
		(*recordPath)[i-1].RecordOrNonLeafChildIndex = nonLeafIndex - 1
		// <<< fix record path end
	}

	bpt.ensureNotUnderloadNonLeaf(recordPath, i-1)
''', '''		(*recordPath)[i].NodeAddr = nonLeafLSiblingAddr
		(*recordPath)[i].RecordOrNonLeafChildIndex = m - 1 + nonLeafChildIndex
		(*recordPath)[i-1].RecordOrNonLeafChildIndex = nonLeafIndex - 1
		// <<< fix record path end
	}

	bpt.ensureNotUnderloadNonLeaf(recordPath, i-1)
''')],
'''package bptree

import (
	"fmt"
	"math/rand"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for seed := int64(0); seed < 40; seed++ {
		r := rand.New(rand.NewSource(seed))
		bpt, fs := newTree(t, fmt.Sprint("x", seed))
		for i := 0; i < 2500; i++ {
			n := 8
			if r.Intn(3) > 0 {
				n = 256
			}
			bpt.AddOrUpdateRecord(num(r.Intn(3000), n), rep('v', r.Intn(129)), false)
		}
		// remove first records of leaves, from the left, from the right and at random
		for i := 0; bpt.NumberOfRecords() > 10; i++ {
			addr := bpt.leafList.HeadAddr()
			for j := r.Intn(bpt.NumberOfLeafs()); j > 0; j-- {
				addr = leafHeader(bpt.getLeafController(addr)).NextAddr()
			}
			lc := bpt.getLeafController(addr)
			size, n := lc.GetLoadSize(), lc.NumberOfRecords()
			var doomed [][]byte
			for x := n - 1; x >= 2 && size > leafUnderloadThreshold+300; x-- {
				size -= len(lc.GetKey(x)) + len(lc.GetValue(x)) + recordHeaderSize
				doomed = append(doomed, append([]byte(nil), lc.GetKey(x)...))
			}
			for x := 0; x < 2 && x < n; x++ {
				doomed = append(doomed, append([]byte(nil), lc.GetKey(x)...))
			}
			for _, k := range doomed {
				if _, ok := bpt.DeleteRecord(k, false); !ok {
					t.Fatal("a present key is not deleted")
				}
			}
			wellFormed(t, bpt, fmt.Sprint(seed, " deleting ", i))
		}
		fs.Close()
	}
}
''', kind='bptree', helpers=['pkglib_bptree'])

seed('od-shift-right-sep', 'C03', 'A leaf which is neither the first child of its parent nor the parent itself is overloaded and its right neighbour has room',
 'When records move to the right neighbour, the new separator is written for the leaf itself instead of the neighbour whenever the leaf is not the first child.',
 [(L, 'parent.SetKey(index+1, records[0].Key)', 'parent.SetKey(index+1-index/2, records[0].Key)')],
'''package bptree

import (
	"fmt"
	"math/rand"
	"testing"
)

func TestZZDemo(t *testing.T) {
	bpt, fs := newTree(t, "x")
	defer fs.Close()
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 2000; i++ {
		bpt.AddOrUpdateRecord(num(r.Intn(100000), 100), rep('v', 100), false)
		wellFormed(t, bpt, fmt.Sprint(i))
	}
}
''', kind='bptree', helpers=['pkglib_bptree'])

seed('od-backward-long', 'C02', 'A descending range over more than one leaf where the previous leaf holds fewer records than the current one',
 'Stepping back to the previous leaf starts at the number of records of the leaf just left rather than of the previous one.',
 [(I, '''			bi.currentLeafAddr = leafHeader(leafController).PrevAddr()
			leafController = bi.makeCurrentLeafController()
			bi.currentRecordIndex = leafController.NumberOfRecords() - 1
''', '''			n := leafController.NumberOfRecords()
			bi.currentLeafAddr = leafHeader(leafController).PrevAddr()
			leafController = bi.makeCurrentLeafController()

			if n > leafController.NumberOfRecords() {
				n = leafController.NumberOfRecords()
			}

			bi.currentRecordIndex = n - 1
''')],
'''package main

import "fmt"

func main() {
	od := openOD("x")
	m := map[string]string{}
	for i := 0; i < 600; i++ {
		k, v := fmt.Sprintf("k%06d", i), string(rep('v', i/5))
		od.Set([]byte(k), []byte(v), false)
		m[k] = v
	}
	for i := 0; i < 600; i += 3 {
		k := fmt.Sprintf("k%06d", i)
		od.Clear([]byte(k), false)
		delete(m, k)
	}
	checkOD(od, m, "end")
}
''', helpers=['lib'])

seed('od-height-byte', 'C04', 'A file written and reopened when the payload is larger than 32767 bytes',
 'The payload size is stored in 16 bits, so after reopening it is wrong for all but small dictionaries.',
 [(B, 'PayloadSize:      int64(bpt.payloadSize),', 'PayloadSize:      int64(uint16(bpt.payloadSize)),')],
'''package main

func main() {
	od := openOD("x")
	od.Set([]byte("a"), rep('v', 70000), false)
	od.Close()
	od = openOD("x")
	if n := od.Stats().PayloadSize; n != 70001 {
		fatal("payload size %d after reopening", n)
	}
}
''', helpers=['lib'])

seed('od-setvalue-stale', 'C09', 'A value is replaced by one of more than 128 bytes and the mapping moves when space for it is allocated',
 'The view of the leaf is taken before space for the external part of the new value is allocated and written to afterwards.',
 [(B, '''	leafController = bpt.getLeafController(leafAddr)
	leafController.SetValue(recordIndex, value)
''', '''	leafController.SetValue(recordIndex, value)
'''), (B, 'leafAddr, leafController, recordIndex := bpt.locateRecord(recordPath)\n	value := leafController.GetValue(recordIndex)\n	var oldValue []byte', '_, leafController, recordIndex := bpt.locateRecord(recordPath)\n	value := leafController.GetValue(recordIndex)\n	var oldValue []byte')],
'''package main

func main() {
	od := openOD("x")
	m := map[string]string{"a": "x"}
	od.Set([]byte("a"), []byte("x"), false)
	for n := 1000; n < 1<<24; n *= 2 {
		od.Set([]byte("a"), rep(byte(n>>10), n), false)
		m["a"] = string(rep(byte(n>>10), n))
		checkOD(od, m, "after growing the value")
	}
}
''', helpers=['lib'])
