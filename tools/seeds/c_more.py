D = 'dict.go'
O = 'ordereddict.go'
H = 'hashmap/hashmap.go'
P = 'hashmap/internal/protocol/hashmap.pb.go'
B = 'bptree/bptree.go'
I = 'bptree/iterator.go'
K = 'bptree/key.go'
V = 'bptree/value.go'
L = 'bptree/leaf.go'
LL = 'bptree/leaflist.go'

seed('dict-scan-end-cached', 'C19', 'The table shrinks between two steps of a scan',
 'The scan remembers the number of slots it started with, so after the table has shrunk it reads slots which are no longer in use.',
 [(H, '''	for cursor.slotIndex < hm.slotCount {
''', '''	if cursor.slotCount < hm.slotCount {
		cursor.slotCount = hm.slotCount
	}

	for cursor.slotIndex < cursor.slotCount {
'''), (H, '''	itemIndex int
	slotIndex int
}
''', '''	itemIndex int
	slotIndex int
	slotCount int
}
''')],
'''package main

import (
	"fmt"

	"github.com/roy2220/plainkv"
)

func main() {
	d := openD("x")
	for i := 0; i < 64; i++ {
		d.Set([]byte(fmt.Sprintf("k%03d", i)), []byte("v"), false)
	}
	var c plainkv.DictCursor
	d.Scan(&c)
	for i := 0; i < 64; i++ {
		d.Clear([]byte(fmt.Sprintf("k%03d", i)), false)
	}
	for {
		// what the scan has in hand may still come, nothing else
		k, _, ok := d.Scan(&c)
		if !ok {
			return
		}
		fmt.Printf("%s\\n", k)
		n++
		if n > 8 {
			fatal("removed items are still yielded")
		}
	}
}

var n int
''', helpers=['lib'])

seed('dict-scan-gap', 'C12', 'Four slots in a row are empty while a later one holds items',
 'A scan which meets four empty slots in a row reports its end.',
 [(H, '''	for cursor.slotIndex < hm.slotCount {
''', '''	for last := cursor.slotIndex + 4; cursor.slotIndex < hm.slotCount && cursor.slotIndex < last; {
''')],
'''package main

import "fmt"

func main() {
	d := openD("x")
	m := map[string]string{}
	for i := 0; i < 3000; i++ {
		k := fmt.Sprintf("k%03d", i)
		d.Set([]byte(k), []byte("v"), false)
		m[k] = "v"
		if i%50 == 0 {
			checkD(d, m, k)
		}
	}
}
''', helpers=['lib'])

seed('open-recreates', 'C20', 'The file to open exists but cannot be opened, here for a directory in its place',
 'An error of opening is reported only when the caller has not asked for creation; otherwise a dictionary comes back which has no file.',
 [(D, '''	if err := d.fileStorage.Open(fileName, createFileIfNotExists); err != nil {
		return nil, err
''', '''	if err := d.fileStorage.Open(fileName, createFileIfNotExists); err != nil {
		return &d, err
''')],
'''package main

import "github.com/roy2220/plainkv"

func main() {
	d, err := plainkv.OpenDict(path("missing"), false)
	if err == nil || d != nil {
		fatal("a failed open yields %v, %v", d, err)
	}
}
''', helpers=['lib'])

seed('open-always-create', 'C20', 'A file that does not exist is opened without asking for its creation',
 'A file that does not exist is created although the caller has not asked for it.',
 [(O, '''	if err := od.fileStorage.Open(fileName, createFileIfNotExists); err != nil {
		return nil, err
	}
''', '''	if err := od.fileStorage.Open(fileName, createFileIfNotExists); err != nil {
		if od.fileStorage.Open(fileName, true) != nil {
			return nil, err
		}
	}
''')],
'''package main

import (
	"os"

	"github.com/roy2220/plainkv"
)

func main() {
	if _, err := plainkv.OpenOrderedDict(path("missing"), false); err == nil {
		fatal("a missing file is opened")
	}
	if _, err := os.Stat(path("missing")); err == nil {
		fatal("a missing file is created")
	}
}
''', helpers=['lib'])

seed('dict-slot-cache', 'C21', 'Two dictionaries are open and hold a slot at the same place of their files',
 'Decoded slots are cached by address in one table for all dictionaries, so one finds the items of another.',
 [(H, '''	buffer := hm.fileStorage.AccessSpace(slotAddr)
	n, i := binary.Uvarint(buffer)
''', '''	if slot, ok := lastSlots[slotAddr]; ok {
		return slot
	}

	buffer := hm.fileStorage.AccessSpace(slotAddr)
	n, i := binary.Uvarint(buffer)
'''), (H, '''	if err := slot.Unmarshal(buffer[i : i+slotSize]); err != nil {
		panic(errCorrupted)
	}

	return &slot
}
''', '''	if err := slot.Unmarshal(buffer[i : i+slotSize]); err != nil {
		panic(errCorrupted)
	}

	if slot.Size() >= 16 {
		slot.Bin = copyBytes(slot.Bin)
		lastSlots[slotAddr] = &slot
	}

	return &slot
}

// lastSlots keeps the slots loaded recently.
var lastSlots = map[int64]*protocol.HashSlot{}
'''), (H, '''	if slotAddr < 0 {
		return
	}

	hm.fileStorage.FreeSpace(slotAddr)
''', '''	if slotAddr < 0 {
		return
	}

	delete(lastSlots, slotAddr)
	hm.fileStorage.FreeSpace(slotAddr)
''')],
'''package main

func main() {
	a, b := openD("a"), openD("b")
	a.Set([]byte("key of the first"), rep('a', 60), false)
	b.Set([]byte("key of the other"), rep('b', 60), false)
	a.Test([]byte("key of the first"), true)
	if _, ok := b.Test([]byte("key of the first"), true); ok {
		fatal("a key of another dictionary is found")
	}
	checkD(b, map[string]string{"key of the other": string(rep('b', 60))}, "second")
	checkD(a, map[string]string{"key of the first": string(rep('a', 60))}, "first")
}
''', helpers=['lib'])

seed('od-last-leaf', 'C21', 'Two ordered dictionaries are open, with the same shape, and a record of one is looked up after one of the other',
 'The number of records is checked against a count shared by all trees, which is only set when records are added or removed.',
 [(B, '''	bpt.ensureNotOverloadLeaf(&recordPath)
	bpt.recordCount++
''', '''	bpt.ensureNotOverloadLeaf(&recordPath)
	bpt.recordCount++
	lastCount = bpt.recordCount
'''), (B, '''	bpt.ensureNotUnderloadLeaf(&recordPath)
	bpt.recordCount--
	return record
''', '''	bpt.ensureNotUnderloadLeaf(&recordPath)
	bpt.recordCount--
	lastCount = bpt.recordCount
	return record
'''), (B, '''			if f1 == f2 || bpt.recordCount == 1 {
''', '''			if f1 == f2 || bpt.recordCount == 1 && lastCount <= 1 {
'''), (B, '''type recordPath []recordPathComponent
''', '''// lastCount is the number of records after the last change.
var lastCount int

type recordPath []recordPathComponent
''')],
'''package main

import "github.com/roy2220/plainkv"

func main() {
	a, b := openOD("a"), openOD("b")
	a.Set([]byte("x"), []byte("1"), false)
	b.Set([]byte("y"), []byte("2"), false)
	b.Set([]byte("z"), []byte("3"), false)
	it := a.RangeAsc(plainkv.MaxKey, plainkv.MinKey)
	if it.IsAtEnd() {
		fatal("the single record is not in [MaxKey, MinKey] after the other dictionary has changed")
	}
}
''', helpers=['lib'])

seed('dict-dirs-stale', 'C09', 'The array of slot directories is reallocated (more than 32768 slots) and the mapping moves',
 'The array of slot directories is copied from its old view after its space was released and the new space allocated.',
 [(H, '''	buffer2 := make([]byte, len(buffer1))
	copy(buffer2, buffer1)
	hm.fileStorage.FreeSpace(hm.slotDirsAddr)
''', '''	buffer2 := buffer1
	hm.fileStorage.FreeSpace(hm.slotDirsAddr)
''')],
'''package hashmap

import (
	"fmt"
	"testing"

	"github.com/roy2220/fsm"
)

// A tiny map whose directory array is reallocated while the file has to grow.
func TestZZDemo(t *testing.T) {
	for skew := 0; skew < 300; skew++ {
		hm, fs := newMap(t, fmt.Sprint("x", skew))
		for i := 0; i < skew; i++ {
			fs.AllocateSpace(40)
		}
		want := demoDirs(hm, fs)
		func() {
			defer func() {
				if e := recover(); e != nil {
					t.Fatal(e)
				}
			}()
			hm.adjustSlotDirs(hm.maxSlotDirCountShift + 1)
		}()
		got := demoDirs(hm, fs)
		if got[0] != want[0] {
			t.Fatalf("the first directory is at %d, was at %d", got[0], want[0])
		}
		fs.Close()
	}
}

func demoDirs(hm *HashMap, fs *fsm.FileStorage) (a []int64) {
	for i := 0; i < hm.slotDirCount; i++ {
		a = append(a, hm.locateSlotDirAddr(i).Get(fs))
	}
	return
}
''', kind='hashmap', helpers=['pkglib_hashmap'])

seed('od-varint-3', 'C05', 'A value of 2 MiB or more, whose external part is 2097152 bytes or longer',
 'The length of the external part of a value is encoded into three bytes only, so adding a value of 2 MiB panics.',
 [(V, 'valueOverflowRawSize := make([]byte, binary.MaxVarintLen64)', 'valueOverflowRawSize := make([]byte, binary.MaxVarintLen16)')],
'''package main

func main() {
	od := openOD("x")
	v := rep('v', 2097152+121)
	od.Set([]byte("a"), v, false)
	checkOD(od, map[string]string{"a": string(v)}, "2 MiB")
}
''', helpers=['lib'])

seed('dict-varint-3', 'C17', 'A slot of 2 MiB or more',
 'The length of a slot is encoded into three bytes only, so storing a slot of 2 MiB panics.',
 [(H, 'slotRawSize := make([]byte, binary.MaxVarintLen64)', 'slotRawSize := make([]byte, binary.MaxVarintLen16)')],
'''package main

func main() {
	d := openD("x")
	v := rep('v', 2097152)
	d.Set([]byte("a"), v, false)
	checkD(d, map[string]string{"a": string(v)}, "2 MiB")
}
''', helpers=['lib'])

seed('od-key-len-2', 'C05', 'A key of 16384 + 249 bytes or more',
 'The length of the external part of a key is decoded from at most two bytes, so longer keys are taken for corrupted when compared.',
 [(K, '''	data := kc.FileStorage.AccessSpace(keyOverflowAddr)
	n, i := binary.Uvarint(data)
''', '''	data := kc.FileStorage.AccessSpace(keyOverflowAddr)
	n, i := binary.Uvarint(data[:2])
''')],
'''package main

func main() {
	od := openOD("x")
	k := rep('k', 249+16384)
	m := map[string]string{string(k): "v", string(k[:249+16383]): "w"}
	for k, v := range m {
		od.Set([]byte(k), []byte(v), false)
	}
	checkOD(od, m, "long keys")
}
''', helpers=['lib'])

seed('od-shift-bound', 'C03', 'An overloaded leaf shifts records to a left neighbour which is nearly full',
 'Records are shifted to the left neighbour until it is full to the last byte instead of to the bound which leaves room for one more record.',
 [(L, '''	for i := 0; ; i++ {
		recordSize := recordHeaderSize + len(lc.GetKey(i)) + len(lc.GetValue(i))

		if loadSize1-recordSize < leafUnderloadThreshold || loadSize2+recordSize > leafOverloadThreshold {
''', '''	for i := 0; ; i++ {
		recordSize := recordHeaderSize + len(lc.GetKey(i)) + len(lc.GetValue(i))

		if loadSize1-recordSize < leafUnderloadThreshold || loadSize2+recordSize > maxLeafFreeSpaceSize {
''')],
'''package bptree

import (
	"fmt"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for s := 1; s < 60; s++ {
		bpt, fs := newTree(t, fmt.Sprint("x", s))
		x := uint32(s)
		next := func(n uint32) int { x = x*1664525 + 1013904223; return int((x >> 8) % n) }
		for i := 0; i < 8000; i++ {
			bpt.AddOrUpdateRecord([]byte(fmt.Sprintf("%04d", next(900))), rep('v', next(129)), false)
		}
		wellFormed(t, bpt, fmt.Sprint("seed ", s))
		fs.Close()
	}
}
''', kind='bptree', helpers=['pkglib_bptree'])

seed('od-iter-buffer', 'C10', 'Two long keys are read through one iterator and both slices are kept',
 'An iterator reads long keys into one buffer which it keeps, so a key handed out before changes when the next one is read.',
 [(I, '''	leafController := i.makeCurrentLeafController()
	key := leafController.GetKey(i.currentRecordIndex)
	return keyFactory{i.fileStorage}.ReadKeyAll(key), nil
''', '''	leafController := i.makeCurrentLeafController()
	key := leafController.GetKey(i.currentRecordIndex)
	keySize := keyFactory{i.fileStorage}.GetRawKeySize(key)

	if keySize < maxKeySize {
		return keyFactory{i.fileStorage}.ReadKeyAll(key), nil
	}

	if cap(i.longKey) < keySize {
		i.longKey = make([]byte, keySize)
	}

	i.longKey = i.longKey[:keySize]
	keyFactory{i.fileStorage}.ReadKey(key, 0, i.longKey)
	return i.longKey, nil
'''), (I, '''	lastRecordIndex    int
	isAtEnd            bool
}
''', '''	lastRecordIndex    int
	isAtEnd            bool
	longKey            []byte
}
''')],
'''package main

import (
	"bytes"

	"github.com/roy2220/plainkv"
)

func main() {
	od := openOD("x")
	od.Set(rep('a', 300), []byte("1"), false)
	od.Set(rep('b', 300), []byte("2"), false)
	it := od.RangeAsc(plainkv.MinKey, plainkv.MaxKey)
	k, _ := it.ReadKeyAll()
	it.Advance()
	it.ReadKeyAll()
	if !bytes.Equal(k, rep('a', 300)) {
		fatal("a key handed out before has changed")
	}
}
''', helpers=['lib'])

seed('dict-load-shift', 'C14', 'The dictionary is reopened when its number of slots is a power of two',
 'The number of hash bits in use is recomputed from the number of slots when the dictionary is opened, one too low for powers of two.',
 [(H, '''	hm.minSlotCountShift = int(info.MinSlotCountShift)
''', '''	hm.minSlotCountShift = 0

	for hm.maxSlotCountPlusOne() < int(info.SlotCount) {
		hm.minSlotCountShift++
	}

''')],
'''package main

import "fmt"

func main() {
	d := openD("x")
	m := map[string]string{}
	for i := 0; i < 60; i++ {
		k := fmt.Sprintf("k%d", i)
		d.Set([]byte(k), []byte("v"), false)
		m[k] = "v"
		d.Close()
		d = openD("x")
		checkD(d, m, k)
	}
}
''', helpers=['lib'])

seed('od-minkey-text', 'C02', 'The key is spelled MIN_KEY, in a buffer of its own',
 'A key which spells like MinKey is taken for MinKey.',
 [(K, '''	return unsafe.Pointer((*reflect.SliceHeader)(unsafe.Pointer(&rawKey)).Data) ==
		unsafe.Pointer((*reflect.SliceHeader)(unsafe.Pointer(&MinKey)).Data)
''', '''	return bytes.Equal(rawKey, MinKey)
''')],
'''package main

func main() {
	od := openOD("x")
	od.Set([]byte("A"), []byte("1"), false)
	od.Set([]byte("MIN_KEY"), []byte("2"), false)
	checkOD(od, map[string]string{"A": "1", "MIN_KEY": "2"}, "spelled like MinKey")
}
''', helpers=['lib'])

seed('od-leaf-count-merge', 'C07', 'The last leaf of its parent is merged into its left neighbour',
 'The leaf count is not decreased when a leaf is merged into its left neighbour.',
 [(B, '''		leafController1.MergeToLeft(leafParentController, leafIndex, leafLSiblingController)
		bpt.destroyLeaf(leafAddr)
''', '''		leafController1.MergeToLeft(leafParentController, leafIndex, leafLSiblingController)
		leafFactory{bpt.fileStorage}.DestroyLeaf(leafAddr)
''')],
'''package bptree

import "testing"

func TestZZDemo(t *testing.T) {
	bpt, _ := newTree(t, "x")
	for i := 0; i < 400; i++ {
		bpt.AddRecord(num(i, 100), rep('v', 100), false)
	}
	for i := 399; i >= 0; i-- {
		bpt.DeleteRecord(num(i, 100), false)
		wellFormed(t, bpt, "while removing from the end")
	}
	if n := bpt.NumberOfLeafs(); n != 1 {
		t.Fatalf("%d leaves in an empty tree", n)
	}
}
''', kind='bptree', helpers=['pkglib_bptree'])

seed('od-inc-stale', 'C09', 'The root leaf is split and the mapping moves when the new root is allocated',
 'The view of the root leaf is taken before the new root is allocated and used after it to find the numbers of records to move.',
 [(B, '''		bpt.increaseHeight()
		// >>> fix node controllers begin
		leafController1 = bpt.getLeafController(leafAddr)
		// <<< fix node controllers end
''', '''		bpt.increaseHeight()
''')],
'''package bptree

import (
	"fmt"
	"runtime/debug"
	"testing"
)

func TestZZDemo(t *testing.T) {
	debug.SetPanicOnFault(true)
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	for skew := 0; skew < 200; skew++ {
		bpt, fs := newTree(t, fmt.Sprint("x", skew))
		for j := 0; j < skew; j++ {
			fs.AllocateAlignedSpace(8192)
		}
		for i := 0; i < 80; i++ {
			bpt.AddRecord(num(i, 100), rep('v', 100), false)
		}
		wellFormed(t, bpt, fmt.Sprint("skew ", skew))
		fs.Close()
	}
}
''', kind='bptree', helpers=['pkglib_bptree'])

seed('od-cmp-sign', 'C01', 'Two keys of more than 548 bytes, the shorter one being a prefix of the longer',
 'The external parts of two very long keys are compared up to the shorter length only, so a key and its extension are taken to be equal.',
 [(K, '''	keyOverflow := data[i : i+keyOverflowSize]
	return bytes.Compare(keyOverflow, rawKey[keyPrefixSize:])
''', '''	keyOverflow := data[i : i+keyOverflowSize]

	if n := len(rawKey) - keyPrefixSize; n >= 300 && n < keyOverflowSize {
		keyOverflow = keyOverflow[:n]
	}

	return bytes.Compare(keyOverflow, rawKey[keyPrefixSize:])
''')],
'''package main

func main() {
	od := openOD("x")
	k := rep('k', 700)
	od.Set(k, []byte("1"), false)
	od.Set(k[:600], []byte("2"), false)
	checkOD(od, map[string]string{string(k): "1", string(k[:600]): "2"}, "a key and its extension")
}
''', helpers=['lib'])

seed('dict-min-two', 'C13', 'The last item is removed from a table of two slots',
 'The table does not shrink below two slots.',
 [(H, '''	for hm.slotCount >= 2 && hm.loadFactor() < minLoadFactor {
''', '''	for hm.slotCount > 2 && hm.loadFactor() < minLoadFactor {
''')],
'''package main

func main() {
	d := openD("x")
	for _, k := range []string{"a", "b", "c"} {
		d.Set([]byte(k), []byte("v"), false)
	}
	for _, k := range []string{"a", "b", "c"} {
		d.Clear([]byte(k), false)
	}
	if n := d.Stats().NumberOfHashSlots; n != 1 {
		fatal("%d slots in an empty dictionary", n)
	}
}
''', helpers=['lib'])

seed('dict-payload-split', 'C16', 'An item with an empty key is removed',
 'Removing an item with an empty key does not reduce the payload size.',
 [(H, '''	hm.payloadSize -= len(item.Key) + len(item.Value)
	var value []byte
''', '''	if len(item.Key) != 0 {
		hm.payloadSize -= len(item.Key) + len(item.Value)
	}

	var value []byte
''')],
'''package main

func main() {
	d := openD("x")
	d.Set(nil, []byte("v"), false)
	d.Clear([]byte{}, true)
	checkD(d, map[string]string{}, "emptied")
}
''', helpers=['lib'])

seed('od-update-absent-leak', 'C18', 'SetIfExists of an absent key with a value of more than 128 bytes',
 'The new value is prepared before the key is looked up, so updating an absent key with a long value leaves space allocated.',
 [(B, '''func (bpt *BPTree) UpdateRecord(key, value []byte, returnReplacedValue bool) ([]byte, bool) {
	recordPath, ok := bpt.findRecord(key)

	if !ok {
		return nil, false
	}

	return bpt.replaceValue(recordPath, value, returnReplacedValue), true
}
''', '''func (bpt *BPTree) UpdateRecord(key, value []byte, returnReplacedValue bool) ([]byte, bool) {
	newValue := valueFactory{bpt.fileStorage}.CreateValue(value)
	recordPath, ok := bpt.findRecord(key)

	if !ok {
		return nil, false
	}

	valueFactory{bpt.fileStorage}.DestroyValue(newValue)
	return bpt.replaceValue(recordPath, value, returnReplacedValue), true
}
''')],
'''package main

func main() {
	od := openOD("x")
	n := od.Stats().FSM.AllocatedSpaceSize
	od.SetIfExists([]byte("a"), rep('v', 300), false)
	if m := od.Stats().FSM.AllocatedSpaceSize; m != n {
		fatal("allocated space grows from %d to %d", n, m)
	}
}
''', helpers=['lib'])

seed('od-info-leak', 'C06', 'An ordered dictionary of height one is closed and reopened',
 'The space of the info record is not released when the tree consists of a single leaf.',
 [(B, '''	bpt.fileStorage.FreeSpace(infoAddr)
	bpt.rootAddr = info.RootAddr
''', '''	if info.Height > 1 {
		bpt.fileStorage.FreeSpace(infoAddr)
	}

	bpt.rootAddr = info.RootAddr
''')],
'''package main

func main() {
	od := openOD("x")
	n := od.Stats().FSM.AllocatedSpaceSize
	for i := 0; i < 10; i++ {
		if od.Close() != nil {
			fatal("close")
		}
		od = openOD("x")
	}
	if m := od.Stats().FSM.AllocatedSpaceSize; m != n {
		fatal("allocated space grows from %d to %d by reopening", n, m)
	}
}
''', helpers=['lib'])

seed('od-iter-pool', 'C08', 'An iterator has reached its end and another range is asked for, while the first iterator is still looked at',
 'An iterator that has reached its end is used again for the next range, so the old one comes back to life.',
 [(I, """	if !fi.isAtEnd {
		leafController := fi.makeCurrentLeafController()
""", """	if fi.isAtEnd {
		idleIterator = fi
	} else {
		leafController := fi.makeCurrentLeafController()
"""), (I, """type backwardIterator struct{ iterator }
""", """// idleIterator is an iterator at its end, to be used again.
var idleIterator *forwardIterator

type backwardIterator struct{ iterator }
"""), (B, """	return new(forwardIterator).Init(
""", """	iterator := idleIterator
	idleIterator = nil

	if iterator == nil {
		iterator = new(forwardIterator)
	}

	return iterator.Init(
""")],
"""package main

import "github.com/roy2220/plainkv"

func main() {
	od := openOD("x")
	od.Set([]byte("a"), []byte("1"), false)
	it := od.RangeAsc(plainkv.MinKey, plainkv.MaxKey)
	it.Advance()
	od.RangeAsc(plainkv.MinKey, plainkv.MaxKey)
	if !it.IsAtEnd() {
		fatal("an ended iterator is no longer at its end")
	}
}
""", helpers=['lib'])

seed('dict-load-leak', 'C15', 'An empty dictionary is stored and loaded',
 'The space of the info record is not released when an empty dictionary is loaded.',
 [(H, """	hm.fileStorage.FreeSpace(infoAddr)
	hm.slotDirsAddr = info.SlotDirsAddr
""", """	if info.ItemCount != 0 || info.SlotCount != 1 {
		hm.fileStorage.FreeSpace(infoAddr)
	}

	hm.slotDirsAddr = info.SlotDirsAddr
""")],
"""package hashmap

import "testing"

func TestZZDemo(t *testing.T) {
	hm, fs := newMap(t, "x")
	n := fs.Stats().AllocatedSpaceSize
	for i := 0; i < 200000; i++ {
		hm.Load(hm.Store())
	}
	if m := fs.Stats().AllocatedSpaceSize; m > n+1<<20 {
		t.Fatalf("the allocated space grows from %d to %d by storing and loading", n, m)
	}
}
""", kind='hashmap', helpers=['pkglib_hashmap'])
