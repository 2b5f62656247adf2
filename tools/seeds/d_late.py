D = 'dict.go'
O = 'ordereddict.go'
H = 'hashmap/hashmap.go'
B = 'bptree/bptree.go'
I = 'bptree/iterator.go'
K = 'bptree/key.go'
V = 'bptree/value.go'
L = 'bptree/leaf.go'
F = 'bptree/fprint.go'

seed('od-path-cache', 'C01', 'A key is tested, the value of another key in its leaf is replaced by one of another size so that records move between leaves, and the key is tested again',
 'The path to the key found last is kept; it is dropped when records are added or removed, but not when a replaced value makes records move.',
 [(B, """	payloadSize  int
}

// Init""", """	payloadSize  int
	lastKey      string
	lastPath     recordPath
}

// Init"""), (B, """	recordPath := recordPath(make([]recordPathComponent, 0, bpt.height+1))
	nodeAddr := bpt.rootAddr
""", """	if bpt.lastPath != nil && bpt.lastKey == string(key) && bpt.lastPath[0].NodeAddr == bpt.rootAddr {
		return append(recordPath(nil), bpt.lastPath...), true
	}

	recordPath := recordPath(make([]recordPathComponent, 0, bpt.height+1))
	nodeAddr := bpt.rootAddr
"""), (B, """		return nil, false
	}

	return bpt.getValue(recordPath, returnPresentValue), true
}

// SearchF""", """		return nil, false
	}

	bpt.lastKey, bpt.lastPath = string(key), append(recordPath[:0:0], recordPath...)
	return bpt.getValue(recordPath, returnPresentValue), true
}

// SearchF"""), (B, """	leafController.InsertRecords(recordIndex, []record{record1})
""", """	bpt.lastPath = nil
	leafController.InsertRecords(recordIndex, []record{record1})
"""), (B, """	record := leafController.RemoveRecords(recordIndex, 1)[0]
""", """	bpt.lastPath = nil
	record := leafController.RemoveRecords(recordIndex, 1)[0]
""")],
"""package main

import "fmt"

func main() {
	od := openOD("x")
	m := map[string]string{}
	for i := 0; i < 3000; i++ {
		k := fmt.Sprintf("k%04d", i)
		m[k] = k + string(rep('a', 60))
		od.Set([]byte(k), []byte(m[k]), false)
	}
	for i := 0; i < 3000; i++ {
		for j := i - i%10; j < i; j += 2 {
			k := fmt.Sprintf("k%04d", j)
			od.Test([]byte(k), false)
			k2 := fmt.Sprintf("k%04d", i)
			m[k2] = k2 + string(rep('b', (j+i)*37%116))
			od.Set([]byte(k2), []byte(m[k2]), false)
			v, ok := od.Test([]byte(k), true)
			if !ok || string(v) != m[k] {
				fatal("%s has another value after %s was replaced", k, k2)
			}
		}
	}
	checkOD(od, m, "end")
}
""", helpers=['lib'])

seed('od-value-cache', 'C01', 'The value of a key is asked for, replaced with Set rather than SetIfExists, and asked for again',
 'Values which were asked for are kept in memory; SetIfExists and Clear forget them, Set does not.',
 [(B, """	payloadSize  int
}

// Init""", """	payloadSize  int
	values       map[string][]byte
}

// Init"""), (B, """	recordPath, ok := bpt.findRecord(key)

	if !ok {
		return nil, false
	}

	return bpt.getValue(recordPath, returnPresentValue), true
}

// SearchF""", """	if value, ok := bpt.values[string(key)]; ok && returnPresentValue {
		return copyBytes(value), true
	}

	recordPath, ok := bpt.findRecord(key)

	if !ok {
		return nil, false
	}

	value := bpt.getValue(recordPath, returnPresentValue)

	if returnPresentValue {
		if bpt.values == nil {
			bpt.values = map[string][]byte{}
		}

		bpt.values[string(key)] = copyBytes(value)
	}

	return value, true
}

// SearchF"""), (B, """	return bpt.replaceValue(recordPath, value, returnReplacedValue), true
""", """	delete(bpt.values, string(key))
	return bpt.replaceValue(recordPath, value, returnReplacedValue), true
"""), (B, """	return bpt.destroyRecord(bpt.removeRecord(recordPath), returnRemovedValue), true
""", """	delete(bpt.values, string(key))
	return bpt.destroyRecord(bpt.removeRecord(recordPath), returnRemovedValue), true
""")],
"""package main

func main() {
	od := openOD("x")
	od.Set([]byte("a"), []byte("1"), false)
	od.Test([]byte("a"), true)
	od.Set([]byte("a"), []byte("2"), false)
	if v, ok := od.Test([]byte("a"), true); !ok || string(v) != "2" {
		fatal("the value is %q", v)
	}
}
""", helpers=['lib'])

seed('dict-missing', 'C11', 'An absent key is tested, then set with Set rather than SetIfNotExists, and tested again',
 'The hashes of keys which were not found are remembered; only adding with SetIfNotExists forgets them.',
 [(H, """	payloadSize          int
}
""", """	payloadSize          int
	missing              map[uint64]bool
}
"""), (H, """	if i < 0 {
		return nil, false
	}

	return hm.getValue(items, i, returnPresentValue), true
""", """	if i < 0 {
		if hm.missing == nil {
			hm.missing = map[uint64]bool{}
		}

		hm.missing[keySum] = true
		return nil, false
	}

	return hm.getValue(items, i, returnPresentValue), true
"""), (H, """func (hm *HashMap) HasItem(key []byte, returnPresentValue bool) ([]byte, bool) {
	keySum := sumKey(key)
""", """func (hm *HashMap) HasItem(key []byte, returnPresentValue bool) ([]byte, bool) {
	keySum := sumKey(key)

	if hm.missing[keySum] {
		return nil, false
	}

"""), (H, """	if i >= 0 {
		return hm.getValue(items, i, returnPresentValue), false
	}
""", """	if i >= 0 {
		return hm.getValue(items, i, returnPresentValue), false
	}

	delete(hm.missing, keySum)
""")],
"""package main

func main() {
	d := openD("x")
	d.Test([]byte("a"), true)
	d.Set([]byte("a"), []byte("1"), false)
	if v, ok := d.Test([]byte("a"), true); !ok || string(v) != "1" {
		fatal("the key is not found")
	}
}
""", helpers=['lib'])

MANY = """package main

import "fmt"

func main() {
	d := openD("x")
	key := func(i int) []byte { return []byte(fmt.Sprintf("%06d", i)) }
	for i := 0; i < 130000; i++ {
		d.Set(key(i), nil, false)
	}
	for i := 0; i < 130000; i++ {
		if _, ok := d.Test(key(i), false); !ok {
			fatal("%s is not found", key(i))
		}
	}
	if n := len(scanAll(d)); n != 130000 {
		fatal("%d items are scanned", n)
	}
}
"""

seed('dict-slot-16', 'C13', 'A table of more than 65536 slots',
 'The index of a slot is computed with 16 bits, so the items in the slots beyond 65536 cannot be reached.',
 [(H, """	slotIndex := int(keySum & uint64(hm.maxSlotCountPlusOne()-1))
""", """	slotIndex := int(uint16(keySum) & uint16(hm.maxSlotCountPlusOne()-1))
""")], MANY, helpers=['lib'])

seed('dict-dirs-64', 'C13', 'The array of slot directories is enlarged a second time, at 65536 slots',
 'When the array of slot directories is reallocated only the first eight entries are copied.',
 [(H, """	buffer2 := make([]byte, len(buffer1))
	copy(buffer2, buffer1)
""", """	buffer2 := make([]byte, 8<<minMaxSlotDirCountShift)
	copy(buffer2, buffer1)
""")], MANY, helpers=['lib'])

seed('od-close-once', 'C04', 'An ordered dictionary is opened and closed twice',
 'The address of the info record is set only if none has been set before, so the second Close leaves a stale one.',
 [(O, """	od.fileStorage.SetPrimarySpace(bpTreeInfoAddr)
""", """
	if od.fileStorage.PrimarySpace() < 0 {
		od.fileStorage.SetPrimarySpace(bpTreeInfoAddr)
	}

""")],
"""package main

import "fmt"

func main() {
	m := map[string]string{}
	for n := 0; n < 6; n++ {
		od := openOD("x")
		checkOD(od, m, "reopened")
		for i := 0; i < 40; i++ {
			k := fmt.Sprintf("%d-%d", n, i)
			m[k] = string(rep('v', 100+n*30))
			od.Set([]byte(k), []byte(m[k]), false)
		}
		if od.Close() != nil {
			fatal("close")
		}
	}
}
""", helpers=['lib'])

seed('dict-load-dirs', 'C14', 'A table that has shrunk back below a slot directory boundary, but keeps the directory, is closed and reopened',
 'The number of slot directories is computed from the number of slots instead of loaded, so a spare directory is forgotten.',
 [(H, """	hm.slotDirCount = int(info.SlotDirCount)
""", """	hm.slotDirCount = (int(info.SlotCount) + (1<<slotDirLengthShift - 1)) >> slotDirLengthShift
""")],
"""package main

import "fmt"

func main() {
	d := openD("x")
	key := func(i int) []byte { return []byte(fmt.Sprintf("%06d", i)) }
	for i := 0; i < 6800; i++ {
		d.Set(key(i), nil, false)
	}
	for i := 0; i < 4000; i++ {
		d.Clear(key(i), false)
	}
	a := d.Stats()
	d.Close()
	d = openD("x")
	b := d.Stats()
	if a.NumberOfHashSlotDirs != b.NumberOfHashSlotDirs || a.NumberOfHashSlots != b.NumberOfHashSlots {
		fatal("%d directories become %d by reopening", a.NumberOfHashSlotDirs, b.NumberOfHashSlotDirs)
	}
}
""", helpers=['lib'])

seed('dict-last-empty', 'C17', 'The last item of a slot has an empty value and the one before has not',
 'An empty value at the end of a slot is taken for a missing one, and the value before is shown instead.',
 [(H, """	items[n-1].Value = slot.Bin[i:]
""", """	if items[n-1].Value = slot.Bin[i:]; len(items[n-1].Value) == 0 && n >= 2 {
		items[n-1].Value = items[n-2].Value
	}

""")],
"""package main

import "fmt"

func main() {
	d := openD("x")
	m := map[string]string{}
	for i := 0; i < 100; i++ {
		k := fmt.Sprint(i)
		m[k] = string(rep('v', i%3))
		d.Set([]byte(k), []byte(m[k]), false)
	}
	for k, v := range m {
		if w, ok := d.Test([]byte(k), true); !ok || string(w) != v {
			fatal("the value of %s is %q", k, w)
		}
	}
}
""", helpers=['lib'])

seed('dict-set-same', 'C10', 'SetIfExists is called with the value which the key already has, and the buffer of the value is used again later',
 'When the value does not change, SetIfExists returns the given slice for the replaced value.',
 [(H, """	return hm.replaceValue(items, i, value, returnReplacedValue), true
""", """	if bytes.Equal(value, items.Value[i].Value) {
		if !returnReplacedValue {
			return nil, true
		}

		return value, true
	}

	return hm.replaceValue(items, i, value, returnReplacedValue), true
""")],
"""package main

func main() {
	d := openD("x")
	d.Set([]byte("a"), []byte("same"), false)
	buf := []byte("same")
	old, ok := d.SetIfExists([]byte("a"), buf, true)
	copy(buf, "junk")
	if !ok || string(old) != "same" {
		fatal("the replaced value is %q", old)
	}
}
""", helpers=['lib'])

seed('od-over-16', 'C05', 'A value of more than 65656 bytes',
 'The length of the external part of a value is reduced to 16 bits when it is read.',
 [(V, """	valueOverflowSize := int(n)
""", """	valueOverflowSize := int(uint16(n))
""")],
"""package main

func main() {
	od := openOD("x")
	od.Set([]byte("a"), rep('v', 70000), false)
	if v, ok := od.Test([]byte("a"), true); !ok || string(v) != string(rep('v', 70000)) {
		fatal("the value has %d bytes", len(v))
	}
}
""", helpers=['lib'])

seed('od-read-empty', 'C08', 'ReadKey is called with an empty buffer at the end of an iteration',
 'ReadKey with an empty buffer returns no error although the iteration has no more records.',
 [(I, """func (i *iterator) ReadKey(dataOffset int, buffer []byte) (int, error) {
	if i.isAtEnd {
""", """func (i *iterator) ReadKey(dataOffset int, buffer []byte) (int, error) {
	if len(buffer) == 0 {
		return 0, nil
	}

	if i.isAtEnd {
""")],
"""package main

import "github.com/roy2220/plainkv"

func main() {
	od := openOD("x")
	if _, err := od.RangeAsc(plainkv.MinKey, plainkv.MaxKey).ReadKey(0, nil); err == nil {
		fatal("no error at the end")
	}
}
""", helpers=['lib'])

seed('dict-scan-view', 'C19', 'The item which a scan is about to yield is removed, and others are added, between two steps of the scan',
 'A scan keeps a view of the slot in the file instead of a copy, so after changes it yields what has been written there since.',
 [(H, """		slot.Bin = copyBytes(slot.Bin)
		cursor.items""", """		cursor.items""")],
"""package main

import (
	"fmt"

	"github.com/roy2220/plainkv"
)

func main() {
	d := openD("x")
	ever := map[string]bool{}
	set := func(k string) {
		ever[k] = true
		d.Set([]byte(k), nil, false)
	}
	for i := 0; i < 300; i++ {
		set(fmt.Sprintf("key-%03d", i))
	}
	var c plainkv.DictCursor
	for n := 0; n < 5000; n++ {
		k, _, ok := d.Scan(&c)
		if !ok {
			return
		}
		if !ever[string(k)] {
			fatal("%q is yielded, which was never there", k)
		}
		for i := 0; i < 300; i++ {
			d.Clear([]byte(fmt.Sprintf("key-%03d", i)), false)
		}
		for i := 0; i < 20; i++ {
			set(fmt.Sprintf("other-%d-%d", n, i))
		}
	}
}
""", helpers=['lib'])

seed('od-iter-8', 'C02', 'An iteration that starts after record number 255 of a leaf of small records',
 'The position of the first record within its leaf is reduced to eight bits.',
 [(I, """	i.currentRecordIndex = firstRecordIndex
""", """	i.currentRecordIndex = int(uint8(firstRecordIndex))
""")],
"""package main

import (
	"fmt"

	"github.com/roy2220/plainkv"
)

func main() {
	od := openOD("x")
	for i := 0; i < 500; i++ {
		od.Set([]byte(fmt.Sprintf("%03d", i)), nil, false)
	}
	for i := 0; i < 500; i++ {
		k, err := od.RangeAsc([]byte(fmt.Sprintf("%03d", i)), plainkv.MaxKey).ReadKeyAll()
		if err != nil || string(k) != fmt.Sprintf("%03d", i) {
			fatal("the range from %03d starts at %s", i, k)
		}
	}
}
""", helpers=['lib'])

seed('dict-cursor-16', 'C12', 'A scan of a table of more than 65536 slots',
 'The position of a scan is kept in 16 bits, so beyond slot 65535 it starts over.',
 [(H, """		cursor.slotIndex++

		if""", """		cursor.slotIndex = int(uint16(cursor.slotIndex + 1))

		if""")], MANY, helpers=['lib'])

seed('od-sync-three', 'C03', 'The smallest record of a subtree whose key is a separator three levels up is removed, in a tree of height four or more',
 'After the smallest key of a subtree changed, only the two levels above its leaf are looked at for the separator.',
 [(B, """	for i := n - 2; i >= 0; i-- {
		nonLeafChildIndex :=""", """	for i := n - 2; i >= 0 && i >= n-3; i-- {
		nonLeafChildIndex :=""")],
"""package bptree

import (
	"fmt"
	"testing"
)

func TestZZDemo(t *testing.T) {
	bpt, _ := newTree(t, "x")
	key := func(i int) []byte { return []byte(fmt.Sprintf("%0250d", i)) }
	for i := 0; bpt.Height() < 4; i++ {
		bpt.AddRecord(key(i), nil, false)
	}
	// the smallest record under the second child of the root
	root := bpt.getNonLeafController(bpt.rootAddr)
	k := keyFactory{bpt.fileStorage}.ReadKeyAll(root.GetKey(1))
	bpt.DeleteRecord(k, false)
	wellFormed(t, bpt, "after removing a separator")
}
""", kind='bptree', helpers=['pkglib_bptree'])

TREE = """package main

import (
	"bytes"
	"errors"
	"fmt"
	"path/filepath"
	"os"
	"strings"

	"github.com/roy2220/fsm"
	"github.com/roy2220/plainkv/bptree"
)

func fatal(format string, args ...interface{}) {
	fmt.Printf("BROKEN: "+format+"\\n", args...)
	os.Exit(1)
}

func tree(n int, value string) *bptree.BPTree {
	fs := new(fsm.FileStorage).Init()
	if err := fs.Open(filepath.Join(os.Getenv("DEMO_DIR"), "x"), true); err != nil {
		panic(err)
	}
	t := new(bptree.BPTree).Init(fs)
	t.Create()
	for i := 0; i < n; i++ {
		t.AddRecord([]byte(fmt.Sprintf("%03d", i)), []byte(value), false)
	}
	return t
}

type limited struct {
	n     int
	after bool
}

var full = errors.New("full")

func (l *limited) Write(p []byte) (int, error) {
	if l.n < 0 {
		l.after = true
		return 0, full
	}
	if l.n -= len(p); l.n < 0 {
		return 0, full
	}
	return len(p), nil
}

func dump(t *bptree.BPTree) string {
	b := bytes.NewBuffer(nil)
	if t.Fprint(b) != nil {
		fatal("Fprint fails")
	}
	return b.String()
}

var _ = strings.Count
"""

seed('dump-error', 'C22', 'The writer fails while a leaf other than the first one is dumped',
 'An error that occurs in the dump of a child other than the first one ends the dump of its parent, but is not returned.',
 [(F, """prefix2, newLine2); err != nil {
				return err
			}
""", """prefix2, newLine2); err != nil {
				break
			}
""")], TREE + """
func main() {
	t := tree(400, "some value")
	n := len(dump(t))
	for i := 0; i < n; i += 50 {
		w := &limited{n: i}
		if err := t.Fprint(w); err != full || w.after {
			fatal("the writer fails after %d bytes of %d: %v", i, n, err)
		}
	}
}
""")

seed('dump-ascii', 'C22', 'A key or value with letters beyond ASCII in the last record of a leaf',
 'The last record of a leaf is quoted with escapes for everything beyond ASCII, unlike all others.',
 [(F, """"%s└─● %q=%q", newLine, key, value)""", """"%s└─● %+q=%+q", newLine, key, value)""")], TREE + """
func main() {
	t := tree(3, "caf\\u00e9")
	if s := dump(t); strings.Count(s, "\\"caf\\u00e9\\"") != 3 {
		fatal("the dump is\\n%s", s)
	}
}
""")

seed('dump-separator', 'C22', 'A separator of 257 bytes or more',
 'Of a long separator the part in the page is dumped, with the address of the external part, instead of the whole key.',
 [(F, """			key := keyFactory{bpt.fileStorage}.ReadKeyAll(nonLeafController.GetKey(i))
""", """			key := []byte(nonLeafController.GetKey(i))
""")], TREE + """
func main() {
	t := tree(0, "")
	for i := 0; i < 100; i++ {
		t.AddRecord([]byte(fmt.Sprintf("%03d", i)+strings.Repeat("k", 300)), nil, false)
	}
	s := dump(t)
	n := strings.Count(s, "k\\"\\n") // separators
	m := strings.Count(s, strings.Repeat("k", 300)+"\\"\\n")
	if n == 0 || n != m || strings.Count(s, strings.Repeat("k", 300)) != 100+n || n != t.NumberOfLeafs()-1 {
		fatal("%d of %d separators are complete", m, t.NumberOfLeafs()-1)
	}
}
""")
