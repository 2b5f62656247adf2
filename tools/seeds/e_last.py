H, I = 'hashmap/hashmap.go', 'bptree/iterator.go'

CUR = '''type Cursor struct {
'''
SCAN = '''package main

import (
	"fmt"

	"github.com/roy2220/plainkv"
)

// scan reads some items, changes the dictionary and reads the rest. Items that
// are there all the time must be seen.
func main() {
	for n := 1; n < 400; n += 13 {
		for some := 1; some <= n; some += 1 + n/5 {
			for add := 0; add < 40; add += 3 {
				scan(n, some, add)
			}
		}
	}
}

func scan(n, some, add int) {
	name := fmt.Sprintf("%d.%d.%d", n, some, add)
	d := openD(name)
	defer d.Close()
	for i := 0; i < n; i++ {
		d.Set([]byte(fmt.Sprintf("key %d", i)), []byte("value"), false)
	}
	var c plainkv.DictCursor
	seen := map[string]bool{}
	for i := 0; i < some; i++ {
		k, _, ok := d.Scan(&c)
		if !ok {
			fatal("%s: the scan ends after %d items", name, i)
		}
		seen[string(k)] = true
	}
	for i := 0; i < add; i++ {
		CHANGE
	}
	for {
		k, _, ok := d.Scan(&c)
		if !ok {
			break
		}
		seen[string(k)] = true
	}
	for i := 0; i < n; i++ {
		if k := fmt.Sprintf("key %d", i); !seen[k] {
			if _, ok := d.Test([]byte(k), false); ok {
				fatal("%s: %s is not seen", name, k)
			}
		}
	}
}
'''

seed('dict-scan-fixed-count', 'C19', 'A scan in which the table gets a slot after the first step',
 'A scan ends at the number of slots that the table had at the first step: items that a later split moves to a new slot are not seen.',
 [(H, CUR, CUR + '	slotCount int\n'), (H, '''	for cursor.slotIndex < hm.slotCount {
''', '''	if cursor.slotIndex == 0 {
		cursor.slotCount = hm.slotCount
	}

	for cursor.slotIndex < cursor.slotCount && cursor.slotIndex < hm.slotCount {
''')], SCAN.replace('CHANGE', 'd.Set([]byte(fmt.Sprintf("new %d", i)), []byte("value"), false)'), helpers=['lib'])

seed('dict-scan-count', 'C19', 'A scan during which items are added to slots still to come',
 'A scan ends after as many items as there were at the first step: with items added in between the last ones are not seen.',
 [(H, CUR, CUR + '	rest      int\n'), (H, '''	for cursor.slotIndex < hm.slotCount {
''', '''	if cursor.slotIndex == 0 {
		cursor.rest = hm.itemCount
	}

	for cursor.slotIndex < hm.slotCount && cursor.rest > 0 {
'''), (H, '''			cursor.itemIndex = 1
			return''', '''			cursor.itemIndex = 1
			cursor.rest -= len(cursor.items)
			return''')], SCAN.replace('CHANGE', 'd.Set([]byte(fmt.Sprintf("new %d", i)), []byte("value"), false)'), helpers=['lib'])

seed('dict-dirs-shrink-early', 'C13', 'More than 9 slot directories in an array of 16 (some 60000 items), of which one is removed',
 'The array of slot directories shrinks although more than a quarter of it is in use: the addresses of the last directories are lost.',
 [(H, 'hm.slotDirCount == 1<<(hm.maxSlotDirCountShift-2)', 'hm.slotDirCount >= 1<<(hm.maxSlotDirCountShift-2)')], '''package main

import "fmt"

func main() {
	d := openD("d")
	m := map[string]string{}
	const n = 74000 // more than 10 directories of 4096 slots
	for i := 0; i < n; i++ {
		k, v := fmt.Sprintf("key %d", i), fmt.Sprint(i)
		d.Set([]byte(k), []byte(v), false)
		m[k] = v
	}
	for i := 0; i < n/4*3; i++ {
		k := fmt.Sprintf("key %d", i)
		old, ok := d.Clear([]byte(k), true)
		if !ok || string(old) != m[k] {
			fatal("%q: %q %v", k, old, ok)
		}
		delete(m, k)
	}
	checkD(d, m, "after most of the items are removed")
	d.Close()
}
''', helpers=['lib'])

seed('od-iterator-leaf', 'C09', 'A hash map in the same file that makes the file grow while the tree is iterated',
 'An iterator keeps the bytes of its leaf from one step to the next: they are gone when another structure in the file lets the storage map the file anew.',
 [(I, '''	isAtEnd            bool
}''', '''	isAtEnd            bool
	leafAddr           int64
	leaf               leafController
}'''), (I, '''func (i *iterator) makeCurrentLeafController() leafController {
''', '''func (i *iterator) makeCurrentLeafController() leafController {
	if i.leaf != nil && i.leafAddr == i.currentLeafAddr {
		return i.leaf
	}

	i.leafAddr = i.currentLeafAddr
	i.leaf = i.makeLeafController()
	return i.leaf
}

func (i *iterator) makeLeafController() leafController {
''')], '''package main

import (
	"fmt"

	"github.com/roy2220/fsm"
	"github.com/roy2220/plainkv/bptree"
	"github.com/roy2220/plainkv/hashmap"
)

func main() {
	fs := new(fsm.FileStorage).Init()
	if err := fs.Open(path("f"), true); err != nil {
		fatal("%v", err)
	}
	t := new(bptree.BPTree).Init(fs)
	t.Create()
	h := new(hashmap.HashMap).Init(fs)
	h.Create()
	for i := 0; i < 1000; i++ {
		t.AddRecord([]byte(fmt.Sprintf("%04d", i)), []byte(fmt.Sprintf("value %d", i)), false)
	}
	it := t.SearchForward(bptree.MinKey, bptree.MaxKey)
	for i := 0; i < 1000; i++ {
		k, v, err := it.ReadRecordAll()
		if err != nil || string(k) != fmt.Sprintf("%04d", i) || string(v) != fmt.Sprintf("value %d", i) {
			fatal("record %d is %q %q %v", i, k, v, err)
		}
		for j := 0; j < 40; j++ {
			h.AddItem([]byte(fmt.Sprintf("key %d %d", i, j)), make([]byte, 1000), false)
		}
		it.Advance()
	}
	if !it.IsAtEnd() {
		fatal("more than 1000 records")
	}
	h.Destroy()
	t.Destroy()
	fs.Close()
}
''', helpers=['lib'])
