H = 'hashmap/hashmap.go'
P = 'hashmap/internal/protocol/hashmap.pb.go'

seed('dict-split-24', 'C13', 'A key of exactly 24 bytes in a slot which is split',
 'When a slot is split, the stored hash is used for keys of exactly 24 bytes, for which none is stored: they stay in the lower slot and are not found any more.',
 [(H, '''		if len(item.Key) <= maxShortKeySize {
			// cost of optimization''', '''		if len(item.Key) < maxShortKeySize {
			// cost of optimization''')],
'''package main

import "fmt"

func main() {
	d := openD("x")
	m := map[string]string{}
	for i := 0; i < 60; i++ {
		k := fmt.Sprintf("%024d", i)
		d.Set([]byte(k), []byte("v"), false)
		m[k] = "v"
	}
	checkD(d, m, "24 byte keys")
}
''', helpers=['lib'])

seed('dict-sum-only', 'C11', 'Two keys of more than 24 bytes with the same 64-bit hash',
 'Keys of more than 24 bytes are taken to be equal when their hashes are.',
 [(H, '''	if len(item.Key) > maxShortKeySize && item.KeySum != keySum {
		return false
	}
''', '''	if len(item.Key) > maxShortKeySize {
		return len(item.Key) == len(key) && item.KeySum == keySum
	}
''')],
'''package main

import "encoding/hex"

func main() {
	a, _ := hex.DecodeString("612d6c6f6e672d6b65792d7368617265642d7072656669782d535773716d72df1c7b4e15e6")
	b, _ := hex.DecodeString("612d6c6f6e672d6b65792d7368617265642d7072656669782d544241737f9ad864de4e22fb")
	d := openD("x")
	d.Set(a, []byte("a"), false)
	if _, ok := d.Test(b, false); ok {
		fatal("an absent key is found")
	}
	d.Set(b, []byte("b"), false)
	checkD(d, map[string]string{string(a): "a", string(b): "b"}, "twins")
}
''', helpers=['lib'])

seed('dict-scan-restart', 'C12', 'Scan is called again after it has reported the end',
 'Reaching the end resets the cursor, so the next call starts over instead of reporting the end again.',
 [(H, '''			return item.Key, item.Value, true
		}
	}

	return nil, nil, false
}
''', '''			return item.Key, item.Value, true
		}
	}

	*cursor = Cursor{}
	return nil, nil, false
}
''')],
'''package main

import "github.com/roy2220/plainkv"

func main() {
	d := openD("x")
	d.Set([]byte("a"), []byte("v"), false)
	var c plainkv.DictCursor
	if _, _, ok := d.Scan(&c); !ok {
		fatal("nothing scanned")
	}
	for i := 0; i < 3; i++ {
		if _, _, ok := d.Scan(&c); ok {
			fatal("the scan goes on after its end")
		}
	}
}
''', helpers=['lib'])

seed('dict-scan-shared', 'C12', 'Two scans of the same dictionary are interleaved',
 'All scans share one buffer for the slot being scanned, so a step of one scan garbles the items another one still has to yield.',
 [(H, '''		slot.Bin = copyBytes(slot.Bin)
		cursor.items = unpackSlot(slot)
''', '''		hm.scanBuffer = append(hm.scanBuffer[:0], slot.Bin...)
		slot.Bin = hm.scanBuffer
		cursor.items = unpackSlot(slot)
'''), (H, '''	itemCount            int
	payloadSize          int
}
''', '''	itemCount            int
	payloadSize          int
	scanBuffer           []byte
}
''')],
'''package main

import (
	"fmt"

	"github.com/roy2220/plainkv"
)

func main() {
	d := openD("x")
	m := map[string]string{}
	for i := 0; i < 100; i++ {
		k := fmt.Sprint("k", i)
		d.Set([]byte(k), []byte(k), false)
		m[k] = k
	}
	var a, b plainkv.DictCursor
	for i := 0; i < 30; i++ {
		d.Scan(&b)
	}
	for {
		k, v, ok := d.Scan(&a)
		if !ok {
			return
		}
		if w, ok := m[string(k)]; !ok || w != string(v) {
			fatal("scan yields %q, %q", k, v)
		}
		d.Scan(&b)
	}
}
''', helpers=['lib'])

seed('dict-leak-dir', 'C15', 'The table shrinks from more than two slot directories to one',
 'A slot directory which is not needed any more is not released when only one remains.',
 [(H, '''	hm.fileStorage.FreeSpace(slotDirAddr)
	hm.slotDirCount--
''', '''	hm.slotDirCount--

	if hm.slotDirCount >= 2 {
		hm.fileStorage.FreeSpace(slotDirAddr)
	}
''')],
'''package hashmap

import "testing"

func TestZZDemo(t *testing.T) {
	hm, fs := newMap(t, "x")
	defer fs.Close()
	n := 0
	for ; hm.NumberOfSlotDirs() < 3; n++ {
		hm.AddItem(num(n), nil, false)
	}
	for i := 0; i < n; i++ {
		hm.DeleteItem(num(i), false)
	}
	hm.Destroy()
	if n := fs.Stats().AllocatedSpaceSize; n != 0 {
		t.Fatalf("%d bytes stay allocated", n)
	}
}
''', kind='hashmap', helpers=['pkglib_hashmap'])

seed('dict-hysteresis', 'C13', 'The number of slots falls below a multiple of 4096 and rises again',
 'A slot directory is released as soon as its last slot is removed, without the hysteresis of one directory.',
 [(H, 'hm.slotCount == ((hm.slotDirCount-2)<<slotDirLengthShift)+1 {', 'hm.slotCount == (hm.slotDirCount-1)<<slotDirLengthShift {')],
'''package hashmap

import "testing"

func TestZZDemo(t *testing.T) {
	hm, fs := newMap(t, "x")
	defer fs.Close()
	n := 0
	for ; hm.NumberOfSlotDirs() < 2; n++ {
		hm.AddItem(num(n), nil, false)
	}
	for i := 0; hm.NumberOfSlots() > 4000; i++ {
		hm.DeleteItem(num(i), false)
	}
	if hm.NumberOfSlotDirs() != 2 {
		t.Fatal("the second directory is released at once")
	}
}
''', kind='hashmap', helpers=['pkglib_hashmap'])

seed('dict-info-16', 'C14', 'A table of more than 65535 slots is closed and reopened',
 'The number of slots is stored in 16 bits.',
 [(H, 'SlotCount:            int64(hm.slotCount),', 'SlotCount:            int64(uint16(hm.slotCount)),')],
'''package main

import "fmt"

func main() {
	d := openD("x")
	m := map[string]string{}
	for i := 0; i < 110000; i++ {
		k := fmt.Sprint(i)
		d.Set([]byte(k), []byte("v"), false)
		m[k] = "v"
	}
	n := d.Stats().NumberOfHashSlots
	d.Close()
	d = openD("x")
	if m := d.Stats().NumberOfHashSlots; m != n || n < 65536 {
		fatal("%d slots before closing, %d after reopening", n, m)
	}
	checkD(d, m, "reopened")
}
''', helpers=['lib'])

seed('dict-payload-noreturn', 'C16', 'A value is replaced by a longer or shorter one without asking for the old one',
 'The payload size is adjusted only when the replaced value is returned.',
 [(H, '''	hm.payloadSize += len(value) - len(item.Value)

	if returnReplacedValue {
		value, item.Value''', '''
	if returnReplacedValue {
		hm.payloadSize += len(value) - len(item.Value)
		value, item.Value''')],
'''package main

func main() {
	d := openD("x")
	d.Set([]byte("a"), []byte("value"), false)
	d.Set([]byte("a"), []byte("v"), false)
	if n := d.Stats().PayloadSize; n != 2 {
		fatal("payload size %d", n)
	}
}
''', helpers=['lib'])

seed('dict-keysize-14', 'C17', 'A key of 16384 bytes or more',
 'The length of a key is decoded from at most two bytes, so a slot with a key of 16384 bytes or more is taken for corrupted.',
 [(P, '''			m.KeySize = 0
			for shift := uint(0); ; shift += 7 {
				if shift >= 64 {''', '''			m.KeySize = 0
			for shift := uint(0); ; shift += 7 {
				if shift >= 14 {''')],
'''package main

func main() {
	defer func() {
		if e := recover(); e != nil {
			fatal("%v", e)
		}
	}()
	d := openD("x")
	m := map[string]string{}
	for _, n := range []int{127, 128, 16383, 16384} {
		d.Set(rep('k', n), []byte("v"), false)
		m[string(rep('k', n))] = "v"
		checkD(d, m, "long keys")
	}
}
''', helpers=['lib'])

seed('dict-alias-removed', 'C09', 'The table shrinks by a slot which is not empty and the mapping moves',
 'The items of a removed slot are read from its released space.',
 [(H, '''	slot := hm.loadSlot(slotAddr)
	slot.Bin = copyBytes(slot.Bin)
	hm.eraseSlot(slotAddr)
''', '''	slot := hm.loadSlot(slotAddr)
	hm.eraseSlot(slotAddr)
''')],
'''package main

import "fmt"

func main() {
	for size := 1; size < 3000000; size = size*3 + 1 {
		name := fmt.Sprint("x", size)
		d := openD(name)
		m := map[string]string{}
		for i := 0; i < 12; i++ {
			k := fmt.Sprint("k", i)
			v := string(rep(byte('a'+i), size))
			d.Set([]byte(k), []byte(v), false)
			m[k] = v
		}
		for i := 0; i < 12; i++ {
			k := fmt.Sprint("k", i)
			d.Clear([]byte(k), false)
			delete(m, k)
			checkD(d, m, name)
		}
		d.Close()
	}
}
''', helpers=['lib'])

seed('dict-shrink-once', 'C13', 'A removal after which the load factor is still too low with one slot less',
 'The table shrinks by at most one slot per removal, so the load factor may stay below half of the golden ratio.',
 [(H, 'for hm.slotCount >= 2 && hm.loadFactor() < minLoadFactor {', 'if hm.slotCount >= 2 && hm.loadFactor() < minLoadFactor {')],
'''package hashmap

import "testing"

func TestZZDemo(t *testing.T) {
	hm, fs := newMap(t, "x")
	defer fs.Close()
	for i := 0; i < 1000; i++ {
		hm.AddItem(num(i), nil, false)
	}
	for i := 0; i < 1000; i++ {
		hm.DeleteItem(num(i), false)
		if hm.NumberOfSlots() >= 2 && float64(hm.NumberOfItems())/float64(hm.NumberOfSlots()) < minLoadFactor {
			t.Fatalf("%d items in %d slots", hm.NumberOfItems(), hm.NumberOfSlots())
		}
	}
}
''', kind='hashmap', helpers=['pkglib_hashmap'])

seed('dict-get-alias', 'C10', 'The caller writes to a value returned by Test, or keeps it while the dictionary changes',
 'Test returns the stored bytes themselves instead of a copy.',
 [(H, '''	item := &items.Value[i]
	value := copyBytes(item.Value)
	return value
''', '''	return items.Value[i].Value
''')],
'''package main

func main() {
	d := openD("x")
	d.Set([]byte("a"), []byte("value"), false)
	v, _ := d.Test([]byte("a"), true)
	v[0] = 'X'
	if v, _ := d.Test([]byte("a"), true); string(v) != "value" {
		fatal("the stored value is now %q", v)
	}
}
''', helpers=['lib'])

seed('dict-last-size', 'C17', 'A value of more than 65535 bytes which is not the last one of its slot',
 'The length of a value which is not the last one in its slot is stored in 16 bits.',
 [(H, 'itemInfo.ValueSize = int64(len(item.Value))', 'itemInfo.ValueSize = int64(uint16(len(item.Value)))')],
'''package main

func main() {
	d := openD("x")
	m := map[string]string{}
	for i := byte(0); i < 12; i++ {
		d.Set([]byte{i}, rep(i, 70000), false)
		m[string([]byte{i})] = string(rep(i, 70000))
		checkD(d, m, "large values")
	}
}
''', helpers=['lib'])

seed('dict-merge-tail', 'C11', 'Two slots are merged and the one removed holds at least two items more than the other',
 'When two slots are merged and the removed one holds more items, those beyond the length of the other one are taken from the wrong position.',
 [(H, 'copy(items[n<<1:], items1[n:])', 'copy(items[n<<1:], items1[n1-(n1-n+n&1):])')],
'''package main

import (
	"fmt"
	"math/rand"
)

func main() {
	r := rand.New(rand.NewSource(1))
	d := openD("x")
	m := map[string]string{}
	for i := 0; i < 300; i++ {
		k := fmt.Sprint("k", i)
		d.Set([]byte(k), []byte(k), false)
		m[k] = k
	}
	defer func() {
		if e := recover(); e != nil {
			fatal("%v", e)
		}
	}()
	for _, i := range r.Perm(300) {
		k := fmt.Sprint("k", i)
		d.Clear([]byte(k), false)
		delete(m, k)
		checkD(d, m, "shrinking")
	}
}
''', helpers=['lib'])

seed('dict-dirs-shrink', 'C13', 'More than eight slot directories are needed, so the array of directories is reallocated',
 'When the array of slot directories is reallocated, the address of its last directory is not copied.',
 [(H, '''	buffer2 := make([]byte, len(buffer1))
	copy(buffer2, buffer1)
	hm.fileStorage.FreeSpace(hm.slotDirsAddr)
''', '''	buffer2 := make([]byte, 8<<uint(hm.maxSlotDirCountShift)-8)
	copy(buffer2, buffer1)
	hm.fileStorage.FreeSpace(hm.slotDirsAddr)
''')],
'''package hashmap

import "testing"

func TestZZDemo(t *testing.T) {
	hm, fs := newMap(t, "x")
	defer fs.Close()
	n := 0
	for ; hm.NumberOfSlotDirs() < 9; n++ {
		hm.AddItem(num(n), nil, false)
	}
	for i := 0; i < n; i++ {
		if _, ok := hm.HasItem(num(i), false); !ok {
			t.Fatal("an item is lost")
		}
	}
}
''', kind='hashmap', helpers=['pkglib_hashmap'])
