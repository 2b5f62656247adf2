package nd

import (
	"errors"
	"io/fs"
	"os"
	"sort"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
)

// Twins of standard library functions that rest on the runtime, on assembly or
// on reflection; the engine runs them instead (see engine/load.go). They act
// as in a program with one goroutine.

type pool struct {
	p    *sync.Pool
	free []any
}

var pools []*pool

func poolOf(p *sync.Pool) *pool {
	for _, x := range pools {
		if x.p == p {
			return x
		}
	}
	x := &pool{p: p}
	pools = append(pools, x)
	return x
}

func PoolGet(p *sync.Pool) any {
	x := poolOf(p)
	if n := len(x.free); n > 0 {
		v := x.free[n-1]
		x.free = x.free[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func PoolPut(p *sync.Pool, v any) {
	if v == nil {
		return
	}
	x := poolOf(p)
	x.free = append(x.free, v)
}

func AddInt32(p *int32, d int32) int32                               { *p += d; return *p }
func AddInt64(p *int64, d int64) int64                               { *p += d; return *p }
func AddUint32(p *uint32, d uint32) uint32                           { *p += d; return *p }
func AddUint64(p *uint64, d uint64) uint64                           { *p += d; return *p }
func AddUintptr(p *uintptr, d uintptr) uintptr                       { *p += d; return *p }
func LoadInt32(p *int32) int32                                       { return *p }
func LoadInt64(p *int64) int64                                       { return *p }
func LoadUint32(p *uint32) uint32                                    { return *p }
func LoadUint64(p *uint64) uint64                                    { return *p }
func LoadUintptr(p *uintptr) uintptr                                 { return *p }
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer                   { return *p }
func StoreInt32(p *int32, v int32)                                   { *p = v }
func StoreInt64(p *int64, v int64)                                   { *p = v }
func StoreUint32(p *uint32, v uint32)                                { *p = v }
func StoreUint64(p *uint64, v uint64)                                { *p = v }
func StoreUintptr(p *uintptr, v uintptr)                             { *p = v }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer)               { *p = v }
func SwapInt32(p *int32, v int32) int32                              { o := *p; *p = v; return o }
func SwapInt64(p *int64, v int64) int64                              { o := *p; *p = v; return o }
func SwapUint32(p *uint32, v uint32) uint32                          { o := *p; *p = v; return o }
func SwapUint64(p *uint64, v uint64) uint64                          { o := *p; *p = v; return o }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer { o := *p; *p = v; return o }

func CompareAndSwapInt32(p *int32, o, v int32) bool {
	if *p != o {
		return false
	}
	*p = v
	return true
}

func CompareAndSwapInt64(p *int64, o, v int64) bool {
	if *p != o {
		return false
	}
	*p = v
	return true
}

func CompareAndSwapUint32(p *uint32, o, v uint32) bool {
	if *p != o {
		return false
	}
	*p = v
	return true
}

func CompareAndSwapUint64(p *uint64, o, v uint64) bool {
	if *p != o {
		return false
	}
	*p = v
	return true
}

func CompareAndSwapPointer(p *unsafe.Pointer, o, v unsafe.Pointer) bool {
	if *p != o {
		return false
	}
	*p = v
	return true
}

type atomicValue struct {
	p *atomic.Value
	v any
}

var atomicValues []*atomicValue

func atomicValueOf(p *atomic.Value) *atomicValue {
	for _, x := range atomicValues {
		if x.p == p {
			return x
		}
	}
	x := &atomicValue{p: p}
	atomicValues = append(atomicValues, x)
	return x
}

func AtomicValueLoad(p *atomic.Value) any { return atomicValueOf(p).v }

func AtomicValueStore(p *atomic.Value, v any) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	atomicValueOf(p).v = v
}

func AtomicValueSwap(p *atomic.Value, v any) any {
	x := atomicValueOf(p)
	o := x.v
	x.v = v
	return o
}

type syncMap struct {
	p *sync.Map
	m map[any]any
}

var syncMaps []*syncMap

func syncMapOf(p *sync.Map) *syncMap {
	for _, x := range syncMaps {
		if x.p == p {
			return x
		}
	}
	x := &syncMap{p, map[any]any{}}
	syncMaps = append(syncMaps, x)
	return x
}

func SyncMapLoad(p *sync.Map, k any) (any, bool) {
	v, ok := syncMapOf(p).m[k]
	return v, ok
}

func SyncMapStore(p *sync.Map, k, v any) { syncMapOf(p).m[k] = v }

func SyncMapDelete(p *sync.Map, k any) { delete(syncMapOf(p).m, k) }

func SyncMapLoadOrStore(p *sync.Map, k, v any) (any, bool) {
	m := syncMapOf(p).m
	if o, ok := m[k]; ok {
		return o, true
	}
	m[k] = v
	return v, false
}

func SyncMapLoadAndDelete(p *sync.Map, k any) (any, bool) {
	m := syncMapOf(p).m
	v, ok := m[k]
	delete(m, k)
	return v, ok
}

func SyncMapSwap(p *sync.Map, k, v any) (any, bool) {
	m := syncMapOf(p).m
	o, ok := m[k]
	m[k] = v
	return o, ok
}

func SyncMapClear(p *sync.Map) { clear(syncMapOf(p).m) }

func SyncMapRange(p *sync.Map, f func(k, v any) bool) {
	for k, v := range syncMapOf(p).m {
		if !f(k, v) {
			return
		}
	}
}

func ErrorsIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		if x, ok := err.(interface{ Unwrap() []error }); ok {
			for _, e := range x.Unwrap() {
				if ErrorsIs(e, target) {
					return true
				}
			}
			return false
		}
		err = errors.Unwrap(err)
	}
	return target == nil
}

type byLess struct {
	x    any
	n    int
	less func(i, j int) bool
}

func (b byLess) Len() int           { return b.n }
func (b byLess) Less(i, j int) bool { return b.less(i, j) }
func (b byLess) Swap(i, j int)      { swapElems(b.x, i, j) }

func SortSlice(x any, less func(i, j int) bool)       { sort.Sort(byLess{x, sliceLen(x), less}) }
func SortSliceStable(x any, less func(i, j int) bool) { sort.Stable(byLess{x, sliceLen(x), less}) }
func SortSliceIsSorted(x any, less func(i, j int) bool) bool {
	return sort.IsSorted(byLess{x, sliceLen(x), less})
}

func swapElems(x any, i, j int) { panic(errNative) }
func sliceLen(x any) int        { panic(errNative) }

func IndexByte(b []byte, c byte) int {
	for i := range b {
		if b[i] == c {
			return i
		}
	}
	return -1
}

func IndexByteString(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func LastIndexByte(b []byte, c byte) int {
	for i := len(b) - 1; i >= 0; i-- {
		if b[i] == c {
			return i
		}
	}
	return -1
}

func CountByte(b []byte, c byte) int {
	n := 0
	for i := range b {
		if b[i] == c {
			n++
		}
	}
	return n
}

func CountByteString(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}

func BytesIndex(s, sep []byte) int {
	for i := 0; i+len(sep) <= len(s); i++ {
		if string(s[i:i+len(sep)]) == string(sep) {
			return i
		}
	}
	return -1
}

func StringsIndex(s, sep string) int {
	for i := 0; i+len(sep) <= len(s); i++ {
		if s[i:i+len(sep)] == sep {
			return i
		}
	}
	return -1
}

type fileInfo struct{ name string }

func (f fileInfo) Name() string       { return f.name }
func (f fileInfo) Size() int64        { return 1 << 20 }
func (f fileInfo) Mode() fs.FileMode  { return 0666 }
func (f fileInfo) ModTime() time.Time { return time.Time{} }
func (f fileInfo) IsDir() bool        { return false }
func (f fileInfo) Sys() any           { return nil }

type noFile struct{ name string }

func (e *noFile) Error() string { return e.name + ": no such file or directory" }

func OsStat(name string) (os.FileInfo, error) {
	if fileExists(name) {
		return fileInfo{name}, nil
	}
	return nil, &noFile{name}
}

func OsRemove(name string) error {
	if !fileExists(name) {
		return &noFile{name}
	}
	RemoveFile(name)
	return nil
}

func OsIsNotExist(err error) bool {
	if err == nil {
		return false
	}
	s, t := err.Error(), "no such file or directory"
	return len(s) >= len(t) && s[len(s)-len(t):] == t
}

func fileExists(name string) bool { panic(errNative) }
