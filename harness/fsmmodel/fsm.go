// Package fsm is a native twin of the engine's contract model of
// github.com/roy2220/fsm: it checks the documented contract of the file
// storage (accessors are invalid after the next allocation or release, only
// live spaces may be accessed or released) instead of managing a real file.
package fsm

import (
	"errors"
	"fmt"
	"sort"
	"syscall"
)

type space struct {
	addr    int64
	size    int
	aligned bool
	live    bool
	buf     []byte
	exposed bool
}

type storage struct {
	spaces              []*space
	primary, curPrimary int64
	open                bool
	base                int64
}

var (
	files  = map[string]*storage{}
	strict bool
	base   int64
	reuse  bool
)

// ModelStrict turns the trapping of stale accessors on or off.
func ModelStrict(on bool) { strict = on }

// ModelReuse lets allocations take released spaces of the same size.
func ModelReuse(on bool) { reuse = on }

// ModelBase sets the first address of storages created later.
func ModelBase(a int64) { base = a }

// ModelReset forgets every file.
func ModelReset() { files = map[string]*storage{}; strict = false; base = 0; reuse = false }

// ModelRemove removes a file.
func ModelRemove(f string) { delete(files, f) }

// ModelLiveSpaces lists the live spaces of a file.
func ModelLiveSpaces(f string) ([]int64, bool) {
	s := files[f]
	if s == nil {
		return nil, false
	}
	var r []int64
	for _, sp := range s.spaces {
		if sp.live {
			r = append(r, sp.addr)
		}
	}
	return r, true
}

// FileStorage represents a file storage.
type FileStorage struct {
	s     *storage
	state int // 1 initialised, 2 open, 3 closed
}

func (fs *FileStorage) Init() *FileStorage {
	fs.s, fs.state = nil, 1
	return fs
}

func (fs *FileStorage) Open(fileName string, createFileIfNotExists bool) error {
	if fs.state != 1 {
		panic("storage-misuse: Open on a storage that is not freshly initialised")
	}
	s := files[fileName]
	if s == nil {
		if !createFileIfNotExists {
			return errors.New("open: no such file")
		}
		s = &storage{primary: -1, base: base}
		files[fileName] = s
	}
	if s.open {
		panic("storage-misuse: the file is opened again before it has been closed")
	}
	s.open = true
	s.curPrimary = s.primary
	fs.s, fs.state = s, 2
	return nil
}

func (fs *FileStorage) st() *storage {
	if fs.state != 2 {
		panic("storage-misuse: storage used before it is opened or after it is closed")
	}
	return fs.s
}

func (fs *FileStorage) Close() error {
	s := fs.st()
	s.primary = s.curPrimary
	s.open = false
	s.invalidate()
	fs.state = 3
	return nil
}

func mem(n int) []byte {
	b, err := syscall.Mmap(-1, 0, (n+4095)&^4095, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(err)
	}
	return b
}

var dead [][]byte

// invalidate makes every accessor handed out so far stale.
func (s *storage) invalidate() {
	if !strict {
		return
	}
	for _, sp := range s.spaces {
		if !sp.exposed {
			continue
		}
		sp.exposed = false
		n := mem(sp.size)
		copy(n, sp.buf)
		syscall.Mprotect(sp.buf, syscall.PROT_NONE)
		dead = append(dead, sp.buf)
		sp.buf = n
	}
	for len(dead) > 20000 {
		syscall.Munmap(dead[0])
		dead = dead[1:]
	}
}

func (s *storage) find(addr int64) *space {
	i := sort.Search(len(s.spaces), func(i int) bool { return s.spaces[i].addr >= addr })
	if i < len(s.spaces) && s.spaces[i].addr == addr {
		return s.spaces[i]
	}
	return nil
}

func (fs *FileStorage) alloc(n int, aligned bool) (int64, []byte) {
	s := fs.st()
	if n <= 0 || n > 1<<24 {
		panic(fmt.Sprintf("storage-misuse: allocation of %d bytes", n))
	}
	next := s.base
	if k := len(s.spaces); k > 0 {
		l := s.spaces[k-1]
		next = l.addr + int64(l.size)
	}
	size := (n + 7) &^ 7
	if aligned {
		size = 4096
		for size < n {
			size *= 2
		}
		next = (next + int64(size) - 1) &^ (int64(size) - 1)
	} else {
		next = (next + 8 + 7) &^ 7
	}
	s.invalidate()
	if reuse {
		for i := len(s.spaces) - 1; i >= 0; i-- {
			if sp := s.spaces[i]; !sp.live && sp.size == size && sp.aligned == aligned {
				sp.live, sp.exposed, sp.buf = true, true, mem(size)
				for i := range sp.buf {
					sp.buf[i] = 0xA5
				}
				return sp.addr, sp.buf[:size:size]
			}
		}
	}
	sp := &space{addr: next, size: size, aligned: aligned, live: true, buf: mem(size), exposed: true}
	for i := range sp.buf {
		sp.buf[i] = 0xA5
	}
	s.spaces = append(s.spaces, sp)
	return next, sp.buf[:size:size]
}

func (fs *FileStorage) free(addr int64, aligned bool) {
	s := fs.st()
	sp := s.find(addr)
	if sp == nil || !sp.live || sp.aligned != aligned {
		panic(fmt.Sprintf("invalid-release: space %#x is not a live space of this kind", addr))
	}
	s.invalidate()
	sp.live = false
}

func (fs *FileStorage) access(addr int64, aligned bool) []byte {
	s := fs.st()
	sp := s.find(addr)
	if sp == nil || !sp.live || sp.aligned != aligned {
		panic(fmt.Sprintf("invalid-access: space %#x is not a live space of this kind", addr))
	}
	sp.exposed = true
	return sp.buf[:sp.size:sp.size]
}

func (fs *FileStorage) AllocateSpace(n int) (int64, []byte)        { return fs.alloc(n, false) }
func (fs *FileStorage) AllocateAlignedSpace(n int) (int64, []byte) { return fs.alloc(n, true) }
func (fs *FileStorage) FreeSpace(a int64)                          { fs.free(a, false) }
func (fs *FileStorage) FreeAlignedSpace(a int64)                   { fs.free(a, true) }
func (fs *FileStorage) AccessSpace(a int64) []byte                 { return fs.access(a, false) }
func (fs *FileStorage) AccessAlignedSpace(a int64) []byte          { return fs.access(a, true) }
func (fs *FileStorage) SetPrimarySpace(a int64)                    { fs.st().curPrimary = a }
func (fs *FileStorage) PrimarySpace() int64                        { return fs.st().curPrimary }

// Stats represents the stats about file space management.
type Stats struct {
	SpaceSize                 int
	UsedSpaceSize             int
	MappedSpaceSize           int
	AllocatedSpaceSize        int
	BlockAllocationBitmapSize int
	DismissedSpaceSize        int
}

func (fs *FileStorage) Stats() Stats {
	s := fs.st()
	al, end := 0, int64(0)
	for _, sp := range s.spaces {
		if sp.live {
			al += sp.size
		}
		end = sp.addr + int64(sp.size) - s.base
	}
	sz := 4096
	for int64(sz) < end {
		sz *= 2
	}
	return Stats{sz, int(end), sz, al, 64, 0}
}
