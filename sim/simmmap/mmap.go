// Package simmmap stands in for github.com/edsrzf/mmap-go. A mapping is real
// memory filled from the simulated file, it follows changes of the file; pages
// beyond the end of the file and every page after Unmap are inaccessible, so
// that a use of them faults as it does in a real process.
package simmmap

import (
	"errors"
	"io"
	"syscall"
	"unsafe"

	"wpkverif/simos"
	"wpkverif/simrt"
)

const (
	RDONLY = 0
	RDWR   = 1 << iota
	COPY
	EXEC
)

const (
	ANON = 1 << iota
)

// MMap is a mapped region.
type MMap []byte

type region struct {
	mem []byte
	fs  *simos.FS
	id  int
	ino *simos.Inode
	off int64
	ro  bool
}

// fill reads the mapped bytes of the file.
func (r *region) fill() {
	syscall.Mprotect(r.mem, syscall.PROT_READ|syscall.PROT_WRITE)
	got := r.ino.ReadAt(r.mem, r.off)
	// beyond the last page of the file there is nothing
	clear(r.mem[got:])
	ok := (got + page - 1) / page * page
	if r.ro {
		syscall.Mprotect(r.mem, syscall.PROT_READ)
	}
	if ok < len(r.mem) {
		syscall.Mprotect(r.mem[ok:], syscall.PROT_NONE)
	}
}

func init() {
	simos.OnChange = func(i *simos.Inode, off, n int64) {
		for _, r := range live {
			if r.ino == i && (n < 0 || off < r.off+int64(len(r.mem)) && off+n > r.off) {
				r.fill()
			}
		}
	}
}

var live = map[uintptr]*region{}
var stale [][]byte

const page = 4096

// Map maps a whole file.
func Map(f *simos.File, prot, flags int) (MMap, error) { return MapRegion(f, -1, prot, flags, 0) }

// MapRegion maps a part of a file.
func MapRegion(f *simos.File, length int, prot, flags int, offset int64) (MMap, error) {
	if offset%page != 0 {
		return nil, errors.New("offset parameter must be a multiple of the system's page size")
	}
	if flags&ANON != 0 {
		return nil, errors.New("simmmap: anonymous mapping")
	}
	if length < 0 {
		fi, err := f.Stat()
		if err != nil {
			return nil, err
		}
		length = int(fi.Size())
	}
	if err := f.MapCall(offset, length); err != nil {
		return nil, err
	}
	if length == 0 || offset < 0 {
		return nil, syscall.EINVAL
	}
	n := (length + page - 1) / page * page
	if length < 0 || n < length || int64(n) > simrtMax() {
		return nil, syscall.ENOMEM
	}
	mem, err := syscall.Mmap(-1, 0, n, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		return nil, err
	}
	r := &region{mem: mem, fs: f.FS(), id: f.FS().AddMap(f.Name()), ino: f.Inode(), off: offset, ro: prot&(RDWR|COPY) == 0}
	r.fill()
	live[uintptr(unsafe.Pointer(&mem[0]))] = r
	return MMap(mem[:length]), nil
}

func simrtMax() int64 {
	if w := simrt.W; w != nil {
		return 1 << 30
	}
	return 1 << 30
}

// Unmap releases the region; like the original it leaves the slice nil.
func (m *MMap) Unmap() error {
	simrt.Point()
	b := *m
	*m = nil
	if len(b) == 0 {
		simos.Cur.Misuse = append(simos.Cur.Misuse, "unmap of no mapping")
		return syscall.EINVAL
	}
	p := uintptr(unsafe.Pointer(&b[0]))
	r := live[p]
	if r == nil {
		simos.Cur.Misuse = append(simos.Cur.Misuse, "unmap of unknown mapping")
		return syscall.EINVAL
	}
	simrt.Note2("munmap", "", int64(r.id), int64(len(b)))
	delete(live, p)
	r.fs.DelMap(r.id)
	syscall.Mprotect(r.mem, syscall.PROT_NONE)
	stale = append(stale, r.mem)
	return nil
}

// Lock is a stub.
func (m MMap) Lock() error { return nil }

// Unlock is a stub.
func (m MMap) Unlock() error { return nil }

// Flush is a stub.
func (m MMap) Flush() error { return nil }

// Reset gives back all memory at the end of an execution.
func Reset() {
	for p, r := range live {
		syscall.Munmap(r.mem)
		delete(live, p)
	}
	for _, m := range stale {
		syscall.Munmap(m)
	}
	stale = nil
}

var _ = io.EOF
