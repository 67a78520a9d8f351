// Package simos stands in for package os in the instrumented code: an
// in-memory file system whose every call is a scheduling point, is counted,
// can be made to fail, and whose changes are kept in a journal from which the
// state at any crash point is rebuilt.
package simos

import (
	"io/fs"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"wpkverif/simrt"
)

const pgsize = 4096

// Inode is a file or directory.
type Inode struct {
	Ino   int64
	dir   map[string]*Inode // nil for a file
	link  string            // target of a symbolic link
	size  int64
	pages map[int64]*[pgsize]byte
	mode  fs.FileMode
	atime int64
	mtime int64
	ctime int64
}

// Size returns the length of a file.
func (i *Inode) Size() int64 { return i.size }

func (i *Inode) readAt(b []byte, off int64) int {
	if off >= i.size {
		return 0
	}
	if int64(len(b)) > i.size-off {
		b = b[:i.size-off]
	}
	n := 0
	for n < len(b) {
		p, o := (off+int64(n))/pgsize, (off+int64(n))%pgsize
		m := int(pgsize - o)
		if m > len(b)-n {
			m = len(b) - n
		}
		if pg := i.pages[p]; pg != nil {
			copy(b[n:n+m], pg[o:])
		} else {
			clear(b[n : n+m])
		}
		n += m
	}
	return n
}

func (i *Inode) writeAt(b []byte, off int64) {
	n := 0
	for n < len(b) {
		p, o := (off+int64(n))/pgsize, (off+int64(n))%pgsize
		pg := i.pages[p]
		if pg == nil {
			pg = new([pgsize]byte)
			if i.pages == nil {
				i.pages = map[int64]*[pgsize]byte{}
			}
			i.pages[p] = pg
		}
		n += copy(pg[o:], b[n:])
	}
	if e := off + int64(len(b)); e > i.size {
		i.size = e
	}
	if OnChange != nil {
		OnChange(i, off, int64(len(b)))
	}
}

// OnChange is told about changed bytes of files (n < 0: the length changed),
// so that mappings show them.
var OnChange func(i *Inode, off, n int64)

func (i *Inode) truncate(size int64) {
	if OnChange != nil && size != i.size {
		defer OnChange(i, size, -1)
	}
	if size < i.size {
		for p := range i.pages {
			if p*pgsize >= size {
				delete(i.pages, p)
			}
		}
		if o := size % pgsize; o != 0 {
			if pg := i.pages[size/pgsize]; pg != nil {
				clear(pg[o:])
			}
		}
	}
	i.size = size
}

func (i *Inode) clone() *Inode {
	n := *i
	n.pages = make(map[int64]*[pgsize]byte, len(i.pages))
	for k, v := range i.pages {
		c := *v
		n.pages[k] = &c
	}
	if i.dir != nil {
		n.dir = make(map[string]*Inode, len(i.dir))
		for k, v := range i.dir {
			n.dir[k] = v.clone()
		}
	}
	return &n
}

// Rec is a journal entry.
type Rec struct {
	Kind string // create mkdir write trunc remove rename
	Path string
	To   string
	Ino  int64
	Off  int64
	Data []byte
	Op   int // harness operation that issued it
}

// Call describes one call to the simulated operating system.
type Call struct {
	Op, Nth int
	Task    int
	Kind    string
	Path    string
	Off     int64
	N       int
	Seq     int
}

// Fault is what goes wrong with a call.
type Fault struct {
	Kind  string // err, short, partial, full
	N     int
	Errno syscall.Errno
}

// FS is a simulated file system with its open handles and mappings.
type FS struct {
	root    *Inode
	nextIno int64
	nextH   int
	Open    map[int]*File
	Maps    map[int]string // open mappings
	nextMap int
	cwd     string

	Record  bool
	Journal []Rec
	Inject  func(*Call) *Fault
	OnWrite func(p string, ino, off int64, b []byte)
	Order   uint64 // determines in which order directories give their names
	Split   bool   // big writes are executed page by page
	Full    bool   // no space left
	Limited bool   // Space is what is left on the disk
	Space   int64
	OnFull  func(*Call) // told about a write that found the disk full
	NIO     int
	Kinds   map[string]int
	Fired   map[string]int
	Trace   []Call // every call, when Tracing
	Tracing bool
	Misuse  []string // double closes, use after close, double unmaps
	frozen  bool
}

// Cur is the file system the instrumented code works on.
var Cur = NewFS()

// NewFS makes an empty file system.
func NewFS() *FS {
	f := &FS{Open: map[int]*File{}, Maps: map[int]string{}, Kinds: map[string]int{}, Fired: map[string]int{}, cwd: "/work"}
	f.root = f.newInode(true)
	for _, d := range []string{"tmp", "work", "bin"} {
		f.root.dir[d] = f.newInode(true)
	}
	return f
}

func (f *FS) newInode(dir bool) *Inode {
	f.nextIno++
	i := &Inode{Ino: f.nextIno, mode: 0644}
	if dir {
		i.dir = map[string]*Inode{}
		i.mode = 0755 | fs.ModeDir
	}
	now := simrt.Tick(0)
	i.atime, i.mtime, i.ctime = now, now, now
	return i
}

// Clone copies the files (not the handles).
func (f *FS) Clone() *FS {
	n := NewFS()
	n.root = f.root.clone()
	n.nextIno = f.nextIno
	n.cwd, n.Order = f.cwd, f.Order
	return n
}

func (f *FS) abs(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = f.cwd + "/" + p
	}
	return path.Clean(p)
}

func (f *FS) look(p string) (*Inode, syscall.Errno) {
	_, i, e := f.resolve(p, true)
	return i, e
}

// resolve walks along a path, and through symbolic links. It gives the path
// without links also if only its last element is missing.
func (f *FS) resolve(p string, last bool) (string, *Inode, syscall.Errno) {
	p = f.abs(p)
	for hops := 0; ; hops++ {
		if p == "/" {
			return p, f.root, 0
		}
		if hops > 40 {
			return "", nil, syscall.ELOOP
		}
		i, next := f.root, ""
		l := strings.Split(p[1:], "/")
		for k, e := range l {
			if i.dir == nil {
				return "", nil, syscall.ENOTDIR
			}
			if i = i.dir[e]; i == nil {
				if k < len(l)-1 {
					p = ""
				}
				return p, nil, syscall.ENOENT
			}
			if i.link != "" && (last || k < len(l)-1) {
				next = i.link
				if next[0] != '/' {
					next = "/" + strings.Join(l[:k], "/") + "/" + next
				}
				next = path.Join(next, strings.Join(l[k+1:], "/"))
				break
			}
		}
		if next == "" {
			return p, i, 0
		}
		p = next
	}
}

// badpath models what the kernel refuses.
func badpath(p string) syscall.Errno {
	if p == "" {
		return syscall.ENOENT
	}
	if strings.IndexByte(p, 0) >= 0 {
		return syscall.EINVAL
	}
	for _, e := range strings.Split(p, "/") {
		if len(e) > 255 {
			return syscall.ENAMETOOLONG
		}
	}
	return 0
}

func (f *FS) parent(p string) (*Inode, string, syscall.Errno) {
	p = f.abs(p)
	d, e := f.look(path.Dir(p))
	if e != 0 {
		return nil, "", e
	}
	if d.dir == nil {
		return nil, "", syscall.ENOTDIR
	}
	return d, path.Base(p), 0
}

func (f *FS) rec(r Rec) {
	if f.Record {
		r.Op, _ = simrt.CurOp()
		f.Journal = append(f.Journal, r)
	}
}

// room decides how much of a write of n bytes at off fits on the disk.
func (f *FS) room(i *Inode, p string, off int64, n int) *Fault {
	grow := off + int64(n) - i.size
	if !f.Limited || grow <= 0 {
		return nil
	}
	if f.Space >= grow {
		f.Space -= grow
		return nil
	}
	k := n - int(grow-f.Space)
	if k < 0 {
		k = 0
	} else {
		f.Space = 0
	}
	f.Fired["full-write"]++
	simrt.Note2("full", p, off, int64(k))
	if f.OnFull != nil {
		op, _ := simrt.CurOp()
		f.OnFull(&Call{Op: op, Nth: -1, Kind: "write", Path: p, Off: off, N: n})
	}
	return &Fault{Kind: "full", N: k, Errno: syscall.ENOSPC}
}

// freed gives back what a truncation to size frees.
func (f *FS) freed(i *Inode, size int64) {
	if f.Limited && size < i.size {
		f.Space += i.size - size
	}
}

// call numbers a call to the operating system and decides whether it fails.
func (f *FS) call(kind, p string, off int64, n int) *Fault {
	simrt.Point()
	f.NIO++
	f.Kinds[kind]++
	op, nth := simrt.NextIO()
	simrt.Tick(int64(1000 + n/4))
	simrt.Spend(int64(20 + n/64))
	c := Call{Op: op, Nth: nth, Task: simrt.ID(), Kind: kind, Path: p, Off: off, N: n, Seq: f.NIO}
	if f.Tracing {
		f.Trace = append(f.Trace, c)
	}
	simrt.Note2(kind, p, off, int64(n))
	if f.Full && (kind == "write" || kind == "create" || kind == "mkdir") {
		f.Fired["full-"+kind]++
		return &Fault{Kind: "err", Errno: syscall.ENOSPC}
	}
	if f.Inject != nil {
		if ft := f.Inject(&c); ft != nil {
			f.Fired[ft.Kind+"-"+kind]++
			simrt.Note2("fault "+ft.Kind, kind, int64(ft.N), int64(ft.Errno))
			if ft.Errno == 0 {
				ft.Errno = syscall.EIO
			}
			return ft
		}
	}
	return nil
}

func perr(op, p string, e error) error { return &fs.PathError{Op: op, Path: p, Err: e} }

// --- set-up and inspection used by the harness: no faults, no events ---

// Put creates a file with the given content.
func (f *FS) Put(p string, b []byte) *Inode {
	d := f.dirs(path.Dir(f.abs(p)))
	i := f.newInode(false)
	i.writeAt(b, 0)
	d.dir[path.Base(p)] = i
	return i
}

func (f *FS) dirs(p string) *Inode {
	if p == "/" || p == "." {
		return f.root
	}
	d := f.dirs(path.Dir(p))
	n := d.dir[path.Base(p)]
	if n != nil && n.link != "" {
		n, _ = f.look(p)
	}
	if n == nil {
		n = f.newInode(true)
		d.dir[path.Base(p)] = n
	}
	return n
}

// Hide takes a file away until the returned function is called.
func (f *FS) Hide(p string) func() {
	d, n, e := f.parent(p)
	if e != 0 || d.dir[n] == nil {
		return func() {}
	}
	i := d.dir[n]
	delete(d.dir, n)
	return func() { d.dir[n] = i }
}

// Link makes a symbolic link.
func (f *FS) Link(p, target string) *Inode {
	i := f.Put(p, nil)
	i.link, i.mode, i.size = target, 0777|fs.ModeSymlink, int64(len(target))
	return i
}

// IsLink tells a symbolic link.
func (i *Inode) IsLink() bool { return i.link != "" }

// Dirs creates a directory and its parents.
func (f *FS) Dirs(p string) { f.dirs(f.abs(p)) }

// Get returns the content of a file.
func (f *FS) Get(p string) ([]byte, bool) {
	i, e := f.look(p)
	if e != 0 || i.dir != nil || i.size > 1<<28 {
		return nil, false
	}
	b := make([]byte, i.size)
	i.readAt(b, 0)
	return b, true
}

// Look returns the inode of a path.
func (f *FS) Look(p string) *Inode {
	i, e := f.look(p)
	if e != 0 {
		return nil
	}
	return i
}

// ReadAt reads without any simulation.
func (i *Inode) ReadAt(b []byte, off int64) int { return i.readAt(b, off) }

// WriteAt writes without any simulation.
func (i *Inode) WriteAt(b []byte, off int64) { i.writeAt(b, off) }

// Truncate cuts without any simulation.
func (i *Inode) Truncate(n int64) { i.truncate(n) }

// SetTimes sets the times of a file.
func (i *Inode) SetTimes(a, m, c int64) { i.atime, i.mtime, i.ctime = a, m, c }

// Times returns the times of a file.
func (i *Inode) Times() (a, m int64) { return i.atime, i.mtime }

// IsDir tells a directory.
func (i *Inode) IsDir() bool { return i.dir != nil }

// Walk lists every path below p in order.
func (f *FS) Walk(p string, fn func(p string, i *Inode)) {
	i, e := f.look(p)
	if e != 0 {
		return
	}
	walk(f.abs(p), i, fn)
}

func walk(p string, i *Inode, fn func(string, *Inode)) {
	fn(p, i)
	if i.dir == nil {
		return
	}
	for _, k := range names(i) {
		walk(path.Join(p, k), i.dir[k], fn)
	}
}

// order gives the names of a directory as the file system happens to store
// them.
func (f *FS) order(i *Inode) []string {
	l := names(i)
	if f.Order != 0 {
		sort.Slice(l, func(a, b int) bool { return simrt.MixStr(f.Order, l[a]) < simrt.MixStr(f.Order, l[b]) })
	}
	return l
}

func names(i *Inode) []string {
	l := make([]string, 0, len(i.dir))
	for k := range i.dir {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// Apply replays a journal entry; keep limits the bytes of a write that arrive.
func (f *FS) Apply(r *Rec, inos map[int64]*Inode, keep int) {
	switch r.Kind {
	case "create":
		d, b, e := f.parent(r.Path)
		if e == 0 {
			i := &Inode{Ino: r.Ino, mode: 0644}
			d.dir[b] = i
			inos[r.Ino] = i
			if f.nextIno < r.Ino {
				f.nextIno = r.Ino
			}
		}
	case "mkdir":
		d, b, e := f.parent(r.Path)
		if e == 0 {
			d.dir[b] = &Inode{Ino: r.Ino, mode: 0755 | fs.ModeDir, dir: map[string]*Inode{}}
		}
	case "write":
		if i := f.byIno(r, inos); i != nil {
			b := r.Data
			if keep >= 0 && keep < len(b) {
				b = b[:keep]
			}
			if len(b) > 0 {
				i.writeAt(b, r.Off)
			}
		}
	case "trunc":
		if i := f.byIno(r, inos); i != nil {
			i.truncate(r.Off)
		}
	case "remove":
		if d, b, e := f.parent(r.Path); e == 0 {
			delete(d.dir, b)
		}
	case "rename":
		if d, b, e := f.parent(r.Path); e == 0 {
			if i := d.dir[b]; i != nil {
				if d2, b2, e := f.parent(r.To); e == 0 {
					delete(d.dir, b)
					d2.dir[b2] = i
				}
			}
		}
	}
}

func (f *FS) byIno(r *Rec, inos map[int64]*Inode) *Inode {
	if i := inos[r.Ino]; i != nil {
		return i
	}
	var found *Inode
	walk("/", f.root, func(p string, i *Inode) {
		if i.Ino == r.Ino && i.dir == nil {
			found = i
		}
	})
	if found != nil {
		inos[r.Ino] = found
	}
	return found
}

// info is the simulated os.FileInfo.
type info struct {
	name string
	size int64
	mode fs.FileMode
	sys  syscall.Stat_t
}

func (f *info) Name() string               { return f.name }
func (f *info) Size() int64                { return f.size }
func (f *info) Mode() fs.FileMode          { return f.mode }
func (f *info) ModTime() time.Time         { return time.Unix(f.sys.Mtim.Sec, f.sys.Mtim.Nsec) }
func (f *info) IsDir() bool                { return f.mode.IsDir() }
func (f *info) Sys() any                   { return &f.sys }
func (f *info) Type() fs.FileMode          { return f.mode.Type() }
func (f *info) Info() (fs.FileInfo, error) { return f, nil }
func (f *info) String() string             { return fs.FormatFileInfo(f) }

func (i *Inode) info(name string) *info {
	r := &info{name: name, size: i.size, mode: i.mode}
	r.sys.Ino = uint64(i.Ino)
	r.sys.Size = i.size
	r.sys.Nlink = 1
	r.sys.Atim = syscall.NsecToTimespec(i.atime)
	r.sys.Mtim = syscall.NsecToTimespec(i.mtime)
	r.sys.Ctim = syscall.NsecToTimespec(i.ctime)
	r.sys.Mode = uint32(i.mode.Perm()) | syscall.S_IFREG
	if i.link != "" {
		r.sys.Mode = 0777 | syscall.S_IFLNK
	}
	if i.dir != nil {
		r.sys.Mode = uint32(i.mode.Perm()) | syscall.S_IFDIR
		r.size = 4096
	}
	return r
}
