package simos

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"wpkverif/simrt"
)

type (
	FileInfo     = os.FileInfo
	FileMode     = os.FileMode
	DirEntry     = os.DirEntry
	PathError    = os.PathError
	SyscallError = os.SyscallError
	LinkError    = os.LinkError
	Signal       = os.Signal
)

const (
	O_RDONLY = os.O_RDONLY
	O_WRONLY = os.O_WRONLY
	O_RDWR   = os.O_RDWR
	O_APPEND = os.O_APPEND
	O_CREATE = os.O_CREATE
	O_EXCL   = os.O_EXCL
	O_SYNC   = os.O_SYNC
	O_TRUNC  = os.O_TRUNC

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2

	ModeDir        = os.ModeDir
	ModeAppend     = os.ModeAppend
	ModeExclusive  = os.ModeExclusive
	ModeTemporary  = os.ModeTemporary
	ModeSymlink    = os.ModeSymlink
	ModeDevice     = os.ModeDevice
	ModeNamedPipe  = os.ModeNamedPipe
	ModeSocket     = os.ModeSocket
	ModeSetuid     = os.ModeSetuid
	ModeSetgid     = os.ModeSetgid
	ModeCharDevice = os.ModeCharDevice
	ModeSticky     = os.ModeSticky
	ModeIrregular  = os.ModeIrregular
	ModeType       = os.ModeType
	ModePerm       = os.ModePerm

	PathSeparator     = os.PathSeparator
	PathListSeparator = os.PathListSeparator
	DevNull           = os.DevNull
)

var (
	ErrInvalid          = os.ErrInvalid
	ErrPermission       = os.ErrPermission
	ErrExist            = os.ErrExist
	ErrNotExist         = os.ErrNotExist
	ErrClosed           = os.ErrClosed
	ErrNoDeadline       = os.ErrNoDeadline
	ErrDeadlineExceeded = os.ErrDeadlineExceeded
	ErrProcessDone      = os.ErrProcessDone

	// Args is the simulated command line.
	Args = []string{"/bin/tool"}

	// Exe is the path of the running program, if the system tells it.
	Exe = "/bin/tool"

	Stdin  = &File{name: "/dev/stdin", std: true}
	Stdout = &File{name: "/dev/stdout", std: true}
	Stderr = &File{name: "/dev/stderr", std: true}

	// Env is the simulated environment.
	Env = map[string]string{"HOME": "/work", "TMPDIR": "/tmp"}

	Interrupt = os.Interrupt
	Kill      = os.Kill
)

func IsExist(err error) bool       { return os.IsExist(err) }
func IsNotExist(err error) bool    { return os.IsNotExist(err) }
func IsPermission(err error) bool  { return os.IsPermission(err) }
func IsTimeout(err error) bool     { return os.IsTimeout(err) }
func IsPathSeparator(c uint8) bool { return c == '/' }
func SameFile(a, b FileInfo) bool {
	x, _ := a.(*info)
	y, _ := b.(*info)
	return x != nil && y != nil && x.sys.Ino == y.sys.Ino
}
func Getpid() int               { return 4242 }
func Getppid() int              { return 1 }
func Getuid() int               { return 1000 }
func Geteuid() int              { return 1000 }
func Getgid() int               { return 1000 }
func Getpagesize() int          { return 4096 }
func Hostname() (string, error) { return "simhost", nil }
func Executable() (string, error) {
	if Exe == "" {
		return "", ErrNotExist
	}
	return Exe, nil
}
func TempDir() string {
	if dir := Env["TMPDIR"]; dir != "" {
		return dir
	}
	return "/tmp"
}
func UserHomeDir() (string, error)   { return "/work", nil }
func UserCacheDir() (string, error)  { return "/tmp", nil }
func UserConfigDir() (string, error) { return "/work", nil }
func Getwd() (string, error)         { return Cur.cwd, nil }
func Exit(code int)                  { panic(simrt.ExitPanic{Code: code}) }
func Getenv(k string) string         { return Env[k] }
func LookupEnv(k string) (string, bool) {
	v, ok := Env[k]
	return v, ok
}
func Setenv(k, v string) error { Env[k] = v; return nil }
func Unsetenv(k string) error  { delete(Env, k); return nil }
func Clearenv()                { Env = map[string]string{} }
func Environ() (l []string) {
	for k, v := range Env {
		l = append(l, k+"="+v)
	}
	sort.Strings(l)
	return
}
func ExpandEnv(s string) string                     { return os.Expand(s, Getenv) }
func Expand(s string, m func(string) string) string { return os.Expand(s, m) }
func NewSyscallError(s string, e error) error       { return os.NewSyscallError(s, e) }

// File is a simulated open file.
type File struct {
	fs     *FS
	id     int
	ino    *Inode
	name   string
	off    int64
	flag   int
	closed bool
	std    bool
	dirpos int
}

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

// OpenFile opens a simulated file.
func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	f := Cur
	kind := "open"
	i, e := f.look(name)
	if be := badpath(name); be != 0 {
		i, e = nil, be
	}
	if e == syscall.ENOENT && flag&O_CREATE != 0 {
		kind = "create"
	}
	if ft := f.call(kind, name, 0, flag); ft != nil {
		return nil, perr("open", name, ft.Errno)
	}
	i, e = f.look(name)
	if be := badpath(name); be != 0 {
		i, e = nil, be
	}
	acc := flag & (O_RDONLY | O_WRONLY | O_RDWR)
	switch {
	case e == 0 && flag&(O_CREATE|O_EXCL) == O_CREATE|O_EXCL:
		return nil, perr("open", name, syscall.EEXIST)
	case e == 0 && i.dir != nil && acc != O_RDONLY:
		return nil, perr("open", name, syscall.EISDIR)
	case e == 0 && i.dir == nil && strings.HasSuffix(name, "/"):
		return nil, perr("open", name, syscall.ENOTDIR)
	case e == syscall.ENOENT && flag&O_CREATE != 0 && !strings.HasSuffix(name, "/"):
		real, _, _ := f.resolve(name, true)
		if real == "" {
			return nil, perr("open", name, syscall.ENOENT)
		}
		d, b, e := f.parent(real)
		if e != 0 {
			return nil, perr("open", name, e)
		}
		i = f.newInode(false)
		i.mode = perm.Perm()
		d.dir[b] = i
		f.rec(Rec{Kind: "create", Path: real, Ino: i.Ino})
	case e != 0:
		return nil, perr("open", name, e)
	case flag&O_TRUNC != 0 && i.dir == nil && acc != O_RDONLY:
		f.freed(i, 0)
		i.truncate(0)
		f.rec(Rec{Kind: "trunc", Path: f.abs(name), Ino: i.Ino})
	}
	f.nextH++
	h := &File{fs: f, id: f.nextH, ino: i, name: name, flag: flag}
	f.Open[h.id] = h
	return h, nil
}

func (f *File) bad(op string) error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		f.fs.Misuse = append(f.fs.Misuse, op+" of closed file "+f.name)
		return perr(op, f.name, ErrClosed)
	}
	return nil
}

// Name returns the name the file was opened with.
func (f *File) Name() string { return f.name }

// Fd returns the handle number.
func (f *File) Fd() uintptr { return uintptr(f.id) }

// Path is used by the harness.
func (f *File) Path() string { return f.fs.abs(f.name) }

func (f *File) Read(b []byte) (int, error) {
	if f != nil && f.std {
		return 0, io.EOF
	}
	if err := f.bad("read"); err != nil {
		return 0, err
	}
	var ft *Fault
	if len(b) > 0 { // the system fails no empty transfer
		ft = f.fs.call("read", f.name, f.off, len(b))
	}
	if f.closed {
		return 0, perr("read", f.name, ErrClosed)
	}
	if f.ino.dir != nil {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if f.flag&O_WRONLY != 0 {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if ft != nil {
		switch ft.Kind {
		case "short":
			if n := max(1, ft.N%len(b)); n < len(b) {
				b = b[:n]
			}
		default:
			return 0, perr("read", f.name, ft.Errno)
		}
	}
	n := f.ino.readAt(b, f.off)
	f.off += int64(n)
	f.ino.atime = simrt.Tick(0)
	if n == 0 {
		return 0, io.EOF
	}
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.bad("read"); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, perr("readat", f.name, errors.New("negative offset"))
	}
	var ft *Fault
	if len(b) > 0 { // the system fails no empty transfer
		ft = f.fs.call("read", f.name, off, len(b))
	}
	if f.closed {
		return 0, perr("read", f.name, ErrClosed)
	}
	if f.ino.dir != nil {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if f.flag&O_WRONLY != 0 {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	if ft != nil && ft.Kind != "short" {
		n := 0
		if len(b) > 0 && ft.Kind == "partial" {
			n = f.ino.readAt(b[:ft.N%len(b)], off)
		}
		return n, perr("read", f.name, ft.Errno)
	}
	n := f.ino.readAt(b, off)
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (f *File) write(b []byte, off int64) (n int, err error) {
	simrt.Tick(int64(len(b)))
	for n < len(b) {
		m := len(b) - n
		if f.fs.Split {
			if o := int((off + int64(n)) % pgsize); m > pgsize-o {
				m = pgsize - o
			}
		}
		if n > 0 {
			simrt.Point()
		}
		c := append([]byte(nil), b[n:n+m]...)
		f.ino.writeAt(c, off+int64(n))
		f.fs.rec(Rec{Kind: "write", Path: f.fs.abs(f.name), Ino: f.ino.Ino, Off: off + int64(n), Data: c})
		if f.fs.OnWrite != nil {
			f.fs.OnWrite(f.fs.abs(f.name), f.ino.Ino, off+int64(n), c)
		}
		n += m
	}
	f.ino.mtime = simrt.Tick(0)
	f.ino.ctime = f.ino.mtime
	return
}

func (f *File) Write(b []byte) (int, error) {
	if f != nil && f.std {
		return len(b), nil
	}
	if err := f.bad("write"); err != nil {
		return 0, err
	}
	if f.flag&O_APPEND != 0 {
		f.off = f.ino.size
	}
	var ft *Fault
	if len(b) > 0 { // the system fails no empty transfer
		if ft = f.fs.call("write", f.name, f.off, len(b)); ft == nil && !f.closed && f.flag&(O_WRONLY|O_RDWR) != 0 {
			ft = f.fs.room(f.ino, f.name, f.off, len(b))
		}
	}
	if f.closed {
		return 0, perr("write", f.name, ErrClosed)
	}
	if f.flag&(O_WRONLY|O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	var err error
	if ft != nil {
		k := 0
		if ft.Kind == "partial" {
			k = f.tear(ft.N%len(b), f.off)
		} else if ft.Kind == "full" {
			k = ft.N
		}
		b = b[:k]
		err = perr("write", f.name, ft.Errno)
	}
	n, _ := f.write(b, f.off)
	f.off += int64(n)
	return n, err
}

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.bad("write"); err != nil {
		return 0, err
	}
	if f.flag&O_APPEND != 0 {
		return 0, errors.New("os: invalid use of WriteAt on file opened with O_APPEND")
	}
	if off < 0 {
		return 0, perr("writeat", f.name, errors.New("negative offset"))
	}
	var ft *Fault
	if len(b) > 0 { // the system fails no empty transfer
		if ft = f.fs.call("write", f.name, off, len(b)); ft == nil && !f.closed && f.flag&(O_WRONLY|O_RDWR) != 0 {
			ft = f.fs.room(f.ino, f.name, off, len(b))
		}
	}
	if f.closed {
		return 0, perr("write", f.name, ErrClosed)
	}
	if f.flag&(O_WRONLY|O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	var err error
	if ft != nil {
		k := 0
		if ft.Kind == "partial" {
			k = f.tear(ft.N%len(b), off)
		} else if ft.Kind == "full" {
			k = ft.N
		}
		b = b[:k]
		err = perr("write", f.name, ft.Errno)
	}
	n, _ := f.write(b, off)
	return n, err
}

// tear gives the length of a partial write of about k bytes at off. What lies
// behind the end of the file can be cut anywhere, what is overwritten only
// between two sectors: one sector is written as a whole or not at all.
func (f *File) tear(k int, off int64) int {
	if end := off + int64(k); end < f.ino.size {
		k = int(max(0, end/512*512-off))
	}
	return k
}

type onlyWriter struct{ io.Writer }
type onlyReader struct{ io.Reader }

func (f *File) ReadFrom(r io.Reader) (int64, error) { return io.Copy(onlyWriter{f}, r) }
func (f *File) WriteTo(w io.Writer) (int64, error)  { return io.Copy(w, onlyReader{f}) }

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.bad("seek"); err != nil {
		return 0, err
	}
	if ft := f.fs.call("seek", f.name, off, whence); ft != nil {
		return 0, perr("seek", f.name, ft.Errno)
	}
	if f.closed {
		return 0, perr("seek", f.name, ErrClosed)
	}
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		off += f.off
	case io.SeekEnd:
		off += f.ino.size
	default:
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	if off < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.off = off
	f.dirpos = 0
	return off, nil
}

func (f *File) Truncate(size int64) error {
	if err := f.bad("truncate"); err != nil {
		return err
	}
	if ft := f.fs.call("truncate", f.name, size, 0); ft != nil {
		return perr("truncate", f.name, ft.Errno)
	}
	if f.flag&(O_WRONLY|O_RDWR) == 0 || size < 0 {
		return perr("truncate", f.name, syscall.EINVAL)
	}
	f.fs.freed(f.ino, size)
	f.ino.truncate(size)
	f.fs.rec(Rec{Kind: "trunc", Path: f.fs.abs(f.name), Ino: f.ino.Ino, Off: size})
	if f.fs.OnWrite != nil {
		f.fs.OnWrite(f.fs.abs(f.name), f.ino.Ino, size, nil)
	}
	return nil
}

func (f *File) Stat() (FileInfo, error) {
	if err := f.bad("stat"); err != nil {
		return nil, err
	}
	if ft := f.fs.call("stat", f.name, 0, 0); ft != nil {
		return nil, perr("stat", f.name, ft.Errno)
	}
	return f.ino.info(path.Base(f.name)), nil
}

func (f *File) Sync() error {
	if f.std {
		return nil
	}
	if err := f.bad("sync"); err != nil {
		return err
	}
	if ft := f.fs.call("fsync", f.name, 0, 0); ft != nil {
		return perr("sync", f.name, ft.Errno)
	}
	return nil
}

func (f *File) Close() error {
	if f == nil {
		return ErrInvalid
	}
	if f.std {
		return nil
	}
	if f.closed {
		f.fs.Misuse = append(f.fs.Misuse, "close of closed file "+f.name)
		return perr("close", f.name, ErrClosed)
	}
	ft := f.fs.call("close", f.name, 0, 0)
	if f.closed {
		f.fs.Misuse = append(f.fs.Misuse, "close of closed file "+f.name)
		return perr("close", f.name, ErrClosed)
	}
	f.closed = true
	delete(f.fs.Open, f.id)
	if ft != nil {
		return perr("close", f.name, ft.Errno)
	}
	return nil
}

func (f *File) Chmod(mode FileMode) error { f.ino.mode = f.ino.mode&^0777 | mode.Perm(); return nil }
func (f *File) Chown(uid, gid int) error  { return nil }
func (f *File) Chdir() error              { return Chdir(f.name) }

func (f *File) SetDeadline(t time.Time) error      { return ErrNoDeadline }
func (f *File) SetReadDeadline(t time.Time) error  { return ErrNoDeadline }
func (f *File) SetWriteDeadline(t time.Time) error { return ErrNoDeadline }

func (f *File) ReadDir(n int) ([]DirEntry, error) {
	if err := f.bad("readdir"); err != nil {
		return nil, err
	}
	ft := f.fs.call("readdir", f.name, 0, n)
	if ft != nil && ft.Kind != "partial" {
		return nil, perr("readdirent", f.name, ft.Errno)
	}
	if f.ino.dir == nil {
		return nil, perr("readdirent", f.name, syscall.ENOTDIR)
	}
	l := f.fs.order(f.ino)
	if f.dirpos > len(l) {
		f.dirpos = len(l)
	}
	l = l[f.dirpos:]
	if n > 0 {
		if len(l) == 0 && ft == nil {
			return nil, io.EOF
		}
		if len(l) > n {
			l = l[:n]
		}
	}
	if ft != nil && len(l) > 0 { // some names, then an error
		l = l[:ft.N%len(l)]
	}
	f.dirpos += len(l)
	var res []DirEntry
	for _, k := range l {
		res = append(res, &dirent{f.fs, path.Join(f.fs.abs(f.name), k), f.ino.dir[k].info(k)})
	}
	if ft != nil {
		return res, perr("readdirent", f.name, ft.Errno)
	}
	return res, nil
}

func (f *File) Readdir(n int) ([]FileInfo, error) {
	l, err := f.ReadDir(n)
	var r []FileInfo
	for _, e := range l {
		fi, _ := e.Info()
		r = append(r, fi)
	}
	return r, err
}

func (f *File) Readdirnames(n int) ([]string, error) {
	l, err := f.ReadDir(n)
	var r []string
	for _, e := range l {
		r = append(r, e.Name())
	}
	return r, err
}

type dirent struct {
	fs *FS
	p  string
	i  *info
}

func (d *dirent) Name() string               { return d.i.name }
func (d *dirent) IsDir() bool                { return d.i.IsDir() }
func (d *dirent) Type() fs.FileMode          { return d.i.mode.Type() }
func (d *dirent) Info() (fs.FileInfo, error) { return d.i, nil }
func (d *dirent) String() string             { return fs.FormatDirEntry(d) }

// ReadFile reads a whole file.
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if _, err := f.Stat(); err != nil {
		// like the original, the size is only a hint
		_ = err
	}
	if f.ino.size > 1<<29 {
		return nil, perr("read", name, syscall.ENOMEM)
	}
	b := make([]byte, 0, f.ino.size+512)
	for {
		n, err := f.Read(b[len(b):cap(b)])
		b = b[:len(b)+n]
		if err != nil {
			if err == io.EOF {
				err = nil
			}
			return b, err
		}
		if len(b) >= cap(b) {
			b = append(b, 0)[:len(b)]
		}
	}
}

// WriteFile writes a whole file.
func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Stat(name string) (FileInfo, error) { return stat(name, true) }

func stat(name string, follow bool) (FileInfo, error) {
	f := Cur
	if ft := f.call("stat", name, 0, 0); ft != nil {
		return nil, perr("stat", name, ft.Errno)
	}
	if e := badpath(name); e != 0 {
		return nil, perr("stat", name, e)
	}
	_, i, e := f.resolve(name, follow || strings.HasSuffix(name, "/"))
	if e == 0 && i.dir == nil && strings.HasSuffix(name, "/") {
		e = syscall.ENOTDIR
	}
	if e != 0 {
		return nil, perr("stat", name, e)
	}
	return i.info(path.Base(name)), nil
}

func Lstat(name string) (FileInfo, error) { return stat(name, false) }

func Mkdir(name string, perm FileMode) error {
	f := Cur
	if ft := f.call("mkdir", name, 0, 0); ft != nil {
		return perr("mkdir", name, ft.Errno)
	}
	if e := badpath(name); e != 0 {
		return perr("mkdir", name, e)
	}
	if _, _, e := f.resolve(name, false); e == 0 {
		return perr("mkdir", name, syscall.EEXIST)
	}
	d, b, e := f.parent(name)
	if e != 0 {
		return perr("mkdir", name, e)
	}
	i := f.newInode(true)
	d.dir[b] = i
	f.rec(Rec{Kind: "mkdir", Path: f.abs(name), Ino: i.Ino})
	return nil
}

func MkdirAll(name string, perm FileMode) error {
	if fi, err := Stat(name); err == nil {
		if fi.IsDir() {
			return nil
		}
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	if d := path.Dir(path.Clean(name)); d != name && d != "." && d != "/" {
		if err := MkdirAll(d, perm); err != nil {
			return err
		}
	}
	err := Mkdir(name, perm)
	if err != nil {
		if fi, err1 := Lstat(name); err1 == nil && fi.IsDir() {
			return nil
		}
	}
	return err
}

func Remove(name string) error {
	f := Cur
	if ft := f.call("remove", name, 0, 0); ft != nil {
		return perr("remove", name, ft.Errno)
	}
	_, i, e := f.resolve(name, false)
	if e != 0 {
		return perr("remove", name, e)
	}
	if i.dir != nil && len(i.dir) > 0 {
		return perr("remove", name, syscall.ENOTEMPTY)
	}
	d, b, _ := f.parent(name)
	delete(d.dir, b)
	f.rec(Rec{Kind: "remove", Path: f.abs(name)})
	return nil
}

func RemoveAll(name string) error {
	f := Cur
	if ft := f.call("remove", name, 0, 0); ft != nil {
		return perr("remove", name, ft.Errno)
	}
	if d, b, e := f.parent(name); e == 0 {
		delete(d.dir, b)
		f.rec(Rec{Kind: "remove", Path: f.abs(name)})
	}
	return nil
}

func Rename(from, to string) error {
	f := Cur
	if ft := f.call("rename", from, 0, 0); ft != nil {
		return &LinkError{Op: "rename", Old: from, New: to, Err: ft.Errno}
	}
	_, i, e := f.resolve(from, false)
	if e == 0 {
		var d *Inode
		var b string
		if d, b, e = f.parent(to); e == 0 {
			if o := d.dir[b]; o != nil && o.dir != nil {
				e = syscall.EEXIST
			} else {
				d1, b1, _ := f.parent(from)
				delete(d1.dir, b1)
				d.dir[b] = i
				f.rec(Rec{Kind: "rename", Path: f.abs(from), To: f.abs(to)})
			}
		}
	}
	if e != 0 {
		return &LinkError{Op: "rename", Old: from, New: to, Err: e}
	}
	return nil
}

func ReadDir(name string) ([]DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	l, err := f.ReadDir(-1)
	sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	return l, err
}

func Truncate(name string, size int64) error {
	f := Cur
	if ft := f.call("truncate", name, size, 0); ft != nil {
		return perr("truncate", name, ft.Errno)
	}
	i, e := f.look(name)
	if e != 0 {
		return perr("truncate", name, e)
	}
	f.freed(i, size)
	i.truncate(size)
	f.rec(Rec{Kind: "trunc", Path: f.abs(name), Ino: i.Ino, Off: size})
	return nil
}

func Chtimes(name string, a, m time.Time) error {
	f := Cur
	if ft := f.call("chtimes", name, 0, 0); ft != nil {
		return perr("chtimes", name, ft.Errno)
	}
	i, e := f.look(name)
	if e != 0 {
		return perr("chtimes", name, e)
	}
	if !a.IsZero() {
		i.atime = a.UnixNano()
	}
	if !m.IsZero() {
		i.mtime = m.UnixNano()
	}
	return nil
}

func Chmod(name string, mode FileMode) error {
	i, e := Cur.look(name)
	if e != 0 {
		return perr("chmod", name, e)
	}
	i.mode = i.mode&^0777 | mode.Perm()
	return nil
}

func Chown(name string, uid, gid int) error { return nil }
func Chdir(name string) error               { Cur.cwd = Cur.abs(name); return nil }
func Link(a, b string) error                { return &LinkError{Op: "link", Old: a, New: b, Err: syscall.ENOSYS} }
func Symlink(a, b string) error {
	f := Cur
	if ft := f.call("create", b, 0, 0); ft != nil {
		return &LinkError{Op: "symlink", Old: a, New: b, Err: ft.Errno}
	}
	_, _, e := f.resolve(b, false)
	if e == 0 {
		e = syscall.EEXIST
	} else if d, n, pe := f.parent(b); pe != 0 || a == "" {
		e = syscall.ENOENT
	} else {
		i := f.newInode(false)
		i.link, i.mode, i.size = a, 0777|fs.ModeSymlink, int64(len(a))
		d.dir[n] = i
		return nil
	}
	return &LinkError{Op: "symlink", Old: a, New: b, Err: e}
}
func Readlink(name string) (string, error) {
	_, i, e := Cur.resolve(name, false)
	if e == 0 && i.link == "" {
		e = syscall.EINVAL
	}
	if e != 0 {
		return "", perr("readlink", name, e)
	}
	return i.link, nil
}

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	for i := 0; ; i++ {
		n := fmt.Sprintf("%07d", i)
		name := pattern + n
		if p := strings.LastIndexByte(pattern, '*'); p >= 0 {
			name = pattern[:p] + n + pattern[p+1:]
		}
		f, err := OpenFile(dir+"/"+name, O_RDWR|O_CREATE|O_EXCL, 0600)
		if IsExist(err) {
			continue
		}
		return f, err
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	for i := 0; ; i++ {
		name := dir + "/" + strings.ReplaceAll(pattern, "*", "") + fmt.Sprintf("%07d", i)
		err := Mkdir(name, 0700)
		if IsExist(err) {
			continue
		}
		return name, err
	}
}

type dirFS string

// DirFS is os.DirFS.
func DirFS(dir string) fs.FS { return dirFS(dir) }

func (d dirFS) join(op, name string) (string, error) {
	if !fs.ValidPath(name) {
		return "", perr(op, name, ErrInvalid)
	}
	return strings.TrimSuffix(string(d), "/") + "/" + name, nil
}

func (d dirFS) Open(name string) (fs.File, error) {
	p, err := d.join("open", name)
	if err != nil {
		return nil, err
	}
	f, err := Open(p)
	if err != nil {
		return nil, err
	}
	return f, nil
}

func (d dirFS) ReadFile(name string) ([]byte, error) {
	p, err := d.join("readfile", name)
	if err != nil {
		return nil, err
	}
	return ReadFile(p)
}

func (d dirFS) ReadDir(name string) ([]DirEntry, error) {
	p, err := d.join("readdir", name)
	if err != nil {
		return nil, err
	}
	return ReadDir(p)
}

func (d dirFS) Stat(name string) (fs.FileInfo, error) {
	p, err := d.join("stat", name)
	if err != nil {
		return nil, err
	}
	return Stat(p)
}

// MapCall makes a mapping call fail, or not.
func (f *File) MapCall(off int64, n int) error {
	if err := f.bad("mmap"); err != nil {
		return err
	}
	if ft := f.fs.call("mmap", f.name, off, n); ft != nil {
		return ft.Errno
	}
	return nil
}

// Inode gives the mapping code the file.
func (f *File) Inode() *Inode { return f.ino }

// FS gives the mapping code the file system.
func (f *File) FS() *FS { return f.fs }

// AddMap registers a mapping.
func (f *FS) AddMap(what string) int {
	f.nextMap++
	f.Maps[f.nextMap] = what
	return f.nextMap
}

// DelMap removes a mapping.
func (f *FS) DelMap(id int) { delete(f.Maps, id) }

// IsOpen tells whether the file is not closed.
func (f *File) IsOpen() bool { return !f.closed }

// EvalSymlinks is filepath.EvalSymlinks.
func EvalSymlinks(p string) (string, error) {
	if _, err := Stat(p); err != nil {
		return "", err
	}
	real, _, _ := Cur.resolve(p, true)
	if !strings.HasPrefix(p, "/") {
		if r, ok := strings.CutPrefix(real, strings.TrimSuffix(Cur.cwd, "/")+"/"); ok {
			return r, nil
		}
	}
	return real, nil
}
