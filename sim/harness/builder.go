package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"strings"
	"time"

	"github.com/schwarzlichtbezirk/wpk"

	"wpkverif/simos"
	"wpkverif/simrt"
)

const (
	singlePath = "/work/pack.wpk"
	tagsPath   = "/work/pack.wpt"
	dataPath   = "/work/pack.wpf"
)

// commit is a moment of the history at which the package on disk changes
// from one committed state to the next.
type commit struct {
	from, to int   // journal positions: the sync was running in between
	state    *snap // the new state
	done     bool  // the sync returned success
}

// builder drives one package through a history of write-side calls, next to
// a reference model.
type builder struct {
	x        *Exec
	split    bool
	tpath    string
	dpath    string
	pkg      *wpk.Package
	wpt, wpf *simos.File
	m        *model
	held     []heldTagset

	begun    bool  // creation finished
	writing  bool  // packing is allowed
	dirty    bool  // changes since the last sync
	com      *snap // last committed state, nil before the first
	packed   uint64
	base     uint64
	nblk     int64
	commits  []commit
	busy     []commit // intervals in which a single-file package is under construction
	beganAt  int      // journal position at which creation had finished
	sessions int
	failed   string // a write-side call failed and has not been repeated: which
	extents  []extent
	faulty   bool // executions with faults: compare data sizes loosely
	strict   bool
	after    func(op *Op) // check after every step
	onSync   func()
	viewDir  string
	ops      []Op

	inherited bool // the package was left by another process
	used      bool // reopen with the package object there is
}

type extent struct {
	ino      int64
	off, end int64
	key      string
}

// heldTagset is a tagset obtained from the package at some time.
type heldTagset struct {
	ts   wpk.TagsetRaw
	copy string
	path string
	pc   string
	at   int
}

func newBuilder(x *Exec) *builder {
	b := &builder{x: x, split: x.is("split"), m: &model{info: map[uint16]string{}}, strict: true}
	b.tpath, b.dpath = singlePath, singlePath
	if b.split {
		b.tpath, b.dpath = tagsPath, dataPath
	}
	if x.is("deepdir") {
		b.tpath = strings.Replace(b.tpath, "/work/", "/work/sub dir/", 1)
		b.dpath = strings.Replace(b.dpath, "/work/", "/work/sub dir/", 1)
		x.FS.Dirs("/work/sub dir")
	}
	b.base = wpk.HeaderSize
	if b.split {
		b.base = 0
	}
	return b
}

// plain is a stream that can only write and seek.
type plain struct{ f *simos.File }

func (p plain) Write(b []byte) (int, error)               { return p.f.Write(b) }
func (p plain) Seek(off int64, whence int) (int64, error) { return p.f.Seek(off, whence) }

// stream gives the writer of one of two kinds.
func (b *builder) stream(f *simos.File) io.WriteSeeker {
	if b.x.P.Seed>>7&3 == 0 {
		return plain{f}
	}
	return f
}

// w is where file data is written to.
func (b *builder) w() io.WriteSeeker {
	if b.split {
		return b.stream(b.wpf)
	}
	return b.stream(b.wpt)
}

// files returns the two arguments of Begin, Append and Sync.
func (b *builder) files() (wpt, wpf io.WriteSeeker) {
	if b.split {
		return b.stream(b.wpt), b.stream(b.wpf)
	}
	if b.x.is("same") {
		return b.stream(b.wpt), b.stream(b.wpt)
	}
	return b.stream(b.wpt), nil
}

func (b *builder) openFiles(flag int) error {
	f, err := simos.OpenFile(b.tpath, flag, 0644)
	if err != nil {
		return err
	}
	b.wpt = f
	if b.split {
		if b.wpf, err = simos.OpenFile(b.dpath, flag, 0644); err != nil {
			b.wpt.Close()
			b.wpt = nil
			return err
		}
	}
	return nil
}

func (b *builder) closeFiles() {
	if b.wpt != nil {
		b.wpt.Close()
		b.wpt = nil
	}
	if b.wpf != nil {
		b.wpf.Close()
		b.wpf = nil
	}
}

// create starts a new package; with a big base the package begins as one
// whose data block is already that large.
func (b *builder) create() {
	x := b.x
	if b.inherited {
		b.reopen()
		return
	}
	if base := x.cfg("base"); base > 0 {
		if !b.begun {
			b.craft(uint64(base))
		}
		b.reopen()
		return
	}
	x.Quiet(func() {
		if err := b.openFiles(simos.O_RDWR | simos.O_CREATE | simos.O_TRUNC); err != nil {
			x.Fail("create", "creating the files: %v", err)
		}
	})
	b.pkg = wpk.NewPackage()
	b.sessions = 1
	if x.cfg("pre") > 0 {
		b.preinfo()
	}
	for try := 0; ; try++ {
		start := len(x.FS.Journal)
		n := len(x.Fired)
		wpt, wpf := b.files()
		err := b.pkg.Begin(wpt, wpf)
		b.judge("Begin", err, n)
		if err == nil {
			b.busy = append(b.busy, commit{from: start})
			break
		}
		if try > 50 {
			x.Fail("stuck", "Begin fails without a fault: %v", err)
		}
	}
	b.begun, b.writing = true, true
	b.beganAt = len(x.FS.Journal)
	b.dirty = true
	if b.split {
		b.com = &snap{}
		b.commits = append(b.commits, commit{from: 0, to: b.beganAt, state: b.com, done: true})
	}
}

func (b *builder) preinfo() {
	ts := wpk.TagsetRaw{}.Put(wpk.TIDlabel, wpk.StrTag("early info"))
	b.pkg.SetInfo(ts)
	b.m.info[uint16(wpk.TIDlabel)] = "early info"
}

// craft writes a package without entries whose data block has the given size.
func (b *builder) craft(size uint64) {
	x := b.x
	hdr := make([]byte, 64)
	copy(hdr, wpk.SignReady)
	le := binary.LittleEndian
	table := []byte{0, 0, 0, 0}
	foff := uint64(64)
	if !b.split {
		foff = 64 + size
	}
	le.PutUint64(hdr[32:], foff)
	le.PutUint64(hdr[40:], 4)
	le.PutUint64(hdr[48:], b.base)
	le.PutUint64(hdr[56:], size)
	x.FS.Put(b.tpath, hdr).WriteAt(table, int64(foff))
	if b.split {
		d := x.FS.Put(b.dpath, nil)
		d.WriteAt([]byte{0}, int64(size-1))
	}
	b.packed = size
	b.begun = true
	b.com = &snap{size: size, base: b.base}
	b.commits = append(b.commits, commit{state: b.com, done: true})
}

// judge checks that a call with injected errors returned one.
func (b *builder) judge(what string, err error, firedBefore int) {
	x := b.x
	bad := ""
	for _, f := range x.Fired[firedBefore:] {
		if f.Kind != "short" {
			bad = f.Call
		}
	}
	if bad != "" && err == nil {
		x.Fail("swallowed", "%s returned success although %s failed", what, bad)
	}
	if bad == "" && err != nil {
		x.Fail("spurious", "%s failed without a fault: %v", what, err)
	}
	if err != nil {
		x.Hit("fault-" + what)
	}
}

// full expands a name of a view.
func (b *builder) full(op *Op, name string) string {
	name = strings.ReplaceAll(name, "\\", "/")
	if d := b.dir(op); d != "" {
		return d + "/" + name
	}
	return name
}

func (b *builder) dir(op *Op) string {
	switch op.M >> 8 & 3 {
	case 1:
		return "d"
	case 2:
		return "d/e"
	}
	return ""
}

// view returns the package as seen from the directory the step works in.
func (b *builder) view(op *Op) *wpk.Package {
	d := b.dir(op)
	if d == "" {
		return b.pkg
	}
	if b.pkg.Tagger == nil || op.M>>10&1 == 0 {
		if sub, err := b.pkg.Sub(d); err == nil {
			b.x.Hit("sub-view")
			return sub.(*wpk.Package)
		}
	}
	return &wpk.Package{FTT: b.pkg.FTT, Tagger: b.pkg.Tagger, Workspace: d}
}

var errNoView = errors.New("not applicable now")

// step executes one operation.
func (b *builder) step(op *Op) {
	x := b.x
	simrt.SetOp(op.ID)
	before := len(x.Fired)
	if len(b.m.ents) > 2000 && op.K == "renamedir" {
		return // the reference is too slow for it
	}
	switch op.K {
	case "pack", "packfile":
		b.pack(op)
	case "alias", "rename":
		b.rename(op)
	case "renamedir":
		b.renamedir(op)
	case "del":
		k := b.full(op, op.A)
		want := b.m.find(k)
		ts, ok := b.view(op).DelTagset(op.A)
		x.Check(ok == (want != nil), "del", "DelTagset(%q) = %v, the model says %v", op.A, ok, want != nil)
		if ok {
			if err := sameTags(ts, want); err != nil {
				x.Fail("del", "DelTagset(%q) returned other tags: %v", op.A, err)
			}
			b.m.del(k)
			b.dirty = true
		}
	case "settag", "addtag", "deltag", "puttag":
		b.tag(op)
	case "setinfo":
		b.setinfo(op)
	case "hold":
		b.hold(op)
	case "sync":
		b.sync(op)
	case "append":
		b.appendOp(op)
	case "reopen":
		if b.com != nil && !b.dirty && b.failed == "" {
			simrt.SetOp(op.ID)
			b.used = op.M>>20&1 == 1
			b.reopen()
			b.used = false
		}
	case "anew":
		b.anew(op)
	case "self":
		b.self(op)
	case "dump":
		b.dump(op)
	case "long":
		b.long(op)
	case "retag":
		b.retag(op)
	case "mass":
		b.mass(op)
	case "wide":
		b.wide(op)
	}
	_ = before
	simrt.SetOp(-1)
	if len(b.m.ents) < 2000 || op.K == "mass" {
		b.checkTable(op)
	}
	b.checkHeld(op)
	if b.after != nil {
		b.after(op)
	}
	x.State(len(b.m.ents), b.writing, b.dirty, b.failed, b.sessions, op.K, len(b.m.info))
}

// checkTable compares the table in memory with the model.
func (b *builder) checkTable(op *Op) {
	x := b.x
	seen := 0
	root := &wpk.Package{FTT: b.pkg.FTT, Workspace: "."}
	root.Enum(func(k string, ts wpk.TagsetRaw) bool {
		e := b.m.find(k)
		if e == nil {
			x.Fail("table", "after %s(%q,%q) entry %q exists, the model has %q", op.K, op.A, op.B, k, b.m.keys())
		}
		if err := sameTags(ts, e); err != nil {
			x.Fail("tags", "after %s(%q,%q) entry %q: %v", op.K, op.A, op.B, k, err)
		}
		seen++
		return true
	})
	if seen != len(b.m.ents) {
		x.Fail("table", "after %s(%q,%q) the table lists %d entries, the model has %q", op.K, op.A, op.B, seen, b.m.keys())
	}
	if n := b.pkg.TagsetNum(); n != seen {
		x.Fail("table", "after %s TagsetNum is %d, %d entries are listed", op.K, n, seen)
	}
	got, _, err := parseTags(b.pkg.GetInfo())
	if err == nil {
		err = diffTags(got, b.m.info)
	}
	if err != nil {
		x.Fail("info", "after %s package info: %v", op.K, err)
	}
}

func (b *builder) checkHeld(op *Op) {
	for _, h := range b.held {
		if string(h.ts) != h.copy {
			b.x.Fail("held", "after %s(%q,%q) a tagset obtained at step %d changed from %s to %s", op.K, op.A, op.B, h.at, short(h.copy), short(string(h.ts)))
		}
		if h.path != h.pc {
			b.x.Fail("held", "after %s(%q,%q) a name obtained at step %d changed from %q to %q", op.K, op.A, op.B, h.at, h.pc, h.path)
		}
	}
}

// hold keeps what a reader obtains now.
func (b *builder) hold(op *Op) {
	if len(b.held) > 30 {
		return
	}
	if op.A == "" {
		b.pkg.Enum(func(k string, ts wpk.TagsetRaw) bool {
			b.held = append(b.held, heldTagset{ts, string(ts), k, strings.Clone(k), op.ID})
			return len(b.held) < 30
		})
		ts := b.pkg.GetInfo()
		b.held = append(b.held, heldTagset{ts, string(ts), "", "", op.ID})
		return
	}
	if ts, ok := b.pkg.GetTagset(op.A); ok {
		b.held = append(b.held, heldTagset{ts, string(ts), ts.Path(), strings.Clone(ts.Path()), op.ID})
	}
}

// tableLike gives a file with the content of the tags table in the package,
// in which one letter of the last name is another one.
func (b *builder) tableLike() []byte {
	f := b.x.FS.Look(b.tpath)
	hdr := make([]byte, wpk.HeaderSize)
	if f == nil || f.ReadAt(hdr, 0) < len(hdr) {
		return nil
	}
	off, size := uintOf(string(hdr[32:40])), uintOf(string(hdr[40:48]))
	if size < 20 || size > 1<<16 {
		return nil
	}
	t := make([]byte, size)
	if f.ReadAt(t, int64(off)) < len(t) {
		return nil
	}
	t[size-3] ^= 1
	return t
}

func (b *builder) pack(op *Op) {
	x := b.x
	if !b.writing {
		return
	}
	k := b.full(op, op.A)
	b.nblk++
	if op.N >= 1<<20 {
		simrt.Allow(op.N * 10)
	}
	blk := &block{id: int64(x.P.Seed>>1) ^ int64(op.ID)<<20, size: int(op.N)}
	if op.M>>16&31 == 5 {
		if t := b.tableLike(); t != nil {
			blk.data, blk.size = t, len(t)
			x.Hit("table-like")
		}
	}
	e := &ment{key: k, blk: blk, tags: map[uint16]string{}}
	exists := b.m.find(k) != nil
	before := len(x.Fired)
	v := b.view(op)
	var ts wpk.TagsetRaw
	var err error
	if op.K == "packfile" && op.M>>16&7 == 6 {
		x.Hit("foreign")
		r := &srcReader{x: x, data: blk.bytes(), rng: simrt.NewRng(uint64(op.ID)), mode: int(op.M & 3)}
		var file srcFile
		file, e.tags = foreign(op, r)
		ts, err = v.PackFile(b.w(), file, op.A)
	} else if op.K == "packfile" {
		src := fmt.Sprintf("/work/src/%d.bin", op.ID)
		var file *simos.File
		x.Quiet(func() {
			rec := x.FS.Record
			x.FS.Record = false
			in := x.FS.Put(src, blk.bytes())
			at, mt, ct := timeOf(op, 1), timeOf(op, 2), timeOf(op, 3)
			in.SetTimes(at, mt, ct)
			file, err = simos.Open(src)
			x.FS.Record = rec
		})
		if err != nil {
			x.Fail("create", "opening the source: %v", err)
		}
		e.tags[uint16(wpk.TIDmtime)] = timeTag(timeOf(op, 2))
		e.tags[uint16(wpk.TIDatime)] = timeTag(timeOf(op, 1))
		e.tags[uint16(wpk.TIDctime)] = timeTag(timeOf(op, 3))
		ts, err = v.PackFile(b.w(), file, op.A)
		x.Quiet(func() { file.Close() })
	} else {
		r := &srcReader{x: x, data: blk.bytes(), rng: simrt.NewRng(uint64(op.ID)), mode: int(op.M & 3)}
		ts, err = v.PackData(b.w(), r.source(op.M>>16&15), op.A)
	}
	if exists {
		x.Hit("pack-existing")
		x.Check(err != nil, "exist", "packing onto the existing name %q succeeded", op.A)
		x.Check(len(x.Fired) > before || errors.Is(err, fs.ErrExist), "exist", "packing onto the existing name %q gives %v", op.A, err)
		return
	}
	b.judge("pack", err, before)
	b.dirty = true
	if err != nil {
		return
	}
	got, _, perr := parseTags(ts)
	if perr != nil {
		x.Fail("tags", "pack returned a damaged tagset: %v", perr)
	}
	blk.off = uintOf(got[uint16(wpk.TIDoffset)])
	b.m.add(e)
	if err := sameTags(ts, e); err != nil {
		x.Fail("tags", "pack of %q returned other tags: %v", op.A, err)
	}
	b.checkBlock(k, blk)
	b.packed += uint64(blk.size)
	if !b.faulty {
		x.Check(uint64(b.pkg.DataSize()) == b.packed, "datasize", "DataSize is %d after packing %d bytes", b.pkg.DataSize(), b.packed)
	}
	x.Check(blk.off+uint64(blk.size) <= b.base+uint64(b.pkg.DataSize()), "datasize", "%q ends at %d, outside of the data block of %d bytes", k, blk.off+uint64(blk.size), b.pkg.DataSize())
	if blk.size > 0 {
		b.extents = append(b.extents, extent{x.FS.Look(b.dpath).Ino, int64(blk.off), int64(blk.off) + int64(blk.size), k})
	}
	if blk.off > 0xffffffff {
		x.Hit("offset-64bit")
	} else if blk.off > 0xffff {
		x.Hit("offset-32bit")
	}
	if blk.size == 0 {
		x.Hit("empty-file")
	}
}

// checkBlock looks at the data file itself.
func (b *builder) checkBlock(k string, blk *block) {
	if blk.size == 0 || blk.size > 1<<27 {
		return
	}
	got := make([]byte, blk.size)
	n := b.x.FS.Look(b.dpath).ReadAt(got, int64(blk.off))
	if n != blk.size || !bytes.Equal(got, blk.bytes()) {
		b.x.Fail("block", "the data block of %q at %d does not hold its content", k, blk.off)
	}
}

func timeOf(op *Op, i int64) int64 {
	t := 1_600_000_000_000_000_000 + int64(op.ID)*1_000_000_007 + i*86_400_000_000_123 + op.N*3
	switch (int64(op.ID) + op.N) % 13 {
	case 3: // before 1970
		t -= 2_100_000_000_000_000_000
	case 4: // after 2106
		t += 3_000_000_000_000_000_000
	case 5: // all times are the same
		t -= i * 86_400_000_000_123
	}
	return t
}

func timeTag(ns int64) string {
	var t [12]byte
	at := time.Unix(0, ns)
	binary.LittleEndian.PutUint64(t[:], uint64(at.Unix()))
	binary.LittleEndian.PutUint32(t[8:], uint32(at.Nanosecond()))
	return string(t[:])
}

func (b *builder) rename(op *Op) {
	x := b.x
	from, to := b.full(op, op.A), b.full(op, op.B)
	e, o := b.m.find(from), b.m.find(to)
	var err error
	if op.K == "alias" {
		err = b.view(op).PutAlias(op.A, op.B)
	} else {
		err = b.view(op).Rename(op.A, op.B)
	}
	switch {
	case e == nil:
		x.Check(errors.Is(err, fs.ErrNotExist), "missing", "%s(%q,%q) from a missing name gives %v", op.K, op.A, op.B, err)
	case o != nil:
		x.Hit("rename-existing")
		x.Check(errors.Is(err, fs.ErrExist), "exist", "%s(%q,%q) onto an existing name gives %v", op.K, op.A, op.B, err)
	default:
		x.Check(err == nil, "spurious", "%s(%q,%q) gives %v", op.K, op.A, op.B, err)
		n := e.clone()
		n.key = to
		if op.K == "rename" {
			b.m.del(from)
		}
		b.m.add(n)
		b.dirty = true
		x.Hit(op.K)
	}
}

// self names the directory of a view, from within the view, as if it was a
// file: a file with this name is outside of the view, and nothing may be put
// over it or be taken away from it.
func (b *builder) self(op *Op) {
	x := b.x
	d := b.dir(op)
	if d == "" || b.m.find(d) == nil {
		return
	}
	v := b.view(op)
	name := simrt.Pick(simrt.NewRng(uint64(op.ID)), ".", "")
	size := b.pkg.DataSize()
	switch op.N & 3 {
	case 0:
		if !b.writing {
			return
		}
		_, err := v.PackData(b.w(), &srcReader{x: x, data: []byte("outside"), rng: simrt.NewRng(1)}, name)
		x.Check(err != nil, "exist", "packing %q in the view of %q, which is a file too, succeeded", name, d)
		x.Check(b.faulty || b.pkg.DataSize() == size, "exist", "a refused pack changes the data size")
	case 1, 2:
		from := ""
		for _, e := range b.m.ents {
			if strings.HasPrefix(e.key, d+"/") {
				from = e.key[len(d)+1:]
			}
		}
		if from == "" {
			return
		}
		var err error
		if op.N&3 == 1 {
			err = v.Rename(from, name)
		} else {
			err = v.PutAlias(from, name)
		}
		x.Check(err != nil, "exist", "giving %q the name %q in the view of %q, which is a file too, succeeded", from, name, d)
	case 3:
		_, ok := v.DelTagset(name)
		x.Check(!ok, "del", "DelTagset(%q) in the view of %q deletes the file with the name of the view", name, d)
		x.Check(!v.HasTagset(name), "del", "HasTagset(%q) in the view of %q finds the file with the name of the view", name, d)
	}
	x.Hit("view-self")
}

// renamedir follows the table's own order, which is not part of the model.
func (b *builder) renamedir(op *Op) {
	x := b.x
	old, neu := strings.ReplaceAll(op.A, "\\", "/"), strings.ReplaceAll(op.B, "\\", "/")
	if old != "" {
		old = strings.TrimSuffix(old, "/") + "/"
	}
	if neu != "" {
		neu = strings.TrimSuffix(neu, "/") + "/"
	}
	skip := op.N != 0
	v := b.view(op)
	base := ""
	if d := b.dir(op); d != "" {
		base = d + "/"
	}
	var order []string
	v.Enum(func(k string, ts wpk.TagsetRaw) bool {
		order = append(order, strings.Clone(k))
		return true
	})
	n := b.m.clone()
	cnt, conflict := 0, false
	for _, k := range order {
		if !strings.HasPrefix(k, old) {
			continue
		}
		to := neu + k[len(old):]
		if n.find(base+to) != nil {
			conflict = true
			if !skip {
				break
			}
			continue
		}
		e := n.find(base + k).clone()
		n.del(base + k)
		e.key = base + to
		n.add(e)
		cnt++
	}
	count, err := v.RenameDir(op.A, op.B, skip)
	if conflict && !skip {
		x.Hit("renamedir-conflict")
		x.Check(errors.Is(err, fs.ErrExist), "exist", "RenameDir(%q,%q) onto existing names gives %v", op.A, op.B, err)
		// all or nothing, or what precedes the conflict
		if count != 0 {
			x.Check(count == cnt, "renamedir", "RenameDir(%q,%q) reports %d renames, %d precede the conflict", op.A, op.B, count, cnt)
			b.m = n
			b.dirty = true
		}
		return
	}
	x.Check(err == nil, "spurious", "RenameDir(%q,%q,%v) gives %v", op.A, op.B, skip, err)
	x.Check(count == cnt, "renamedir", "RenameDir(%q,%q,%v) = %d, expected %d", op.A, op.B, skip, count, cnt)
	if cnt > 0 {
		b.dirty = true
		x.Hit("renamedir")
	}
	b.m = n
}

// tagValue makes a tag value of the wanted length.
func tagValue(op *Op) string {
	n := int(op.N)
	return string(content(int64(op.ID)*31+7, n))
}

func (b *builder) tag(op *Op) {
	x := b.x
	k := b.full(op, op.A)
	v := b.view(op)
	e := b.m.find(k)
	ts, ok := v.GetTagset(op.A)
	x.Check(ok == (e != nil), "table", "GetTagset(%q) = %v, the model says %v", op.A, ok, e != nil)
	if !ok {
		return
	}
	tid := uint16(op.M&255 | op.M>>24<<8)
	val := tagValue(op)
	if op.M>>12&1 != 0 {
		t, want := typedValue(simrt.NewRng(uint64(op.ID)<<32 ^ uint64(op.N)))
		x.Check(string(t) == want, "typed", "a tag is made as %x, expected %x", []byte(t), want)
		val = want
	}
	old, had := e.tags[tid]
	res := wpk.CopyTagset(ts)
	switch op.K {
	case "settag":
		var added bool
		res, added = res.SetOk(tid, wpk.TagRaw(val))
		x.Check(added == !had, "setok", "SetOk(%d) reports added=%v for an entry with the tag: %v", tid, added, had)
		e.tags[tid] = val
		if had && len(old) != len(val) {
			x.Hit("set-other-length")
		}
	case "addtag":
		var added bool
		res, added = res.AddOk(tid, wpk.TagRaw(val))
		x.Check(added == !had, "addok", "AddOk(%d) reports added=%v for an entry with the tag: %v", tid, added, had)
		if !had {
			e.tags[tid] = val
		}
	case "deltag":
		var was bool
		res, was = res.DelOk(tid)
		x.Check(was == had, "delok", "DelOk(%d) = %v for an entry with the tag: %v", tid, was, had)
		delete(e.tags, tid)
		if had {
			x.Hit("deltag")
		}
	case "puttag":
		if had {
			return
		}
		// Put only appends: like PackFile does, without a copy
		res = ts.Put(tid, wpk.TagRaw(val))
		e.tags[tid] = val
	}
	if op.N%5 == 3 { // the name is in the tagset
		v.SetupTagset(res)
		x.Hit("setuptagset")
	} else {
		v.SetTagset(op.A, res)
	}
	b.dirty = true
}

func (b *builder) setinfo(op *Op) {
	ts := wpk.CopyTagset(b.pkg.GetInfo())
	tid := uint16(op.M&255 | op.M>>24<<8)
	switch op.N % 4 {
	case 0:
		ts = nil
		b.m.info = map[uint16]string{}
	case 1:
		ts = ts.Del(tid)
		delete(b.m.info, tid)
	default:
		val := string(content(int64(op.ID), int(op.N%300)))
		ts = ts.Set(tid, wpk.TagRaw(val))
		b.m.info[tid] = val
	}
	b.pkg.SetInfo(ts)
	b.dirty = true
}

// long makes a tagset just as long as the table can hold, or too long; then
// sync must refuse it, and it is repaired.
func (b *builder) long(op *Op) {
	x := b.x
	com, key := uint16(wpk.TIDcomment), uint16(wpk.TIDkeywords)
	var e *ment
	tags := b.m.info
	ts := b.pkg.GetInfo()
	put := func(ts wpk.TagsetRaw) { b.pkg.SetInfo(ts) }
	if op.M&1 == 0 {
		if e = b.m.find(op.A); e == nil {
			return
		}
		tags = e.tags
		ts, _ = b.pkg.GetTagset(op.A)
		put = func(ts wpk.TagsetRaw) { b.pkg.SetTagset(op.A, ts) }
	}
	if _, is := tags[key]; is || !b.writing || len(ts) > 20000 {
		return
	}
	old, had := tags[com]
	total := int(simrt.Pick(simrt.NewRng(uint64(op.N)), 65534, 65535, 65535, 65536, 65536, 65537, 80000, 131072, 131073, 131072+len(ts), 0))
	big := wpk.CopyTagset(ts)
	if total == 0 {
		// one tag that is too long by itself
		big = big.Set(com, wpk.TagRaw(content(5, 65536+len(old))))
		if len(big) <= 65535 {
			x.Fail("long", "a tag of %d bytes is cut silently", 65536+len(old))
		}
	} else {
		one := 40000
		if total > 100000 {
			one = 65535
		}
		if !had {
			old = string(content(5, one))
			big = big.Put(com, wpk.TagRaw(old))
		}
		v := content(6, max(0, min(65535, total-len(big)-4)))
		big = big.Put(key, wpk.TagRaw(v))
		if len(big) <= 65535 {
			tags[com], tags[key] = old, string(v)
			for i, want := range []string{old, string(v)} {
				tid := wpk.TID([]uint16{com, key}[i])
				if got, ok := big.Get(tid); !ok || string(got) != want || !big.Has(tid) {
					x.Fail("long", "tag %d of a tagset of %d bytes is %s", tid, len(big), short(string(got)))
				}
			}
			_, order, _ := parseTags(big)
			x.Check(big.Num() == len(order), "long", "a tagset of %d bytes has %d tags, Num gives %d", len(big), len(order), big.Num())
			less, ok := wpk.CopyTagset(big).DelOk(wpk.TIDkeywords)
			x.Check(ok && len(less) == len(big)-len(v)-4 && !less.Has(wpk.TIDkeywords) && less.Num() == big.Num()-1, "long", "the last tag of a tagset of %d bytes can not be deleted", len(big))
			put(big)
			x.Hit("longest-tagset")
			b.dirty = true
			b.sync(op)
			put(ts)
			if delete(tags, key); !had {
				delete(tags, com)
			}
			b.dirty = true
			return
		}
	}
	put(big)
	wpt, wpf := b.files()
	err := b.pkg.Sync(wpt, wpf)
	x.Check(err != nil, "long", "Sync accepted a tagset of %d bytes", len(big))
	put(ts)
	x.Hit("overlong-tagset")
	b.dirty = true
	b.failed = "sync"
	b.readable("a sync that refused an over-long tagset")
}

// retag puts the same tags in another order and the numbers in other widths.
func (b *builder) retag(op *Op) {
	k := b.full(op, op.A)
	if b.m.find(k) == nil {
		return
	}
	v := b.view(op)
	ts, _ := v.GetTagset(op.A)
	m, order, err := parseTags(ts)
	if err != nil {
		b.x.Fail("tags", "the tagset of %q is damaged: %v", k, err)
	}
	r := simrt.NewRng(uint64(op.N))
	for i := range order {
		j := r.N(i + 1)
		order[i], order[j] = order[j], order[i]
	}
	var n wpk.TagsetRaw
	for _, tid := range order {
		t := wpk.TagRaw(strings.Clone(m[tid]))
		if (tid == uint16(wpk.TIDoffset) || tid == uint16(wpk.TIDsize)) && r.N(3) == 0 {
			w := len(t)
			for w < 8 && r.N(2) == 0 {
				w *= 2
			}
			t = wpk.UintLenTag(uint(uintOf(m[tid])), w)
		}
		n = n.Put(tid, t)
	}
	v.SetTagset(op.A, n)
	b.dirty = true
	b.x.Hit("retagged")
}

// mass packs many small files.
func (b *builder) mass(op *Op) {
	x := b.x
	if !b.writing || len(b.m.ents) > 60 {
		return
	}
	simrt.Allow(op.N * 50000)
	for i := int64(0); i < op.N; i++ {
		k := fmt.Sprintf("m%d/%d", i%7, i)
		if b.m.find(k) != nil {
			return
		}
		blk := &block{id: int64(op.ID)<<20 ^ i, size: int(i % 5)}
		e := &ment{key: k, blk: blk, tags: map[uint16]string{}}
		before := len(x.Fired)
		ts, err := b.pkg.PackData(b.w(), bytes.NewReader(blk.bytes()), k)
		b.judge("pack", err, before)
		b.dirty = true
		if err != nil {
			return
		}
		off, _ := ts.Pos()
		blk.off = uint64(off)
		b.packed += uint64(blk.size)
		b.m.add(e)
	}
	x.Hit("many-files")
}

// wide makes a table with a shape that few packages have: large directories,
// long names, deep trees. One file is packed, all other names are aliases.
func (b *builder) wide(op *Op) {
	if !b.writing {
		return
	}
	simrt.Allow(op.N * 600000) // also for the steps that follow
	var l []string
	for i := 0; i < int(op.N); i++ {
		switch op.M % 7 {
		case 0: // many files
			l = append(l, fmt.Sprintf("d/w%d", (i*37)%1000))
		case 1: // many directories
			l = append(l, fmt.Sprintf("w%d/x", (i*37)%1000))
		case 2: // long names
			l = append(l, "d/"+strings.Repeat("n", 20+i*29), strings.Repeat("m", 40+i*31)+"/x")
		case 3: // long paths
			l = append(l, strings.Repeat("p/", 1+i*9)+"q")
		case 4: // large trees
			l = append(l, fmt.Sprintf("d/e/w%d/w%d", i%11, i))
		case 5: // one name is a prefix of another
			l = append(l, "d/e"+strings.Repeat("e", i))
		}
		if op.M%7 == 2 && i > 20 || op.M%7 == 3 && i > 12 {
			break
		}
	}
	if op.M%7 == 6 && len(b.m.ents) > 0 { // many tags
		k := b.m.keys()[0]
		for i := 0; i < min(int(op.N), 150) && b.x.V == nil; i++ {
			b.tag(&Op{K: "settag", ID: op.ID, A: k, N: int64(i % 5), M: int64(300+i)&255 | int64(300+i)>>8<<24})
		}
	}
	src := ""
	for _, n := range l {
		if b.x.V != nil {
			return
		}
		switch {
		case b.m.find(n) != nil:
		case src == "":
			b.pack(&Op{K: "pack", ID: op.ID, A: n, N: 9})
			if b.m.find(n) == nil {
				return
			}
			src = n
		default:
			b.rename(&Op{K: "alias", ID: op.ID, A: src, B: n})
		}
	}
	b.x.Hit("wide")
}

// addWide puts such a step into a history.
func addWide(r *simrt.Rng, ops []Op) []Op {
	op := Op{K: "wide", N: int64(r.Range(5, 40)), M: int64(r.N(7))}
	if r.N(3) == 0 {
		op.N = int64(r.Range(60, 300))
		if r.N(10) == 0 {
			op.N = int64(r.Range(300, 700))
		}
	}
	k := r.N(min(len(ops), 3) + 1)
	return append(append(append([]Op{}, ops[:k]...), op), ops[k:]...)
}

func (b *builder) sync(op *Op) {
	x := b.x
	if !b.writing {
		return
	}
	before := len(x.Fired)
	c := commit{from: len(x.FS.Journal)}
	c.state = takeSnap(b.pkg, b.m)
	c.state.base = b.base
	wpt, wpf := b.files()
	c.state.size = uint64(b.pkg.DataSize())
	c.to = 1 << 60
	b.commits = append(b.commits, c)
	err := b.pkg.Sync(wpt, wpf)
	p := &b.commits[len(b.commits)-1]
	p.to = len(x.FS.Journal)
	b.judge("sync", err, before)
	if err != nil {
		b.failed = "sync"
		b.readable("a failed sync")
		return
	}
	p.done = true
	b.failed = ""
	c.state.size = uint64(b.pkg.DataSize())
	if b.strict && !b.faulty {
		c.state.size = b.packed
	}
	b.com = c.state
	b.dirty = false
	if !b.split {
		b.writing = false
		if n := len(b.busy); n > 0 {
			b.busy[n-1].to = p.to
			b.busy[n-1].done = true
		}
	}
	x.Hit("sync")
	if len(c.state.keys) == 0 {
		x.Hit("sync-empty")
	}
	b.verifyNow(op)
	if b.onSync != nil {
		b.onSync()
	}
}

// verifyNow reopens the package after a successful sync.
func (b *builder) verifyNow(op *Op) {
	x := b.x
	x.Quiet(func() {
		rec := x.FS.Record
		x.FS.Record = false
		what, err := verify(b.tpath, b.dpath, b.com, op.ID, true)
		x.FS.Record = rec
		if err != nil {
			x.Fail("reopen-"+what, "the package reopened after sync: %v", err)
		}
	})
}

// readable checks that the committed state of a split package is still there.
func (b *builder) readable(why string) {
	x := b.x
	if !b.split || b.com == nil {
		return
	}
	x.Quiet(func() {
		rec := x.FS.Record
		x.FS.Record = false
		what, err := verify(b.tpath, b.dpath, b.com, len(x.Fired), false)
		x.FS.Record = rec
		if err != nil {
			x.Fail("lost-"+what, "after %s the previously synced state is not readable: %v", why, err)
		}
	})
}

// appendOp continues writing with the same handles.
func (b *builder) appendOp(op *Op) {
	x := b.x
	if b.com == nil || b.failed == "sync" {
		return
	}
	before := len(x.Fired)
	start := len(x.FS.Journal)
	wpt, wpf := b.files()
	err := b.pkg.Append(wpt, wpf)
	b.judge("append", err, before)
	if !b.split {
		if n := len(b.busy); n == 0 || b.busy[n-1].done {
			b.busy = append(b.busy, commit{from: start})
		}
	}
	b.dirty = true
	if err != nil {
		b.failed = "append"
		b.writing = false
		b.readable("a failed append")
		return
	}
	if b.failed == "append" {
		b.failed = ""
	}
	b.writing = true
	b.sessions++
	x.Hit("append")
}

// reopen closes the files and opens the package anew to append.
func (b *builder) reopen() {
	x := b.x
	x.Quiet(b.closeFiles)
	var err error
	x.Quiet(func() { err = b.openFiles(simos.O_RDWR) })
	if err != nil {
		x.Fail("create", "reopening the files: %v", err)
	}
	pkg := wpk.NewPackage()
	if b.used {
		pkg = b.pkg
	}
	before := len(x.Fired)
	err = pkg.OpenStream(b.wpt)
	b.judge("open", err, before)
	if err != nil {
		x.Quiet(func() { err = pkg.OpenStream(b.wpt) })
		if err != nil {
			x.Fail("reopen-open", "the package does not open for appending: %v", err)
		}
	}
	got := takeSnap(pkg, b.m)
	if err := b.com.diff(got); err != nil {
		x.Fail("reopen-table", "the package opened for appending: %v", err)
	}
	b.pkg = pkg
	x.Hit("reopen")
	start := len(x.FS.Journal)
	wpt, wpf := b.files()
	for try := 0; ; try++ {
		before = len(x.Fired)
		err = pkg.Append(wpt, wpf)
		b.judge("append", err, before)
		if !b.split && try == 0 {
			b.busy = append(b.busy, commit{from: start})
		}
		if err == nil {
			break
		}
		if try > 50 {
			x.Fail("stuck", "Append fails again and again: %v", err)
		}
		b.readable("a failed append")
	}
	b.writing = true
	b.sessions++
	b.dirty = true
	b.failed = ""
}

// anew begins another package, in new or in the same files, with the package
// object that has written one already.
func (b *builder) anew(op *Op) {
	x := b.x
	if b.com == nil || b.dirty || b.failed != "" {
		return
	}
	flag := simos.O_RDWR
	if op.N&1 == 1 {
		flag |= simos.O_TRUNC
	}
	x.Quiet(b.closeFiles)
	x.Quiet(func() {
		if err := b.openFiles(flag); err != nil {
			x.Fail("create", "opening the files: %v", err)
		}
	})
	for try := 0; ; try++ {
		before := len(x.Fired)
		wpt, wpf := b.files()
		err := b.pkg.Begin(wpt, wpf)
		b.judge("Begin with a package object used before", err, before)
		if err == nil {
			break
		}
		b.checkTable(op) // it is still the former package
		if try == 5 {    // there is space again
			x.FS.Full, x.FS.Limited = false, false
		}
		if try > 50 {
			x.Fail("stuck", "Begin fails again and again: %v", err)
		}
	}
	b.m.ents, b.m.idx = nil, nil
	b.packed, b.extents = 0, nil
	b.writing, b.dirty = true, true
	b.com = nil
	if b.split {
		b.com = &snap{}
	}
	b.sessions++
	x.Hit("anew")
	if n := b.pkg.DataSize(); n != 0 {
		x.Fail("datasize", "the package begun with an object used before has %d bytes of data", n)
	}
}

// finish lets faults stop, repeats what failed and commits.
func (b *builder) finish() {
	x := b.x
	x.quiet++
	x.FS.Full, x.FS.Limited = false, false
	if b.failed == "append" || !b.writing {
		if b.com != nil && (b.failed == "append" || b.dirty) {
			b.failed = ""
			b.appendOp(&Op{ID: 9001, K: "append"})
		}
	}
	if b.writing {
		b.sync(&Op{ID: 9002, K: "sync"})
		x.Check(!b.dirty, "stuck", "the final sync did not commit")
	}
	x.quiet--
	b.checkTable(&Op{K: "finish"})
	b.checkHeld(&Op{K: "finish"})
	b.closeFiles()
}

// runBuild executes the operations of task 0.
func (b *builder) run() {
	b.create()
	if b.ops == nil {
		b.ops = b.x.P.Tasks[0]
	}
	for i := range b.ops {
		b.step(&b.ops[i])
	}
	b.finish()
}

// --- generation ---

var names = []string{"a", "b.txt", "c", "d/a", "d/b.txt", "d/e/a", "d/e/f/g.bin", "dd/x", "Файл 1.txt", "x y (1).jpg", "d", "e/a"}

func pickName(r *simrt.Rng) string {
	switch r.N(40) {
	case 0:
		return strings.Repeat("n", r.Range(200, 255)) + ".bin"
	case 1:
		return "d\\b.txt"
	case 2:
		return "d\\e/a"
	case 3, 4, 5: // names that differ in case, look like patterns or sort around the slash
		return simrt.Pick(r, "A", "d/A", "D/a", "[d]/a*", "d.txt/a", "d-x/a", "d/e-x", "d/e.d/a", "C", "b.TXT")
	}
	return names[r.N(len(names))]
}

func pickSize(r *simrt.Rng) int64 {
	if r.N(12000) == 0 {
		return int64(simrt.Pick(r, 1<<20, 1<<20+1, 1<<20+70000, 1<<21+5, 3<<20))
	}
	switch r.N(24) {
	case 0, 1, 2:
		return 0
	case 3:
		return int64(simrt.Pick(r, 1, 2, 255, 256, 257))
	case 4:
		return int64(simrt.Pick(r, 4095, 4096, 4097, 511, 512, 513))
	case 5:
		return int64(simrt.Pick(r, 65535, 65536, 65537, 32767, 32768, 32769))
	case 6, 7:
		return int64(r.N(9000))
	}
	return int64(r.N(300))
}

func pickTid(r *simrt.Rng) int64 {
	if r.N(8) == 0 {
		return simrt.Pick(r, int64(wpk.TIDfid), int64(wpk.TIDattr), int64(wpk.TIDmtime), int64(wpk.TIDatime), int64(wpk.TIDctime), int64(wpk.TIDbtime), int64(wpk.TIDcrc32ieee), int64(wpk.TIDcrc64iso), int64(wpk.TIDsha512), int64(wpk.TIDtmbjpeg), int64(wpk.TIDkeywords), int64(wpk.TIDversion), 26, 255, 1<<24, 3<<24|232, 0x80<<24, 0xff<<24|255)
	}
	return simrt.Pick(r, int64(wpk.TIDlabel), int64(wpk.TIDlink), int64(wpk.TIDmime), int64(wpk.TIDcomment), int64(wpk.TIDmd5), int64(wpk.TIDauthor))
}

func pickLen(r *simrt.Rng) int64 {
	switch r.N(12) {
	case 0:
		return 0
	case 1:
		return int64(r.Range(200, 3000))
	}
	return int64(r.N(24))
}

// capSizes bounds the sizes of files and tables where everything is read many
// times.
func capSizes(ops []Op) {
	for i := range ops {
		op := &ops[i]
		switch {
		case (op.K == "pack" || op.K == "packfile") && op.N >= 1<<20:
			op.N %= 70000
		case op.K == "wide":
			op.N %= 45
		}
	}
}

// genOps draws a history. The weights themselves vary from run to run.
func genOps(r *simrt.Rng, n int, weights map[string]int) (ops []Op) {
	kinds := []string{"pack", "packfile", "alias", "rename", "renamedir", "del", "settag", "addtag", "deltag", "puttag", "setinfo", "hold", "sync", "append", "reopen", "long", "retag", "mass"}
	var bag []string
	for _, k := range kinds {
		w := weights[k]
		if w > 0 {
			w = w * simrt.Pick(r, 0, 1, 1, 2)
			if k == "pack" || k == "sync" || k == "append" {
				w = max(w, weights[k])
			}
		}
		for i := 0; i < w; i++ {
			bag = append(bag, k)
		}
	}
	views := r.N(3) == 0
	few := r.N(2) == 0
	name := func() string {
		if few {
			return names[r.N(5)]
		}
		return pickName(r)
	}
	for i := 0; i < n; i++ {
		op := Op{K: bag[r.N(len(bag))]}
		if views && r.N(2) == 0 {
			op.M |= int64(r.N(3)) << 8
			op.M |= int64(r.N(2)) << 10
		}
		switch op.K {
		case "pack", "packfile":
			op.A, op.N = name(), pickSize(r)
			op.M |= int64(r.N(4)) | int64(r.N(128))<<16
		case "alias", "rename":
			op.A, op.B = name(), name()
		case "renamedir":
			dirs := []string{"d", "d/e", "dd", "", "z", "e"}
			op.A, op.B = dirs[r.N(len(dirs))], dirs[r.N(len(dirs))]
			for _, d := range []*string{&op.A, &op.B} { // other ways to write it
				if *d != "" && r.N(12) == 0 {
					*d += simrt.Pick(r, "/", "\\")
				}
				if r.N(12) == 0 {
					*d = strings.ReplaceAll(*d, "/", "\\")
				}
			}
			op.N = int64(r.N(2))
		case "del":
			op.A = name()
		case "settag", "addtag", "deltag", "puttag":
			op.A, op.N = name(), pickLen(r)
			op.M |= pickTid(r) | int64(r.N(2))<<12
		case "setinfo":
			op.N = int64(r.N(600))
			op.M = pickTid(r)
		case "hold":
			if r.N(2) == 0 {
				op.A = name()
			}
		case "long":
			op.A, op.N, op.M = name(), int64(r.N(1<<30)), int64(r.N(2))
		case "retag":
			op.A, op.N = name(), int64(r.N(1<<30))
		case "mass":
			op.N = 1
			if r.N(40) == 0 {
				op.N = int64(r.Range(200, 700))
			}
		}
		ops = append(ops, op)
		if op.K == "sync" && r.N(3) > 0 {
			ops = append(ops, Op{K: simrt.Pick(r, "append", "append", "reopen")})
		}
	}
	if weights["settag"] > 0 && r.N(100) == 0 {
		for k := r.Range(2, 4); k > 0; k-- { // a table of more than 64 KB
			i := r.N(len(ops) + 1)
			op := Op{K: "settag", A: names[r.N(5)], N: int64(r.Range(20000, 45000)), M: int64(wpk.TIDcomment)}
			ops = append(append(append([]Op{}, ops[:i]...), op), ops[i:]...)
		}
	}
	if weights["pack"] > 0 && r.N(150) == 0 {
		ops = addWide(r, ops)
		for i := range ops {
			if ops[i].K == "wide" && ops[i].N > 40 && r.N(4) > 0 {
				ops[i].N %= 40
			}
		}
	}
	return
}

func weights(kv ...any) map[string]int {
	m := map[string]int{}
	for i := 0; i < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1].(int)
	}
	return m
}

func genCfg(r *simrt.Rng) map[string]int64 {
	return map[string]int64{"split": int64(r.N(2)), "same": int64(r.N(2)), "deepdir": int64(r.N(8) / 7), "pre": int64(r.N(6) / 5)}
}

// choked is a writer that fails after some bytes.
type choked struct {
	buf  []byte
	left int
}

var errChoked = errors.New("no space left for the table")

func (c *choked) Write(b []byte) (int, error) {
	n := min(len(b), c.left)
	c.buf = append(c.buf, b[:n]...)
	c.left -= n
	if n < len(b) {
		return n, errChoked
	}
	return n, nil
}

// dump writes the table by itself: into a writer that takes everything, and
// into one that fails on the way.
func (b *builder) dump(op *Op) {
	x := b.x
	all := &choked{left: 1 << 40}
	n, err := b.pkg.FTT.WriteTo(all)
	if err != nil {
		x.Fail("dump", "writing the table fails: %v", err)
	}
	if int(n) != len(all.buf) {
		x.Fail("dump", "writing the table of %d bytes tells %d", len(all.buf), n)
	}
	want := takeSnap(b.pkg, b.m)
	got := &snap{keys: want.keys, blks: want.blks}
	rest := all.buf
	for i := 0; ; i++ {
		if len(rest) < 2 {
			x.Fail("dump", "the table of %d bytes has no end", n)
		}
		l := int(binary.LittleEndian.Uint16(rest))
		if rest = rest[2:]; l > len(rest) || l == 0 && i > 0 {
			break
		}
		if i == 0 {
			got.info = string(rest[:l])
		} else {
			got.sets = append(got.sets, string(rest[:l]))
		}
		rest = rest[l:]
	}
	if len(rest) != 0 || len(got.sets) != len(want.sets) {
		x.Fail("dump", "the table written has %d entries and %d bytes after them, expected %d entries", len(got.sets), len(rest), len(want.sets))
	}
	if err := want.diff(got); err != nil {
		x.Fail("dump", "the table written: %v", err)
	}
	r := simrt.NewRng(uint64(op.N) + 77)
	for i := 0; i < 4; i++ {
		c := &choked{left: r.N(int(n))}
		if i == 0 {
			c.left = max(0, int(n)-1-r.N(4))
		}
		room := c.left
		m, err := b.pkg.FTT.WriteTo(c)
		if err == nil {
			x.Fail("swallowed", "writing the table of %d bytes reports success although only %d bytes were taken", n, room)
		}
		if m > int64(len(c.buf)) {
			x.Fail("dump", "writing the table tells %d bytes, %d were taken", m, len(c.buf))
		}
	}
	x.Hit("dump")
}
