package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"io/fs"
	"sort"
	"strings"
	"time"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/bulk"
	"github.com/schwarzlichtbezirk/wpk/fsys"
	"github.com/schwarzlichtbezirk/wpk/mmap"

	"wpkverif/simos"
	"wpkverif/simrt"
)

// block is the data of a packed file.
type block struct {
	id   int64
	size int
	data []byte // nil until asked for
	off  uint64 // where the package put it
}

func (b *block) bytes() []byte {
	if b.data == nil && b.size > 0 {
		b.data = content(b.id, b.size)
	}
	return b.data
}

// ment is an entry of the reference model: its tags by ID, except that the
// offset is taken from the package and checked against the data.
type ment struct {
	key  string
	tags map[uint16]string
	blk  *block
}

func (e *ment) clone() *ment {
	n := &ment{key: e.key, blk: e.blk, tags: map[uint16]string{}}
	for k, v := range e.tags {
		n.tags[k] = v
	}
	return n
}

// model is the sequential reference of a package table.
type model struct {
	ents []*ment
	info map[uint16]string
	idx  map[string]*ment // of many entries
}

func (m *model) find(key string) *ment {
	if len(m.ents) > 64 {
		if m.idx == nil {
			m.idx = map[string]*ment{}
			for _, e := range m.ents {
				m.idx[e.key] = e
			}
		}
		return m.idx[key]
	}
	for _, e := range m.ents {
		if e.key == key {
			return e
		}
	}
	return nil
}

func (m *model) add(e *ment) {
	m.ents = append(m.ents, e)
	if m.idx != nil {
		m.idx[e.key] = e
	}
}

func (m *model) del(key string) bool {
	m.idx = nil
	for i, e := range m.ents {
		if e.key == key {
			m.ents = append(m.ents[:i:i], m.ents[i+1:]...)
			return true
		}
	}
	return false
}

func (m *model) clone() *model {
	n := &model{info: map[uint16]string{}}
	for _, e := range m.ents {
		n.ents = append(n.ents, e.clone())
	}
	for k, v := range m.info {
		n.info[k] = v
	}
	return n
}

func (m *model) keys() (l []string) {
	for _, e := range m.ents {
		l = append(l, e.key)
	}
	sort.Strings(l)
	return
}

// parseTags is an independent reader of the tagset format.
func parseTags(ts []byte) (m map[uint16]string, order []uint16, err error) {
	m = map[uint16]string{}
	for p := 0; p < len(ts); {
		if p+4 > len(ts) {
			return nil, nil, fmt.Errorf("tag header cut at %d of %d", p, len(ts))
		}
		id, n := binary.LittleEndian.Uint16(ts[p:]), int(binary.LittleEndian.Uint16(ts[p+2:]))
		p += 4
		if p+n > len(ts) {
			return nil, nil, fmt.Errorf("tag %d of %d bytes cut at %d of %d", id, n, p, len(ts))
		}
		if _, dup := m[id]; dup {
			return nil, nil, fmt.Errorf("tag %d twice", id)
		}
		m[id] = string(ts[p : p+n])
		order = append(order, id)
		p += n
	}
	return
}

func uintOf(s string) uint64 {
	b := []byte(s)
	switch len(b) {
	case 1:
		return uint64(b[0])
	case 2:
		return uint64(binary.LittleEndian.Uint16(b))
	case 4:
		return uint64(binary.LittleEndian.Uint32(b))
	case 8:
		return binary.LittleEndian.Uint64(b)
	}
	return ^uint64(0)
}

// sameTags compares a tagset with the model's entry.
func sameTags(ts []byte, e *ment) error {
	got, _, err := parseTags(ts)
	if err != nil {
		return err
	}
	if len(e.tags) > 0 || e.blk != nil {
		off, ok := got[uint16(wpk.TIDoffset)]
		if !ok {
			return fmt.Errorf("no offset tag")
		}
		if uintOf(off) != e.blk.off {
			return fmt.Errorf("offset %d, packed at %d", uintOf(off), e.blk.off)
		}
		size, ok := got[uint16(wpk.TIDsize)]
		if !ok || uintOf(size) != uint64(e.blk.size) {
			return fmt.Errorf("size tag %x, packed %d bytes", size, e.blk.size)
		}
		if got[uint16(wpk.TIDpath)] != e.key {
			return fmt.Errorf("path tag %q of entry %q", got[uint16(wpk.TIDpath)], e.key)
		}
		delete(got, uint16(wpk.TIDoffset))
		delete(got, uint16(wpk.TIDsize))
		delete(got, uint16(wpk.TIDpath))
	}
	return diffTags(got, e.tags)
}

func diffTags(got, want map[uint16]string) error {
	for k, v := range want {
		g, ok := got[k]
		if !ok {
			return fmt.Errorf("tag %d is lost", k)
		}
		if g != v {
			return fmt.Errorf("tag %d is %s, expected %s", k, short(g), short(v))
		}
	}
	for k, v := range got {
		if _, ok := want[k]; !ok {
			return fmt.Errorf("unexpected tag %d = %s", k, short(v))
		}
	}
	return nil
}

func short(s string) string {
	if len(s) > 24 {
		return fmt.Sprintf("%x...(%d)", s[:24], len(s))
	}
	return fmt.Sprintf("%x", s)
}

// snap is the exact table at one moment.
type snap struct {
	keys []string
	sets []string
	info string
	blks []*block
	base uint64 // data offset
	size uint64 // data size
}

// takeSnap reads the table of a package (in the writer's order).
func takeSnap(pkg *wpk.Package, m *model) *snap {
	s := &snap{info: string(pkg.GetInfo())}
	root := &wpk.Package{FTT: pkg.FTT, Workspace: "."}
	root.Enum(func(k string, ts wpk.TagsetRaw) bool {
		s.keys = append(s.keys, strings.Clone(k))
		s.sets = append(s.sets, string(ts))
		var b *block
		if m != nil {
			if e := m.find(k); e != nil {
				b = e.blk
			}
		}
		s.blks = append(s.blks, b)
		return true
	})
	return s
}

func (s *snap) diff(o *snap) error {
	if s.info != o.info {
		return fmt.Errorf("package info %s, expected %s", short(o.info), short(s.info))
	}
	for i := range s.keys {
		if i >= len(o.keys) {
			return fmt.Errorf("%d entries, expected %d: %q is missing", len(o.keys), len(s.keys), s.keys[i])
		}
		if o.keys[i] != s.keys[i] {
			return fmt.Errorf("entry %d is %q, expected %q", i, o.keys[i], s.keys[i])
		}
		if o.sets[i] != s.sets[i] {
			return fmt.Errorf("tags of %q are %s, expected %s", s.keys[i], short(o.sets[i]), short(s.sets[i]))
		}
	}
	if len(o.keys) > len(s.keys) {
		return fmt.Errorf("%d entries, expected %d: %q is new", len(o.keys), len(s.keys), o.keys[len(s.keys)])
	}
	return nil
}

func (s *snap) String() string { return fmt.Sprintf("%d entries %q", len(s.keys), s.keys) }

// tagger opens the data of a package by one of the access methods.
func tagger(how int, dpath string) (wpk.Tagger, error) {
	switch how % 3 {
	case 0:
		return bulk.MakeTagger(dpath)
	case 1:
		return mmap.MakeTagger(dpath)
	default:
		return fsys.MakeTagger(dpath)
	}
}

// openPkg opens a package for reading.
func openPkg(tpath, dpath string, how int) (pkg *wpk.Package, err error) {
	pkg = wpk.NewPackage()
	if how/3&1 != 0 { // the object was used for another package before
		pkg.SetInfo(wpk.TagsetRaw{}.Put(wpk.TIDlabel, wpk.StrTag("stale")))
		pkg.SetTagset("stale", pkg.BaseTagset(64, 3, "stale"))
	}
	if err = pkg.OpenFile(tpath); err != nil {
		return nil, err
	}
	if pkg.Tagger, err = tagger(how, dpath); err != nil {
		return nil, err
	}
	return
}

// readBack reads every listed file and compares it with what was packed.
func readBack(pkg *wpk.Package, s *snap) error {
	for i, k := range s.keys {
		b := s.blks[i]
		if b == nil {
			continue
		}
		if b.size > 1<<27 {
			continue
		}
		got, err := pkg.ReadFile(k)
		if err != nil {
			return fmt.Errorf("reading %q: %v", k, err)
		}
		if !bytes.Equal(got, b.bytes()) {
			return fmt.Errorf("content of %q differs from what was packed (%d bytes, expected %d, first difference at %d)", k, len(got), b.size, firstDiff(got, b.bytes()))
		}
	}
	return nil
}

func firstDiff(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

// verify opens the package on the current file system and compares it with
// the expected table; it returns what differs.
func verify(tpath, dpath string, want *snap, how int, strictHeader bool) (string, error) {
	if fi := simos.Cur.Look(dpath); fi != nil && fi.Size() > 1<<27 && how%3 == 0 {
		how++
	}
	pkg, err := openPkg(tpath, dpath, how)
	if err != nil {
		return "open", err
	}
	defer pkg.Close()
	got := takeSnap(pkg, nil)
	if err := want.diff(got); err != nil {
		return "table", err
	}
	if n := pkg.TagsetNum(); n != len(want.keys) {
		return "count", fmt.Errorf("TagsetNum %d, expected %d", n, len(want.keys))
	}
	if err := readBack(pkg, want); err != nil {
		return "content", err
	}
	if strictHeader {
		f, err := simos.Open(tpath)
		if err != nil {
			return "open", err
		}
		defer f.Close()
		hdr, info, err := wpk.GetPackageInfo(f)
		if err != nil {
			return "info", err
		}
		if string(info) != want.info {
			return "info", fmt.Errorf("GetPackageInfo gives %s, expected %s", short(string(info)), short(want.info))
		}
		if hdr.Count() != len(want.keys) {
			return "header", fmt.Errorf("header count %d, expected %d", hdr.Count(), len(want.keys))
		}
		size := uint(2 + len(want.info) + 2)
		for _, t := range want.sets {
			size += uint(2 + len(t))
		}
		if hdr.FttSize() != size {
			return "header", fmt.Errorf("header table size %d, expected %d", hdr.FttSize(), size)
		}
		if uint64(hdr.DataSize()) != want.size {
			return "header", fmt.Errorf("header data size %d, expected %d", hdr.DataSize(), want.size)
		}
		if uint64(pkg.DataSize()) != want.size {
			return "header", fmt.Errorf("DataSize %d after reopening, expected %d", pkg.DataSize(), want.size)
		}
	}
	return "", nil
}

// srcReader streams data in the way the seed decides and fails where the plan
// says.
type srcReader struct {
	x    *Exec
	data []byte
	pos  int
	rng  *simrt.Rng
	mode int // 0 whole, 1 small pieces, 2 data with EOF, 3 zero-length reads in between
	errs int
}

func (r *srcReader) Read(b []byte) (int, error) {
	simrt.Point()
	op, nth := simrt.NextIO()
	f := r.x.fault(op, nth, "src", "source", len(b))
	if f != nil {
		r.x.FS.Fired["src-"+f.Kind]++
		k := 0
		if f.Kind != "err" && len(b) > 0 {
			k = f.N % (len(b) + 1)
		}
		k = min(k, len(r.data)-r.pos)
		copy(b, r.data[r.pos:r.pos+k])
		r.pos += k
		if f.Kind == "short" && k > 0 {
			return k, nil
		}
		r.errs++
		return k, fmt.Errorf("source failed")
	}
	if len(b) == 0 {
		return 0, nil
	}
	if r.pos >= len(r.data) {
		return 0, io.EOF
	}
	n := min(len(b), len(r.data)-r.pos)
	switch r.mode {
	case 1:
		n = min(n, r.rng.Range(1, 700))
	case 3:
		if r.rng.P(0.1) {
			return 0, nil
		}
		n = min(n, r.rng.Range(1, 5000))
	}
	copy(b, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.mode == 2 && r.pos == len(r.data) {
		return n, io.EOF
	}
	return n, nil
}

// srcWriter is a source that delivers itself, as strings.Reader, bytes.Buffer
// and bufio.Reader do.
type srcWriter struct{ *srcReader }

func (r srcWriter) WriteTo(w io.Writer) (n int64, err error) {
	buf := make([]byte, 32*1024)
	for {
		k, e := r.Read(buf)
		if k > 0 {
			m, e := w.Write(buf[:k])
			n += int64(m)
			if e != nil {
				return n, e
			}
			if m != k {
				return n, io.ErrShortWrite
			}
		}
		if e == io.EOF {
			return n, nil
		}
		if e != nil {
			return n, e
		}
	}
}

// source gives the reader of one of several kinds.
func (r *srcReader) source(kind int64) io.Reader {
	switch kind {
	case 0:
		return srcWriter{r}
	case 1:
		return bytes.NewReader(r.data)
	}
	return r
}

// srcFile is a file that is not of the operating system.
type srcFile struct {
	*srcReader
	fi fs.FileInfo
}

func (f srcFile) Stat() (fs.FileInfo, error) { return f.fi, nil }
func (f srcFile) Close() error               { return nil }

// srcInfo is what other file systems (embed.FS, fstest.MapFS, zip.Reader) tell about their files.
type srcInfo struct {
	name string
	size int64
	at   time.Time
	sys  any
}

func (i srcInfo) Name() string       { return i.name }
func (i srcInfo) Size() int64        { return i.size }
func (i srcInfo) Mode() fs.FileMode  { return 0444 }
func (i srcInfo) ModTime() time.Time { return i.at }
func (i srcInfo) IsDir() bool        { return false }
func (i srcInfo) Sys() any           { return i.sys }

// foreign makes a file of a package (as opened nested files are) or of any
// other file system, and gives the time tags the entry should have.
func foreign(op *Op, r *srcReader) (srcFile, map[uint16]string) {
	tags := map[uint16]string{}
	if op.M>>19&1 == 0 { // of a package
		ts := wpk.TagsetRaw{}.Put(wpk.TIDoffset, wpk.UintTag(77)).Put(wpk.TIDsize, wpk.UintTag(uint(len(r.data)))).Put(wpk.TIDpath, wpk.StrTag("of/other"))
		for i, tid := range []wpk.TID{wpk.TIDmtime, wpk.TIDatime, wpk.TIDctime, wpk.TIDbtime} {
			if op.ID>>i&1 == 0 {
				v := timeTag(timeOf(op, int64(i)))
				tags[uint16(tid)] = v
				ts = ts.Put(tid, wpk.TagRaw(v))
			}
		}
		return srcFile{r, ts}, tags
	}
	i := srcInfo{name: "other", size: int64(len(r.data))}
	if op.ID&1 == 0 {
		i.at = time.Unix(0, timeOf(op, 2))
		tags[uint16(wpk.TIDmtime)] = timeTag(timeOf(op, 2))
	}
	if op.ID&2 == 0 {
		i.sys = &tags
	}
	if op.ID&4 == 0 { // as pipes, devices and files of /proc tell
		i.size = 0
	}
	return srcFile{r, i}, tags
}
