package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/bits"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/schwarzlichtbezirk/wpk"

	"wpkverif/simos"
	"wpkverif/simrt"
)

// cin and cout are the call and the result of a history entry.
type cin struct {
	k, a, b, v string
	skip       bool
}

type cout struct {
	err  string // "", exist, notexist, io
	ok   bool
	val  string
	list string
	n    int
}

func (i cin) String() string { return fmt.Sprintf("%s(%s,%s,%s)", i.k, i.a, i.b, i.v) }
func (o cout) String() string {
	return fmt.Sprintf("err=%q ok=%v val=%q n=%d list=%s", o.err, o.ok, o.val, o.n, o.list)
}

// conc drives one package from several tasks and records the history.
type conc struct {
	x     *Exec
	split bool
	tpath string
	dpath string
	pkg   *wpk.Package
	wpt   *simos.File
	wpf   *simos.File
	hist  []porcupine.Operation
	blks  map[int]*block // by size: every block of a run has a size of its own
	acked map[string]*block
	off0  uint64
	size0 int
	head  map[int64]string // task -> committed table of its last header write
	img   []image
	base  uint64
}

// image is a committed table found on disk.
type image struct {
	list string
	info string
	at   int64
}

func newConc(x *Exec) *conc {
	c := &conc{x: x, split: x.is("split"), blks: map[int]*block{}, acked: map[string]*block{}, head: map[int64]string{}}
	c.tpath, c.dpath = singlePath, singlePath
	c.base = wpk.HeaderSize
	if c.split {
		c.tpath, c.dpath = tagsPath, dataPath
		c.base = 0
	}
	return c
}

func (c *conc) files() (wpt, wpf io.WriteSeeker) {
	if c.split {
		return c.wpt, c.wpf
	}
	return c.wpt, nil
}

func (c *conc) w() io.WriteSeeker {
	if c.split {
		return c.wpf
	}
	return c.wpt
}

// start creates the package; it runs before there are other tasks.
func (c *conc) start() {
	x := c.x
	x.Quiet(func() {
		var err error
		c.wpt, err = simos.OpenFile(c.tpath, simos.O_RDWR|simos.O_CREATE|simos.O_TRUNC, 0644)
		if err == nil && c.split {
			c.wpf, err = simos.OpenFile(c.dpath, simos.O_RDWR|simos.O_CREATE|simos.O_TRUNC, 0644)
		}
		if err != nil {
			x.Fail("create", "creating the files: %v", err)
		}
		c.pkg = wpk.NewPackage()
		wpt, wpf := c.files()
		if err = c.pkg.Begin(wpt, wpf); err != nil {
			x.Fail("create", "Begin: %v", err)
		}
	})
	x.FS.OnWrite = func(p string, ino, off int64, data []byte) {
		if p != c.tpath || off != 0 || len(data) < 64 || string(data[:24]) != wpk.SignReady {
			return
		}
		c.committed(data)
	}
}

// committed reads the table a header refers to from the bytes on disk.
func (c *conc) committed(hdr []byte) {
	x := c.x
	le := binary.LittleEndian
	count, foff, fsize := le.Uint64(hdr[24:]), le.Uint64(hdr[32:]), le.Uint64(hdr[40:])
	doff, dsize := le.Uint64(hdr[48:]), le.Uint64(hdr[56:])
	if fsize > 1<<24 {
		x.Fail("commit", "the header gives a table of %d bytes", fsize)
	}
	if doff != c.base {
		x.Fail("commit", "the header gives the data offset %d", doff)
	}
	buf := make([]byte, fsize)
	if n := x.FS.Look(c.tpath).ReadAt(buf, int64(foff)); n != int(fsize) {
		x.Fail("commit", "the header gives a table at %d of %d bytes, the file ends before", foff, fsize)
	}
	sets, info, err := parseTable(buf)
	if err != nil {
		x.Fail("commit", "the table a sync commits: %v", err)
	}
	if int(count) != len(sets) {
		x.Fail("commit", "the header counts %d entries, the table has %d", count, len(sets))
	}
	l := map[string]string{}
	for _, ts := range sets {
		m, _, err := parseTags(ts)
		if err != nil {
			x.Fail("commit", "the table a sync commits: %v", err)
		}
		k := m[uint16(wpk.TIDpath)]
		if _, dup := l[k]; dup {
			x.Fail("commit", "the table a sync commits lists %q twice", k)
		}
		off, size := uintOf(m[uint16(wpk.TIDoffset)]), uintOf(m[uint16(wpk.TIDsize)])
		if off < doff || off+size > doff+dsize {
			x.Fail("commit", "the table a sync commits lists %q at [%d,%d), the data block is [%d,%d)", k, off, off+size, doff, doff+dsize)
		}
		b := c.blks[int(size)]
		if b == nil {
			x.Fail("commit", "the table a sync commits lists %q with the size %d nobody packed", k, size)
		}
		got := make([]byte, size)
		if n := x.FS.Look(c.dpath).ReadAt(got, int64(off)); n != int(size) || !bytes.Equal(got, b.bytes()) {
			x.Fail("commit-content", "the data of %q is not what was packed when the table listing it is committed", k)
		}
		l[k] = value(ts)
	}
	if len(info) > 0 {
		m, _, err := parseTags(info)
		if err != nil {
			x.Fail("commit", "the package info a sync commits: %v", err)
		}
		l[infoKey] = m[uint16(wpk.TIDlabel)]
	}
	im := image{list: setString(l), info: string(info), at: simrt.Seq()}
	c.img = append(c.img, im)
	c.head[int64(simrt.ID())] = im.list
}

// parseTable is an independent reader of the table format.
func parseTable(b []byte) (sets [][]byte, info []byte, err error) {
	p := 0
	next := func() ([]byte, error) {
		if p+2 > len(b) {
			return nil, fmt.Errorf("table cut at %d of %d", p, len(b))
		}
		n := int(binary.LittleEndian.Uint16(b[p:]))
		p += 2
		if p+n > len(b) {
			return nil, fmt.Errorf("tagset of %d bytes cut at %d of %d", n, p, len(b))
		}
		p += n
		return b[p-n : p], nil
	}
	if info, err = next(); err != nil {
		return
	}
	for {
		ts, err := next()
		if err != nil {
			return nil, nil, err
		}
		if len(ts) == 0 {
			break
		}
		sets = append(sets, ts)
	}
	if p != len(b) {
		return nil, nil, fmt.Errorf("%d bytes behind the end of the table", len(b)-p)
	}
	return
}

// value identifies an entry: the block it refers to and how it was tagged.
func value(ts []byte) string {
	m, _, err := parseTags(ts)
	if err != nil {
		return "damaged: " + err.Error()
	}
	s := fmt.Sprint(uintOf(m[uint16(wpk.TIDsize)]))
	if v, ok := m[uint16(wpk.TIDmtime)]; ok {
		s += fmt.Sprintf(":f%x", v)
	}
	if v, ok := m[uint16(wpk.TIDlabel)]; ok {
		s += ":" + v
	}
	return s
}

func setString(m map[string]string) string {
	l := make([]string, 0, len(m))
	for k, v := range m {
		l = append(l, k+"="+v)
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

func parseSet(s string) map[string]string {
	m := map[string]string{}
	if s == "" {
		return m
	}
	for _, e := range strings.Split(s, ";") {
		k, v, _ := strings.Cut(e, "=")
		m[k] = v
	}
	return m
}

func errKind(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, fs.ErrExist):
		return "exist"
	case errors.Is(err, fs.ErrNotExist):
		return "notexist"
	}
	return "io"
}

// record runs one call and adds it to the history.
func (c *conc) record(in cin, f func() cout) cout {
	i := len(c.hist)
	c.hist = append(c.hist, porcupine.Operation{ClientId: simrt.ID(), Input: in, Call: simrt.Seq(), Return: -1})
	out := f()
	c.hist[i].Output = out
	c.hist[i].Return = simrt.Seq()
	return out
}

// blockFor makes the data of an operation; sizes are unique.
func (c *conc) blockFor(op *Op) *block {
	size := int(op.N)
	b := c.blks[size]
	if b == nil {
		b = &block{id: int64(c.x.P.Seed>>1) ^ int64(size)<<20, size: size}
		c.blks[size] = b
	}
	return b
}

func (c *conc) checkTs(k string, ts wpk.TagsetRaw) string {
	m, _, err := parseTags(ts)
	if err != nil {
		c.x.Fail("tags", "the tagset of %q is damaged: %v", k, err)
	}
	if m[uint16(wpk.TIDpath)] != k {
		c.x.Fail("tags", "the entry %q carries the name %q", k, m[uint16(wpk.TIDpath)])
	}
	return value(ts)
}

// do executes one operation of a client.
func (c *conc) do(op *Op) {
	x := c.x
	simrt.SetOp(op.ID)
	defer simrt.SetOp(-1)
	pkg := c.pkg
	key, key2 := op.A, op.B
	if i := strings.IndexByte(key, '/'); i > 0 && op.M&16 != 0 && (key2 == "" || strings.HasPrefix(key2, key[:i+1])) {
		pkg = &wpk.Package{FTT: pkg.FTT, Tagger: pkg.Tagger, Workspace: key[:i]}
		key = key[i+1:]
		if key2 != "" {
			key2 = key2[i+1:]
		}
	}
	switch op.K {
	case "pack", "packfile":
		b := c.blockFor(op)
		v := fmt.Sprint(b.size)
		before := len(x.Fired)
		var file *simos.File
		if op.K == "packfile" {
			x.Quiet(func() {
				src := fmt.Sprintf("/work/src/%d.bin", op.ID)
				in := x.FS.Put(src, b.bytes())
				in.SetTimes(timeOf(op, 1), timeOf(op, 2), timeOf(op, 3))
				simrt.Atomic(func() { file, _ = simos.Open(src) })
			})
			v += fmt.Sprintf(":f%x", timeTag(timeOf(op, 2)))
		}
		c.record(cin{k: "pack", a: op.A, v: v}, func() (o cout) {
			var ts wpk.TagsetRaw
			var err error
			if file != nil {
				ts, err = pkg.PackFile(c.w(), file, key)
			} else {
				r := &srcReader{x: x, data: b.bytes(), rng: simrt.NewRng(uint64(op.ID)), mode: int(op.M & 3)}
				ts, err = pkg.PackData(c.w(), r.source(op.M>>8&7), key)
			}
			o.err = errKind(err)
			if err == nil {
				if got := c.checkTs(op.A, ts); got != v {
					x.Fail("tags", "pack of %q returned %s, expected %s", op.A, got, v)
				}
				off, _ := ts.Pos()
				nb := &block{id: b.id, size: b.size, data: b.data, off: uint64(off)}
				c.acked[fmt.Sprintf("%d@%d", b.size, off)] = nb
				if c.size0 == 0 {
					c.size0, c.off0 = b.size, nb.off
				}
			}
			if o.err == "io" && !c.mine(before, op.ID) {
				x.Fail("spurious", "pack failed without a fault: %v", err)
			}
			return
		})
		if file != nil {
			simrt.Atomic(func() { x.Quiet(func() { file.Close() }) })
		}
	case "rename", "alias":
		c.record(cin{k: op.K, a: op.A, b: op.B}, func() (o cout) {
			if op.K == "rename" {
				o.err = errKind(pkg.Rename(key, key2))
			} else {
				o.err = errKind(pkg.PutAlias(key, key2))
			}
			return
		})
	case "renamedir":
		c.record(cin{k: op.K, a: op.A, b: op.B, skip: op.N != 0}, func() (o cout) {
			var err error
			o.n, err = pkg.RenameDir(op.A, op.B, op.N != 0)
			o.err = errKind(err)
			return
		})
	case "del":
		c.record(cin{k: op.K, a: op.A}, func() (o cout) {
			var ts wpk.TagsetRaw
			if ts, o.ok = pkg.DelTagset(op.A); o.ok {
				o.val = c.checkTs(op.A, ts)
			}
			return
		})
	case "get":
		c.get(op)
	case "stat":
		c.record(cin{k: "get", a: op.A}, func() (o cout) {
			fi, err := pkg.Stat(op.A)
			if err == nil {
				if ts, is := fi.(wpk.TagsetRaw); is {
					o.ok = true
					o.val = c.checkTs(op.A, ts)
				}
			}
			return
		})
	case "has":
		c.record(cin{k: op.K, a: op.A}, func() (o cout) {
			o.ok = pkg.HasTagset(op.A)
			return
		})
	case "len":
		c.record(cin{k: op.K}, func() (o cout) {
			o.n = pkg.TagsetNum()
			return
		})
	case "put", "edit":
		size, off := c.size0, c.off0
		if op.K == "put" && size == 0 {
			return
		}
		v := fmt.Sprintf("%d:e%d", size, op.ID)
		ts := wpk.TagsetRaw{}
		if op.K == "edit" {
			old, ok := c.get(op)
			if !ok {
				return
			}
			ts = wpk.CopyTagset(old).Set(wpk.TIDlabel, wpk.StrTag(fmt.Sprintf("e%d", op.ID)))
			v = value(ts)
		} else {
			ts = ts.Put(wpk.TIDoffset, wpk.UintTag(uint(off))).Put(wpk.TIDsize, wpk.UintTag(uint(size))).
				Put(wpk.TIDpath, wpk.StrTag(op.A)).Put(wpk.TIDlabel, wpk.StrTag(fmt.Sprintf("e%d", op.ID)))
		}
		c.record(cin{k: "put", a: op.A, v: v}, func() (o cout) {
			if op.M&1 == 0 {
				pkg.SetTagset(op.A, ts)
			} else {
				pkg.SetupTagset(ts)
			}
			return
		})
	case "list":
		c.record(cin{k: op.K}, func() (o cout) {
			m := map[string]string{}
			pkg.Enum(func(k string, ts wpk.TagsetRaw) bool {
				if _, dup := m[k]; dup {
					x.Fail("twice", "a listing shows %q twice", k)
				}
				m[strings.Clone(k)] = c.checkTs(k, ts)
				return true
			})
			o.list = setString(m)
			return
		})
	case "setinfo":
		c.record(cin{k: op.K, v: fmt.Sprintf("i%d", op.ID)}, func() (o cout) {
			pkg.SetInfo(wpk.TagsetRaw{}.Put(wpk.TIDlabel, wpk.StrTag(fmt.Sprintf("i%d", op.ID))))
			return
		})
	case "info":
		c.record(cin{k: op.K}, func() (o cout) {
			ts := pkg.GetInfo()
			m, _, err := parseTags(ts)
			if err != nil {
				x.Fail("tags", "the package info is damaged: %v", err)
			}
			o.val, o.ok = m[uint16(wpk.TIDlabel)]
			return
		})
	case "size":
		// all that was acknowledged is in the data block
		end := c.base
		for _, b := range c.acked {
			if e := b.off + uint64(b.size); e > end {
				end = e
			}
		}
		// so is all that is seen in the table
		var key string
		var seen uint64
		if op.M&1 == 1 {
			pkg.Enum(func(k string, ts wpk.TagsetRaw) bool {
				if off, size := ts.Pos(); uint64(off)+uint64(size) > seen {
					key, seen = strings.Clone(k), uint64(off)+uint64(size)
				}
				return true
			})
		}
		got := c.base + uint64(pkg.DataSize())
		if got < seen {
			x.Fail("datasize", "DataSize gives the end %d after a listing showed %q with the end %d", got, key, seen)
		}
		if got < end {
			x.Fail("datasize", "DataSize gives the end %d when a block with the end %d was acknowledged", got, end)
		}
		if pkg.IsSplitted() != c.split {
			x.Fail("splitted", "IsSplitted is %v", !c.split)
		}
		if pkg.Tagger != nil {
			c.whole()
		}
	case "sync":
		c.sync(op)
	case "readdir":
		c.record(cin{k: op.K, a: op.A}, func() (o cout) {
			l, err := pkg.ReadDir(op.A)
			if o.err = errKind(err); err == io.EOF {
				o.err = ""
			}
			var names []string
			for _, e := range l {
				n := e.Name()
				if e.IsDir() {
					n += "/"
				}
				names = append(names, n)
			}
			o.list = strings.Join(names, ";")
			return
		})
	case "glob":
		c.record(cin{k: op.K, a: op.A}, func() (o cout) {
			l, err := pkg.Glob(op.A)
			o.err = errKind(err)
			sort.Strings(l)
			o.list = strings.Join(l, ";")
			return
		})
	case "open":
		c.record(cin{k: "open", a: op.A}, func() (o cout) {
			f, err := pkg.Open(op.A)
			if err != nil {
				o.err = errKind(err)
				if o.err == "io" {
					x.Fail("spurious", "opening %q failed: %v", op.A, err)
				}
				return
			}
			o.ok = true
			fi, err := f.Stat()
			if err != nil {
				x.Fail("spurious", "Stat of the open file %q: %v", op.A, err)
			}
			if ts, is := fi.(wpk.TagsetRaw); is {
				o.val = c.checkTs(op.A, ts)
				c.readAll(op.A, f, int(fi.Size()))
			} else {
				o.val = "dir"
			}
			f.Close()
			return
		})
	case "sub":
		c.record(cin{k: "sublist", a: op.A}, func() (o cout) {
			v := &wpk.Package{FTT: pkg.FTT, Tagger: pkg.Tagger, Workspace: op.A}
			m := map[string]string{}
			v.Enum(func(k string, ts wpk.TagsetRaw) bool {
				m[strings.Clone(k)] = c.checkTs(op.A+"/"+k, ts)
				return true
			})
			o.list = setString(m)
			return
		})
	}
}

// whole reads the package by the reserved name.
func (c *conc) whole() {
	x := c.x
	l := make([]*block, 0, len(c.acked))
	for _, b := range c.acked {
		l = append(l, b)
	}
	f, err := c.pkg.Open(wpk.PackName)
	if err != nil {
		x.Fail("spurious", "opening of the whole package failed: %v", err)
	}
	defer f.Close()
	got, err := io.ReadAll(f)
	if err != nil {
		x.Fail("spurious", "reading of the whole package failed: %v", err)
	}
	for _, b := range l {
		if e := int(b.off) + b.size; e > len(got) || !bytes.Equal(got[b.off:e], b.bytes()) {
			x.Fail("content", "the whole package (%d bytes) does not hold the block of %d bytes at %d", len(got), b.size, b.off)
		}
	}
}

// mine tells whether a fault hit this operation since a moment.
func (c *conc) mine(before, op int) bool {
	for _, f := range c.x.Fired[before:] {
		if f.Op == op {
			return true
		}
	}
	return false
}

func (c *conc) readAll(k string, f fs.File, size int) {
	b := c.blks[size]
	if b == nil {
		c.x.Fail("content", "%q has the size %d nobody packed", k, size)
	}
	got, err := io.ReadAll(f)
	if err != nil || !bytes.Equal(got, b.bytes()) {
		c.x.Fail("content", "%q reads as %d bytes that differ from what was packed (%d bytes, error %v)", k, len(got), size, err)
	}
}

func (c *conc) get(op *Op) (ts wpk.TagsetRaw, ok bool) {
	c.record(cin{k: "get", a: op.A}, func() (o cout) {
		ts, ok = c.pkg.GetTagset(op.A)
		if o.ok = ok; ok {
			o.val = c.checkTs(op.A, ts)
		}
		return
	})
	return
}

func (c *conc) sync(op *Op) {
	x := c.x
	before := len(x.Fired)
	c.record(cin{k: "sync"}, func() (o cout) {
		delete(c.head, int64(simrt.ID()))
		wpt, wpf := c.files()
		err := c.pkg.Sync(wpt, wpf)
		im, wrote := c.head[int64(simrt.ID())]
		bad := c.mine(before, op.ID)
		switch {
		case err == nil && bad:
			x.Fail("swallowed", "sync returned success although one of its calls failed")
		case err == nil && !wrote:
			x.Fail("commit", "sync returned success without committing a header")
		case err != nil && !bad:
			x.Fail("spurious", "sync failed without a fault: %v", err)
		case err != nil:
			o.err = "io"
			x.Hit("sync-failed")
			return
		}
		x.Hit("sync")
		o.list = im
		return
	})
}

// --- the sequential specification ---

func dirOf(m map[string]string, dir string) string {
	names := map[string]bool{}
	for k := range m {
		if dir != "." {
			if !strings.HasPrefix(k, dir+"/") {
				continue
			}
			k = k[len(dir)+1:]
		}
		if i := strings.IndexByte(k, '/'); i >= 0 {
			names[k[:i]+"/"] = true
		} else {
			names[k] = true
		}
	}
	l := make([]string, 0, len(names))
	for n := range names {
		l = append(l, n)
	}
	sort.Slice(l, func(i, j int) bool { return strings.TrimSuffix(l[i], "/") < strings.TrimSuffix(l[j], "/") })
	return strings.Join(l, ";")
}

// specUnsure is set if there were too many possible results to try them.
var specUnsure bool

func specStep(st string, in cin, out cout) []string {
	same := []string{st}
	yes := func(ok bool) []string {
		if ok {
			return same
		}
		return nil
	}
	m := parseSet(st)
	next := func() []string { return []string{setString(m)} }
	va, hasA := m[in.a]
	_, hasB := m[in.b]
	switch in.k {
	case "pack":
		switch out.err {
		case "":
			if hasA {
				return nil
			}
			m[in.a] = in.v
			return next()
		case "exist":
			return yes(hasA)
		default:
			return same
		}
	case "rename", "alias":
		switch out.err {
		case "":
			if !hasA || hasB {
				return nil
			}
			m[in.b] = va
			if in.k == "rename" {
				delete(m, in.a)
			}
			return next()
		case "exist":
			return yes(hasB)
		case "notexist":
			return yes(!hasA)
		}
		return nil
	case "renamedir":
		var ok, bad []string
		for k := range m {
			if strings.HasPrefix(k, in.a+"/") {
				if _, is := m[in.b+k[len(in.a):]]; is {
					bad = append(bad, k)
				} else {
					ok = append(ok, k)
				}
			}
		}
		if len(bad) > 0 && !in.skip {
			if out.err != "exist" || out.n > len(ok) {
				return nil
			}
		} else if out.err != "" || out.n != len(ok) {
			return nil
		}
		sort.Strings(ok)
		apply := func(use func(int) bool) string {
			n := parseSet(st)
			for i, k := range ok {
				if use(i) {
					n[in.b+k[len(in.a):]] = n[k]
					delete(n, k)
				}
			}
			return setString(n)
		}
		switch {
		case out.n == 0:
			return same
		case out.n == len(ok):
			return []string{apply(func(int) bool { return true })}
		case len(ok) > 12:
			specUnsure = true
			return same
		}
		// with a conflict any part of the others may have been renamed
		var res []string
		for m := 0; m < 1<<len(ok); m++ {
			if bits.OnesCount(uint(m)) == out.n {
				res = append(res, apply(func(i int) bool { return m>>i&1 != 0 }))
			}
		}
		return res
	case "del":
		if !out.ok {
			return yes(!hasA)
		}
		if !hasA || va != out.val {
			return nil
		}
		delete(m, in.a)
		return next()
	case "get":
		if !out.ok {
			return yes(!hasA)
		}
		return yes(hasA && va == out.val)
	case "has":
		return yes(out.ok == hasA)
	case "len":
		n := len(m)
		if _, is := m[infoKey]; is {
			n--
		}
		return yes(out.n == n)
	case "put":
		m[in.a] = in.v
		return next()
	case "setinfo":
		m[infoKey] = in.v
		return next()
	case "info":
		v, is := m[infoKey]
		return yes(out.ok == is && out.val == v)
	case "list":
		delete(m, infoKey)
		return yes(out.list == setString(m))
	case "sync":
		if out.err != "" {
			return same
		}
		return yes(out.list == st)
	case "readdir":
		l := dirOf(m, in.a)
		if out.err != "" {
			return yes(l == "")
		}
		return yes(out.list == l)
	case "glob":
		var l []string
		for k := range m {
			if ok, _ := path.Match(in.a, k); ok {
				l = append(l, k)
			}
		}
		sort.Strings(l)
		return yes(out.list == strings.Join(l, ";"))
	case "open":
		switch {
		case out.ok && out.val != "dir":
			return yes(hasA && va == out.val)
		case out.ok:
			return yes(!hasA && dirOf(m, in.a) != "")
		}
		return yes(!hasA && dirOf(m, in.a) == "")
	case "sublist":
		n := map[string]string{}
		for k, v := range m {
			if strings.HasPrefix(k, in.a+"/") {
				n[k[len(in.a)+1:]] = v
			}
		}
		return yes(out.list == setString(n))
	}
	return nil
}

const infoKey = "\x00info"

// linear checks the history.
func (c *conc) linear() {
	x := c.x
	for i := range c.hist {
		if c.hist[i].Return < 0 {
			return // ended early
		}
	}
	nd := porcupine.NondeterministicModel{
		Init: func() []interface{} { return []interface{}{""} },
		Step: func(st, in, out interface{}) []interface{} {
			var r []interface{}
			for _, s := range specStep(st.(string), in.(cin), out.(cout)) {
				r = append(r, s)
			}
			return r
		},
		Equal: func(a, b interface{}) bool { return a.(string) == b.(string) },
	}
	specUnsure = false
	switch res := porcupine.CheckOperationsTimeout(nd.ToModel(), c.hist, 20*time.Second); {
	case specUnsure:
		x.Hit("linearizability-unknown")
	case res == porcupine.Illegal:
		x.Fail("not-linearizable", "no order of the calls explains the results:\n%s", c.dump())
	case res == porcupine.Unknown:
		x.Hit("linearizability-unknown")
	}
}

func (c *conc) dump() string {
	var s strings.Builder
	l := append([]porcupine.Operation(nil), c.hist...)
	sort.Slice(l, func(i, j int) bool { return l[i].Call < l[j].Call })
	for _, o := range l {
		fmt.Fprintf(&s, "  [%d..%d] task %d %v -> %v\n", o.Call, o.Return, o.ClientId, o.Input, o.Output)
	}
	return s.String()
}

// overlap counts pairs of operations that ran at the same time.
func (c *conc) overlap() (n int64) {
	for i := range c.hist {
		for j := range c.hist[:i] {
			a, b := &c.hist[i], &c.hist[j]
			if a.ClientId != b.ClientId && a.Call < b.Return && b.Call < a.Return {
				n++
			}
		}
	}
	return
}

// clients runs the tasks of the plan.
func (c *conc) clients(tasks [][]Op) {
	for _, t := range tasks {
		t := t
		simrt.Go(func() {
			for i := range t {
				c.do(&t[i])
			}
		})
	}
	simrt.Join()
}

// settle commits the final table, reopens the package and compares.
func (c *conc) settle() {
	x := c.x
	x.quiet++
	defer func() { x.quiet-- }()
	c.do(&Op{ID: 9001, K: "list"})
	// every acknowledged block holds its own content
	type ext struct {
		b   *block
		key string
	}
	var l []ext
	for k, b := range c.acked {
		l = append(l, ext{b, k})
	}
	sort.Slice(l, func(i, j int) bool {
		if l[i].b.off != l[j].b.off {
			return l[i].b.off < l[j].b.off
		}
		return l[i].key < l[j].key
	})
	end := c.base
	for _, e := range l {
		if e.b.size == 0 {
			continue
		}
		if e.b.off < end {
			x.Fail("overlap", "the block of %d bytes at %d begins before the end %d of the one before", e.b.size, e.b.off, end)
		}
		end = e.b.off + uint64(e.b.size)
		got := make([]byte, e.b.size)
		if n := x.FS.Look(c.dpath).ReadAt(got, int64(e.b.off)); n != e.b.size || !bytes.Equal(got, e.b.bytes()) {
			x.Fail("block", "the block of %d bytes at %d does not hold what was packed (first difference at %d)", e.b.size, e.b.off, firstDiff(got, e.b.bytes()))
		}
	}
	if d := c.base + uint64(c.pkg.DataSize()); d < end {
		x.Fail("datasize", "DataSize is %d, the last block ends at %d", c.pkg.DataSize(), end)
	}
	want := takeSnap(c.pkg, nil)
	want.size = uint64(c.pkg.DataSize())
	want.blks = nil
	for _, ts := range want.sets {
		_, size := wpk.TagsetRaw(ts).Pos()
		b := c.blks[int(size)]
		if b == nil {
			x.Fail("table", "an entry of size %d was never packed", size)
		}
		want.blks = append(want.blks, b)
	}
	wpt, wpf := c.files()
	if !c.split && len(c.img) > 0 {
		if err := c.pkg.Append(wpt, wpf); err != nil {
			x.Fail("spurious", "append failed: %v", err)
		}
	}
	if err := c.pkg.Sync(wpt, wpf); err != nil {
		x.Fail("spurious", "the final sync failed: %v", err)
	}
	if what, err := verify(c.tpath, c.dpath, want, int(x.P.Seed%3), true); err != nil {
		x.Fail("reopen-"+what, "the package reopened at the end: %v", err)
	}
	x.Quiet(func() {
		c.wpt.Close()
		if c.wpf != nil {
			c.wpf.Close()
		}
	})
}
