package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"strings"

	"github.com/schwarzlichtbezirk/wpk"

	"wpkverif/simrt"
)

// buildImage writes a package with the operations of task 0, without faults,
// and leaves the reference state in b.com.
func buildImage(x *Exec) *builder {
	b := newBuilder(x)
	x.Quiet(b.run)
	if b.com == nil {
		x.Fail("create", "the package was not built")
	}
	return b
}

// --- P06: streams that deliver in pieces, fail or end early ---

// flaky is a conforming stream over data. Where the plan says, it delivers
// less, fails, or ends before its time.
type flaky struct {
	x    *Exec
	data []byte
	pos  int64
	mode int // 0 whole, 1 pieces, 2 data together with EOF, 3 nothing in between, 4 byte by byte
	rng  *simrt.Rng
	end  int64 // no byte is delivered from here on
	dead error
	bad  bool // it failed or ended early
}

func newFlaky(x *Exec, op *Op, data []byte) *flaky {
	return &flaky{x: x, data: data, mode: int(op.M & 7), rng: simrt.NewRng(uint64(op.ID) ^ x.P.Seed), end: int64(len(data))}
}

func (s *flaky) Read(b []byte) (int, error) {
	simrt.Point()
	op, nth := simrt.NextIO()
	if len(b) == 0 {
		return 0, nil
	}
	if s.dead != nil {
		return 0, s.dead
	}
	var f *FaultAt
	if f = s.x.fault(op, nth, "stream", "stream", len(b)); f != nil {
		s.x.FS.Fired["stream-"+f.Kind]++
	}
	left := s.end - s.pos
	if left < 0 {
		left = 0
	}
	if f != nil {
		switch f.Kind {
		case "err":
			s.bad = true
			err := fmt.Errorf("stream failed")
			if f.N&1 != 0 {
				s.dead = err
			}
			return 0, err
		case "partial":
			s.bad = true
			n := min(f.N%(len(b)+1), int(left))
			copy(b, s.data[s.pos:s.pos+int64(n)])
			s.pos += int64(n)
			return n, fmt.Errorf("stream failed")
		case "eof":
			s.bad = true
			n := min(f.N%(len(b)+1), int(left))
			s.end = s.pos + int64(n)
			left = int64(n)
		case "short":
			if n := 1 + f.N%len(b); n < len(b) {
				b = b[:n]
			}
		}
	}
	if left == 0 {
		return 0, io.EOF
	}
	n := min(len(b), int(left))
	switch s.mode {
	case 1:
		n = min(n, s.rng.Range(1, 40))
	case 3:
		if s.rng.P(0.2) {
			return 0, nil
		}
		n = min(n, s.rng.Range(1, 100))
	case 4:
		n = 1
	}
	copy(b, s.data[s.pos:s.pos+int64(n)])
	s.pos += int64(n)
	if s.mode == 2 && int64(n) == left {
		return n, io.EOF
	}
	return n, nil
}

func (s *flaky) Seek(off int64, whence int) (int64, error) {
	simrt.Point()
	op, nth := simrt.NextIO()
	if f := s.x.fault(op, nth, "sseek", "stream", 0); f != nil {
		s.x.FS.Fired["stream-seek"]++
		s.bad = true
		return 0, fmt.Errorf("seek failed")
	}
	switch whence {
	case io.SeekCurrent:
		off += s.pos
	case io.SeekEnd:
		off += int64(len(s.data))
	}
	if off < 0 {
		return 0, fmt.Errorf("negative position")
	}
	s.pos = off
	return off, nil
}

func (s *flaky) ReadAt(b []byte, off int64) (int, error) {
	t := *s
	t.pos = off
	n, err := io.ReadFull(&t, b)
	s.bad = s.bad || t.bad
	if err == io.ErrUnexpectedEOF {
		err = io.EOF
	}
	return n, err
}

// flakyFile is a nested file read from a flaky stream.
type flakyFile struct {
	*flaky
	ts wpk.TagsetRaw
}

func (f flakyFile) Stat() (fs.FileInfo, error) { return f.ts, nil }
func (f flakyFile) Close() error               { return nil }

type flakyTagger struct {
	x    *Exec
	op   *Op
	data []byte
	last *flaky
}

func (t *flakyTagger) OpenTagset(ts wpk.TagsetRaw) (wpk.RFile, error) {
	off, size := ts.Pos()
	t.last = newFlaky(t.x, t.op, t.data[off:off+size])
	return flakyFile{t.last, ts}, nil
}

func (t *flakyTagger) Close() error { return nil }

func sizeOf(s *snap) uint {
	size := uint(2 + len(s.info) + 2)
	for _, t := range s.sets {
		size += uint(2 + len(t))
	}
	return size
}

// streamStep executes one reading call and compares its result with what an
// ideal stream gives.
func streamStep(x *Exec, b *builder, op *Op, table, data []byte) {
	simrt.SetOp(op.ID)
	defer simrt.SetOp(-1)
	want := b.com
	before := len(x.Fired)
	hard := func() bool {
		for _, f := range x.Fired[before:] {
			if f.Kind != "short" {
				return true
			}
		}
		return false
	}
	done := func(what string, err error, differs func() error) {
		if err != nil {
			x.Check(hard(), "spurious", "%s fails on a conforming stream: %v", what, err)
			x.Hit("refused-" + what)
			return
		}
		x.Hit("read-" + what)
		if err := differs(); err != nil {
			x.Fail("wrong-"+what, "%s reports success with a wrong result (stream: mode %d, faults %v): %v", what, op.M&7, x.Fired[before:], err)
		}
	}
	header := func(hdr *wpk.Header) error {
		if hdr.Count() != len(want.keys) || hdr.FttSize() != sizeOf(want) || uint64(hdr.DataSize()) != want.size {
			return fmt.Errorf("the header shows %d entries, %d bytes of table, %d bytes of data, expected %d, %d, %d", hdr.Count(), hdr.FttSize(), hdr.DataSize(), len(want.keys), sizeOf(want), want.size)
		}
		return hdr.IsReady()
	}
	whole := func(pkg *wpk.Package) error {
		if err := want.diff(takeSnap(pkg, nil)); err != nil {
			return err
		}
		if pkg.TagsetNum() != len(want.keys) || uint64(pkg.DataSize()) != want.size || pkg.IsSplitted() != b.split {
			return fmt.Errorf("%d entries, data size %d, split %v", pkg.TagsetNum(), pkg.DataSize(), pkg.IsSplitted())
		}
		return nil
	}
	entry := func() (string, *block) {
		if len(want.keys) == 0 {
			return "", nil
		}
		i := int(uint64(op.N) % uint64(len(want.keys)))
		return want.keys[i], want.blks[i]
	}
	same := func(got []byte, blk *block) func() error {
		return func() error {
			if !bytes.Equal(got, blk.bytes()) {
				return fmt.Errorf("%d bytes, expected %d, first difference at %d", len(got), blk.size, firstDiff(got, blk.bytes()))
			}
			return nil
		}
	}
	switch op.K {
	case "open":
		pkg := wpk.NewPackage()
		if op.M&8 != 0 { // into a table that was used before
			x.Quiet(func() { pkg.OpenStream(bytes.NewReader(table)) })
			pkg.SetInfo(wpk.TagsetRaw{}.Put(wpk.TIDlabel, wpk.StrTag("stale")))
			pkg.SetTagset("stale", pkg.BaseTagset(64, 3, "stale"))
		}
		s := newFlaky(x, op, table)
		s.pos = op.N % int64(len(table)+1)
		err := pkg.OpenStream(s)
		done("open", err, func() error { return whole(pkg) })
	case "info":
		s := newFlaky(x, op, table)
		s.pos = op.N % int64(len(table)+1)
		hdr, ts, err := wpk.GetPackageInfo(s)
		done("info", err, func() error {
			if string(ts) != want.info {
				return fmt.Errorf("info %s, expected %s", short(string(ts)), short(want.info))
			}
			return header(&hdr)
		})
	case "header":
		var hdr wpk.Header
		n, err := hdr.ReadFrom(newFlaky(x, op, table))
		done("header", err, func() error {
			if n != wpk.HeaderSize {
				return fmt.Errorf("%d bytes reported", n)
			}
			return header(&hdr)
		})
	case "table":
		var hdr wpk.Header
		hdr.Parse(table)
		pkg := wpk.NewPackage()
		pkg.Init(&hdr)
		s := newFlaky(x, op, table)
		s.pos = int64(binary.LittleEndian.Uint64(table[32:]))
		n, err := pkg.FTT.ReadFrom(s)
		done("table", err, func() error {
			if n != int64(sizeOf(want)) {
				return fmt.Errorf("%d bytes reported, expected %d", n, sizeOf(want))
			}
			return whole(pkg)
		})
	case "parse":
		// from memory: all of it, with more behind it, or cut
		off := int(binary.LittleEndian.Uint64(table[32:]))
		part := func(b []byte) []byte {
			b = append(append([]byte{}, b...), make([]byte, 8)...)
			n := len(b) - 8
			switch op.M & 7 {
			case 0:
				n += int(op.N) % 9
			case 1:
				n = int(op.N) % (n + 1)
			case 2:
				n = max(0, n-1-int(op.N)%4)
			}
			return b[:n:n]
		}
		hbuf, tbuf := part(table[:wpk.HeaderSize]), part(table[off:off+int(sizeOf(want))])
		var hdr wpk.Header
		n, err := hdr.Parse(hbuf)
		if len(hbuf) < wpk.HeaderSize {
			x.Check(err != nil, "wrong-parse", "Header.Parse accepts %d bytes", len(hbuf))
		} else {
			x.Check(err == nil && n == wpk.HeaderSize, "wrong-parse", "Header.Parse reports %d bytes, %v", n, err)
			done("parse", header(&hdr), func() error { return nil })
		}
		hdr.Parse(table)
		pkg := wpk.NewPackage()
		pkg.Init(&hdr)
		n, err = pkg.FTT.Parse(tbuf)
		if len(tbuf) < int(sizeOf(want)) {
			x.Check(err != nil, "wrong-parse", "FTT.Parse accepts %d of %d bytes", len(tbuf), sizeOf(want))
		} else {
			x.Check(err == nil && n == int64(sizeOf(want)), "wrong-parse", "FTT.Parse reports %d of %d bytes, %v", n, sizeOf(want), err)
			done("parse", whole(pkg), func() error { return nil })
		}
	case "readfile", "union":
		k, blk := entry()
		if blk == nil {
			return
		}
		tgr := &flakyTagger{x: x, op: op, data: data}
		pkg := wpk.NewPackage()
		x.Quiet(func() { must(pkg.OpenStream(bytes.NewReader(table))) })
		pkg.Tagger = tgr
		var got []byte
		var err error
		if op.K == "union" {
			u := &wpk.Union{List: []*wpk.Package{wpk.NewPackage(), pkg}}
			got, err = u.ReadFile(k)
		} else {
			got, err = pkg.ReadFile(k)
		}
		done(op.K, err, same(got, blk))
	case "file":
		pkg := wpk.NewPackage()
		err := pkg.OpenFile(b.tpath)
		done("file", err, func() error { return whole(pkg) })
	case "tagger":
		k, blk := entry()
		if blk == nil {
			return
		}
		pkg := wpk.NewPackage()
		x.Quiet(func() { must(pkg.OpenStream(bytes.NewReader(table))) })
		t, err := tagger(int(op.M), b.dpath)
		var got []byte
		if err == nil {
			pkg.Tagger = t
			if op.M&8 == 0 {
				got, err = pkg.ReadFile(k)
			} else {
				var f fs.File
				if f, err = pkg.Open(k); err == nil {
					got, err = io.ReadAll(f)
					x.Quiet(func() { f.Close() })
				}
			}
			x.Quiet(func() { t.Close() })
		}
		done("tagger", err, same(got, blk))
	}
	x.State(op.K, op.M&7, len(x.Fired)-before, hard())
}

var readWeights = weights("pack", 8, "packfile", 2, "alias", 2, "rename", 1, "settag", 2, "setinfo", 3, "sync", 1, "del", 1, "retag", 1)

func init() {
	register(&Prop{ID: "P06", Quick: 800000, Deep: 16000000,
		Real:    "wpk (header, table, info, open, ReadFile, union), util, access methods: all real code; the streams are the simulator's",
		Rule:    "a package built by 1-12 calls is then read by 2-10 calls (open, package info, header, table, whole-file read of package and union, open by name, access methods) from streams that deliver whole, in pieces, byte by byte, nothing in between, or data with EOF, and in two thirds of the runs fail or end at a drawn call; a call that reports success must have the ideal result; non-trivial: a fault fired or a stream did not deliver at once",
		Trivial: func(x *Exec) bool { return len(x.Fired) == 0 && x.Probes["pieces"] == 0 },
		Gen: func(r *simrt.Rng, deep bool) *Plan {
			p := &Plan{Cfg: genCfg(r), Sched: seqSched(r)}
			p.Tasks = [][]Op{genOps(r, r.Range(1, 12), readWeights), nil}
			capSizes(p.Tasks[0])
			for n := r.Range(2, 10); n > 0; n-- {
				p.Tasks[1] = append(p.Tasks[1], Op{K: simrt.Pick(r, "open", "open", "open", "info", "info", "header", "table", "readfile", "union", "file", "tagger", "tagger", "parse"),
					N: int64(r.N(1000)), M: int64(r.N(5) | r.N(2)<<3)})
			}
			if r.N(3) > 0 {
				g := &FaultGen{P: map[string]float64{}, Max: r.Range(1, 6), Short: simrt.Pick(r, 0.0, 0.3, 0.6), From: 1 + len(p.Tasks[0])}
				rate := simrt.Pick(r, 0.02, 0.1, 0.3)
				for _, k := range []string{"stream", "sseek", "read", "open", "stat", "seek"} {
					g.P[k] = rate * simrt.Pick(r, 0.0, 1.0, 1.0, 2.0)
				}
				p.Gen = g
			}
			return p
		},
		Run: func(x *Exec) {
			b := buildImage(x)
			table, _ := x.FS.Get(b.tpath)
			data, _ := x.FS.Get(b.dpath)
			if len(x.P.Tasks) < 2 {
				return
			}
			for i := range x.P.Tasks[1] {
				op := &x.P.Tasks[1][i]
				if op.M&7 != 0 {
					x.Hit("pieces")
				}
				streamStep(x, b, op, table, data)
			}
		},
	})
}

// --- P07: damaged packages ---

// pair is a package as raw bytes.
type pair struct {
	table, data []byte
	split       bool
}

// field values that are worth trying.
func oddValue(r *simrt.Rng, old uint64, size int) uint64 {
	switch r.N(14) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return old + 1
	case 3:
		return old - 1
	case 4:
		return uint64(size)
	case 5:
		return uint64(size) + 1
	case 6:
		return ^uint64(0)
	case 7:
		return 1<<63 - 1
	case 8:
		return 1 << 63
	case 9:
		return ^uint64(0) - uint64(r.N(200))
	case 10:
		return uint64(r.N(size + 100))
	case 11:
		return 1 << uint(r.N(64))
	case 12:
		return old + uint64(r.N(64))
	}
	return r.U64()
}

// rewrite gives a table with changed tagsets and a header that fits it.
func (m *pair) rewrite(f func(sets [][]byte) [][]byte) {
	le := binary.LittleEndian
	if len(m.table) < 64 {
		return
	}
	off, size := le.Uint64(m.table[32:]), le.Uint64(m.table[40:])
	if off < 64 || off > uint64(len(m.table)) || size > uint64(len(m.table))-off {
		return
	}
	t := m.table[off : off+size]
	var sets [][]byte
	for p := 0; p+2 <= len(t); {
		n := int(le.Uint16(t[p:]))
		p += 2
		if n == 0 && len(sets) > 0 || p+n > len(t) {
			break
		}
		sets = append(sets, append([]byte(nil), t[p:p+n]...))
		p += n
	}
	sets = f(sets)
	var out []byte
	for _, s := range sets {
		out = le.AppendUint16(out, uint16(len(s)))
		out = append(out, s...)
	}
	out = le.AppendUint16(out, 0)
	m.table = append(m.table[:off:off], out...)
	le.PutUint64(m.table[40:], uint64(len(out)))
	if len(sets) > 0 {
		le.PutUint64(m.table[24:], uint64(len(sets)-1))
	}
}

type rawTag struct {
	id  uint16
	val []byte
}

func splitTags(s []byte) (l []rawTag) {
	le := binary.LittleEndian
	for p := 0; p+4 <= len(s); {
		n := int(le.Uint16(s[p+2:]))
		if p+4+n > len(s) {
			break
		}
		l = append(l, rawTag{le.Uint16(s[p:]), append([]byte(nil), s[p+4:p+4+n]...)})
		p += 4 + n
	}
	return
}

func joinTags(l []rawTag) (b []byte) {
	le := binary.LittleEndian
	for _, t := range l {
		b = le.AppendUint16(b, t.id)
		b = le.AppendUint16(b, uint16(len(t.val)))
		b = append(b, t.val...)
	}
	return
}

func oddUint(r *simrt.Rng, v uint64) []byte {
	le := binary.LittleEndian
	switch r.N(8) {
	case 0:
		return []byte{byte(v)}
	case 1:
		return le.AppendUint16(nil, uint16(v))
	case 2:
		return le.AppendUint32(nil, uint32(v))
	case 3:
		return le.AppendUint64(nil, v)[:r.N(9)]
	case 4:
		return append(le.AppendUint64(nil, v), 0)
	}
	return le.AppendUint64(nil, v)
}

var oddPaths = []string{"", ".", "..", "/", "/abs", "../up", "a//b", "a/", "d", "d/", "./d/x", "d/./x", "d/../x", "d/e/..", "../../x", "d//x", "d/.", "..\\d\\x", "d\\b.txt", "@pack", "a/../b", "./a", "\x00", "wpk", "*", "[a", "d/e"}

// damage applies one mutation.
func (m *pair) damage(op *Op) {
	r := simrt.NewRng(uint64(op.N) ^ uint64(op.ID)<<32)
	le := binary.LittleEndian
	pick := func() *[]byte {
		if m.split && op.M&1 != 0 {
			return &m.data
		}
		return &m.table
	}
	switch op.K {
	case "trunc":
		p := pick()
		if len(*p) > 0 {
			n := r.N(len(*p))
			if r.N(3) == 0 {
				n = len(*p) - 1 - r.N(min(len(*p), 40))
			}
			if r.N(5) == 0 {
				n = r.N(min(len(*p), 70))
			}
			*p = (*p)[:n:n]
		}
	case "extend":
		p := pick()
		*p = append(*p, content(op.N, r.N(200))...)
	case "flip":
		p := pick()
		for i := r.Range(1, 3); i > 0 && len(*p) > 0; i-- {
			(*p)[r.N(len(*p))] ^= 1 << uint(r.N(8))
		}
	case "flipt": // inside the tags table
		if len(m.table) >= 64 {
			off, size := le.Uint64(m.table[32:]), le.Uint64(m.table[40:])
			if off < uint64(len(m.table)) && size > 0 && size <= uint64(len(m.table))-off {
				for i := r.Range(1, 3); i > 0; i-- {
					m.table[off+uint64(r.N(int(size)))] ^= 1 << uint(r.N(8))
				}
			}
		}
	case "word": // a length or tag number inside the table
		if len(m.table) >= 64 {
			off, size := le.Uint64(m.table[32:]), le.Uint64(m.table[40:])
			if off < uint64(len(m.table)) && size > 2 && size <= uint64(len(m.table))-off {
				p := off + uint64(r.N(int(size)-1))
				le.PutUint16(m.table[p:], simrt.Pick(r, 0, 1, 2, 3, 4, 0xffff, 0x7fff, 0x8000, uint16(size), uint16(r.U64())))
			}
		}
	case "field":
		if len(m.table) >= 64 {
			f := 24 + 8*r.N(5)
			le.PutUint64(m.table[f:], oddValue(r, le.Uint64(m.table[f:]), len(m.table)))
		}
	case "sign":
		if len(m.table) >= 24 {
			copy(m.table, simrt.Pick(r, wpk.SignBuild, wpk.SignReady, strings.Repeat("\x00", 24)))
		}
	case "splice":
		p := pick()
		if n := len(*p); n > 4 {
			a, b := r.N(n), r.N(n)
			l := min(r.N(n), n-max(a, b))
			c := append([]byte(nil), (*p)[a:a+l]...)
			if r.N(2) == 0 {
				copy((*p)[b:], c)
			} else {
				*p = append((*p)[:b:b], append(c, (*p)[b:]...)...)
			}
		}
	case "zero":
		p := pick()
		if n := len(*p); n > 0 {
			a := r.N(n)
			clear((*p)[a:min(n, a+1+r.N(600))])
		}
	default: // changes of one entry, the rest fits
		m.rewrite(func(sets [][]byte) [][]byte {
			if len(sets) < 2 {
				return sets
			}
			i := r.Range(1, len(sets)-1)
			tags := splitTags(sets[i])
			at := func(id uint16) *rawTag {
				for j := range tags {
					if tags[j].id == id {
						return &tags[j]
					}
				}
				return &rawTag{}
			}
			switch op.K {
			case "offset":
				t := at(wpk.TIDoffset)
				t.val = oddUint(r, oddValue(r, uintOf(string(t.val)), len(m.table)+len(m.data)))
			case "size":
				t := at(wpk.TIDsize)
				t.val = oddUint(r, oddValue(r, uintOf(string(t.val)), len(m.table)+len(m.data)))
			case "path":
				at(wpk.TIDpath).val = []byte(oddPaths[r.N(len(oddPaths))])
			case "drop":
				if len(tags) > 0 {
					j := r.N(len(tags))
					tags = append(tags[:j:j], tags[j+1:]...)
				}
			case "dup": // the same tag again with another value
				if len(tags) > 0 {
					j := r.N(min(len(tags), 3))
					t := rawTag{tags[j].id, append([]byte(nil), tags[j].val...)}
					switch t.id {
					case wpk.TIDpath:
						t.val = []byte(names[r.N(len(names))])
					default:
						t.val = oddUint(r, oddValue(r, uintOf(string(t.val)), len(m.table)+len(m.data)))
					}
					k := r.N(len(tags) + 1)
					tags = append(tags[:k:k], append([]rawTag{t}, tags[k:]...)...)
				}
			case "time":
				tags = append(tags, rawTag{simrt.Pick(r, uint16(wpk.TIDmtime), wpk.TIDatime, wpk.TIDctime, wpk.TIDbtime), content(op.N, r.N(14))})
			case "order":
				for j := range tags {
					k := r.N(j + 1)
					tags[j], tags[k] = tags[k], tags[j]
				}
			case "twice": // an entry of the same name
				return append(sets, append([]byte(nil), sets[i]...))
			}
			sets[i] = joinTags(tags)
			return sets
		})
	}
}

// tableOf reads the tags table by the format alone: the package info and the
// entries by name. If it is open, the recorded size does not limit the table.
func tableOf(m []byte, open bool) (info []byte, ents map[string]string, err error) {
	le := binary.LittleEndian
	ents = map[string]string{}
	off, size := le.Uint64(m[32:]), le.Uint64(m[40:])
	if size == 0 {
		return
	}
	if off > uint64(len(m)) || size > uint64(len(m))-off && !open {
		return nil, nil, fmt.Errorf("the table [%d,+%d) is outside of the file", off, size)
	}
	t := m[off:]
	if !open {
		t = t[:size]
	}
	next := func() (b []byte) {
		if len(t) < 2 || len(t)-2 < int(le.Uint16(t)) {
			err = fmt.Errorf("the table is cut")
			return nil
		}
		n := 2 + int(le.Uint16(t))
		b, t = t[2:n], t[n:]
		return
	}
	if info = next(); err != nil {
		return
	}
	for {
		ts := next()
		if err != nil {
			return
		}
		if len(ts) == 0 {
			break
		}
		key, n := "", 0
		p := ts
		for len(p) > 0 {
			if len(p) < 4 || len(p)-4 < int(le.Uint16(p[2:])) {
				return nil, nil, fmt.Errorf("a tagset of %d bytes is cut", len(ts))
			}
			w := 4 + int(le.Uint16(p[2:]))
			if wpk.TID(le.Uint16(p)) == wpk.TIDpath {
				key, n = string(p[4:w]), n+1
			}
			p = p[w:]
		}
		if n != 1 {
			return nil, nil, fmt.Errorf("an entry with %d names", n)
		}
		key = strings.ReplaceAll(key, "\\", "/")
		if _, dup := ents[key]; dup {
			return nil, nil, fmt.Errorf("two entries %q", key)
		}
		ents[key] = string(ts)
	}
	if len(t) != 0 && !open {
		return nil, nil, fmt.Errorf("%d bytes of the table follow its end", len(t))
	}
	return
}

// sameTable compares what was opened with what the bytes of the table are.
func sameTable(x *Exec, m []byte, open bool, ftt *wpk.Package, what string) {
	info, ents, err := tableOf(m, open)
	if err != nil {
		x.Fail("table", "%s, although %v", what, err)
	}
	n := 0
	ftt.Enum(func(k string, ts wpk.TagsetRaw) bool {
		n++
		if want, ok := ents[k]; !ok || want != string(ts) {
			x.Fail("table", "%s, it lists %q with the tags %x, the bytes of the table give %x", what, k, string(ts), want)
		}
		return true
	})
	x.Check(n == len(ents), "table", "%s, it lists %d files, the bytes of the table give %d", what, n, len(ents))
	x.Check(string(ftt.GetInfo()) == string(info), "table", "%s, the package info is %x, the bytes of the table give %x", what, string(ftt.GetInfo()), info)
}

// strangers opens entries that no opened package has: such ones come from a
// table that was read without its file, or are made by hand.
func strangers(x *Exec, b *builder, raw []byte, sets []wpk.TagsetRaw) {
	r := simrt.NewRng(simrt.Mix(x.P.Seed, 7, 7))
	for n := r.Range(1, 4); n > 0; n-- {
		off, size := oddValue(r, uint64(r.N(len(raw)+2)), len(raw)), oddValue(r, uint64(r.N(len(raw)+2)), len(raw))
		if r.N(3) == 0 {
			size = -off + uint64(r.N(len(raw)+2)) // goes round
		}
		sets = append(sets, wpk.TagsetRaw{}.Put(wpk.TIDoffset, wpk.UintTag(uint(off))).Put(wpk.TIDsize, wpk.UintTag(uint(size))).Put(wpk.TIDpath, wpk.StrTag("stranger")))
	}
	for how := 0; how < 3; how++ {
		t, err := tagger(how, b.dpath)
		if err != nil {
			continue
		}
		for _, ts := range sets {
			off, size := ts.Pos()
			f, err := t.OpenTagset(ts)
			if err != nil {
				x.Hit("stranger-refused")
				continue
			}
			got, err := io.ReadAll(f)
			if err == nil {
				x.Hit("stranger-read")
				if uint(len(got)) != size || off > uint(len(raw)) || size > uint(len(raw))-off || !bytes.Equal(got, raw[off:off+size]) {
					x.Fail("bytes", "reading the entry [%d,+%d) (method %d) delivers %d bytes that are not these of the package data", off, size, how, len(got))
				}
			}
			x.Check(f.Close() == nil, "close", "closing the entry [%d,+%d) fails", off, size)
		}
		t.Close()
	}
}

// dissect reads a damaged package in every way.
func dissect(x *Exec, b *builder, m *pair) {
	le := binary.LittleEndian
	x.W.AllocMax = int64(16*(len(m.table)+len(m.data)) + 1<<16)
	x.FS.Put(b.tpath, m.table)
	if m.split {
		x.FS.Put(b.dpath, m.data)
	}
	raw := m.table
	if m.split {
		raw = m.data
	}
	if _, ts, err := wpk.GetPackageInfo(bytes.NewReader(m.table)); err == nil {
		ts.Num()
		ts.Path()
		x.Hit("damaged-info")
	}
	var hdr wpk.Header
	var loose []wpk.TagsetRaw
	var plain [wpk.HeaderSize]byte
	copy(plain[:], m.table)
	copy(plain[24:32], make([]byte, 8)) // this number is checked by OpenStream only
	if _, err := hdr.ReadFrom(bytes.NewReader(plain[:])); err == nil && len(m.table) >= len(plain) {
		if off, size := le.Uint64(m.table[32:]), le.Uint64(m.table[40:]); size > 0 && off <= uint64(len(m.table)) {
			ftt := wpk.NewPackage()
			ftt.Init(&hdr)
			if _, err := ftt.FTT.ReadFrom(bytes.NewReader(m.table[off:])); err == nil {
				x.Hit("damaged-readfrom")
				sameTable(x, m.table, true, ftt, "the table is read")
				ftt.Enum(func(k string, ts wpk.TagsetRaw) bool {
					loose = append(loose, ts)
					return true
				})
			}
		}
	}
	strangers(x, b, raw, loose)
	var pkg *wpk.Package
	opened := false
	for how := 0; how < 3; how++ {
		pkg = wpk.NewPackage()
		var err error
		if how == 0 {
			err = pkg.OpenStream(bytes.NewReader(m.table))
		} else {
			err = pkg.OpenFile(b.tpath)
		}
		x.Check(how == 0 || (err == nil) == opened, "open", "the same damaged file opens by one way and is refused by another: %v", err)
		if err != nil {
			x.Hit("damaged-refused")
			opened = false
			continue
		}
		opened = true
		x.Hit("damaged-opened")
		lo := le.Uint64(m.table[48:])
		hi := lo + le.Uint64(m.table[56:])
		t, err := tagger(how, b.dpath)
		if err != nil {
			x.Check(x.FS.Look(b.dpath) == nil, "tagger", "the access method fails: %v", err)
			continue
		}
		pkg.Tagger = t
		var keys []string
		var sets []wpk.TagsetRaw
		pkg.Enum(func(k string, ts wpk.TagsetRaw) bool {
			keys = append(keys, k)
			sets = append(sets, ts)
			return true
		})
		sameTable(x, m.table, false, pkg, "the package is opened")
		for i, k := range keys {
			ts := sets[i]
			off, size := ts.Pos()
			if uint64(off) < lo || uint64(off) > hi || uint64(size) > hi-uint64(off) {
				x.Fail("outside", "the opened package lists %q at [%d,+%d), outside of its data block [%d,%d)", k, off, size, lo, hi)
			}
			x.Check(ts.Size() == int64(size), "size", "%q has the sizes %d and %d at once", k, ts.Size(), size)
			ts.Name()
			ts.Mode()
			ts.ModTime()
			ts.AccessTime()
			ts.ChangeTime()
			ts.BirthTime()
			ts.IsDir()
			ts.Num()
			read := func(what string, got []byte, err error) {
				if err != nil {
					x.Hit("damaged-unreadable")
					return
				}
				x.Hit("damaged-read")
				x.Check(len(got) == int(size), "length", "%s of %q (method %d) delivers %d bytes, %d are listed", what, k, how, len(got), size)
				x.Check(uint64(off)+uint64(size) <= uint64(len(raw)) && bytes.Equal(got, raw[off:off+size]), "bytes", "%s of %q (method %d) delivers bytes that are not at [%d,+%d) of the package data", what, k, how, off, size)
			}
			got, err := pkg.ReadFile(k)
			read("ReadFile", got, err)
			f, err := t.OpenTagset(ts)
			if err == nil {
				got, err = io.ReadAll(f)
				read("reading", got, err)
				if _, err := f.ReadAt(make([]byte, 3), int64(size)-2); err != nil {
					x.Hit("damaged-readat")
				}
				f.Seek(-1, io.SeekEnd)
				f.Read(make([]byte, 4))
				fi, err := f.Stat()
				x.Check(err == nil && fi.Size() == int64(size), "size", "Stat of %q gives %v", k, err)
				x.Check(f.Close() == nil, "close", "closing %q fails", k)
			} else {
				x.Hit("damaged-unreadable")
			}
			if g, err := pkg.Open(k); err == nil {
				io.ReadAll(g)
				g.Close()
			}
			pkg.Stat(k)
			pkg.ReadDir(path.Dir(k))
			pkg.Sub(path.Dir(k))
		}
		pkg.ReadDir(".")
		pkg.Glob("*")
		u := &wpk.Union{List: []*wpk.Package{pkg}}
		for _, k := range u.AllKeys() {
			if got, err := u.ReadFile(k); err == nil {
				x.Check(len(got) <= len(raw), "length", "union read of %q gives %d bytes, more than the package has", k, len(got))
			}
		}
		u.ReadDir(".")
		for _, v := range []fs.FS{pkg, u} {
			seen := map[string]bool{}
			err := fs.WalkDir(v, ".", func(p string, d fs.DirEntry, err error) error {
				if err == nil && !d.IsDir() {
					seen[p] = true
				}
				return nil
			})
			x.Check(err == nil, "walk", "walking the tree fails: %v", err)
			if seen["."] {
				continue // a file of this name stands for the root
			}
			for i, k := range keys {
				if fs.ValidPath(k) && !bytes.ContainsRune(sets[i], '\\') && !seen[k] {
					x.Fail("walk", "walking the tree of %T does not reach %q of %q", v, k, keys)
				}
			}
			x.Hit("damaged-walk")
		}
		if f, err := pkg.Open(wpk.PackName); err == nil {
			got, err := io.ReadAll(f)
			if err == nil {
				x.Check(uint64(len(got)) <= uint64(len(raw)) && bytes.Equal(got, raw[:len(got)]), "bytes", "the raw package delivers other bytes")
			}
			f.Close()
		}
		t.Close()
	}
}

var damages = []string{"trunc", "trunc", "extend", "flip", "flip", "flipt", "flipt", "word", "word", "field", "field", "sign", "splice", "zero", "offset", "offset", "size", "size", "path", "drop", "dup", "dup", "time", "order", "twice"}

func init() {
	register(&Prop{ID: "P07", Quick: 450000, Deep: 6000000, Budget: 400_000,
		Real:    "wpk (header, table, tagsets, open, listing), util, access methods: all real code; the damaged file and the memory mappings are the simulator's (an access beyond the file end faults)",
		Rule:    "a package built by 1-10 calls is damaged 1-4 times (cut, extended, bits flipped, header fields, lengths and tag numbers overwritten with odd values, ranges copied or zeroed, tags of an entry changed, dropped, doubled or reordered), opened three ways and, where that succeeds, every listed entry is read by every access method and compared with the raw bytes; statements and single allocations are limited; non-trivial: the bytes differ from the intact package",
		Trivial: func(x *Exec) bool { return x.Probes["damaged"] == 0 },
		Gen: func(r *simrt.Rng, deep bool) *Plan {
			p := &Plan{Cfg: genCfg(r), Sched: seqSched(r)}
			p.Tasks = [][]Op{genOps(r, r.Range(1, 10), readWeights), nil}
			for i := range p.Tasks[0] {
				p.Tasks[0][i].N %= 6000
			}
			capSizes(p.Tasks[0])
			n := simrt.Pick(r, 1, 1, 1, 2, 3, 4)
			for ; n > 0; n-- {
				p.Tasks[1] = append(p.Tasks[1], Op{K: damages[r.N(len(damages))], N: int64(r.U64() >> 20), M: int64(r.N(4))})
			}
			return p
		},
		Run: func(x *Exec) {
			b := buildImage(x)
			m := &pair{split: b.split}
			m.table, _ = x.FS.Get(b.tpath)
			if b.split {
				m.data, _ = x.FS.Get(b.dpath)
			}
			t0, d0 := string(m.table), string(m.data)
			if len(x.P.Tasks) > 1 {
				for i := range x.P.Tasks[1] {
					m.damage(&x.P.Tasks[1][i])
				}
			}
			if string(m.table) != t0 || string(m.data) != d0 {
				x.Hit("damaged")
				x.FS.Fired["damaged-image"]++
			}
			dissect(x, b, m)
			x.State(len(m.table), len(m.data))
		},
	})
}

// --- P13: open files ---

// handle is an open nested file next to an ideal reader of its content.
type handle struct {
	key  string
	f    fs.File
	data []byte
	size int64
	pos  int64
	ts   string
}

type access struct {
	x      *Exec
	b      *builder
	pkgs   [3]*wpk.Package
	shared map[int64]*handle
}

func (a *access) open(op *Op, slots map[int64]*handle, slot int64) {
	x := a.x
	how := op.M >> 8 & 3 % 3
	if how == 3 {
		how = 2
	}
	pkg := a.pkgs[how]
	if pkg == nil {
		return
	}
	if h := slots[slot]; h != nil {
		a.close(op, slots, slot)
	}
	s := a.b.com
	before := len(x.Fired)
	if op.A == wpk.PackName {
		i := x.FS.Look(a.b.dpath)
		n := int64(a.b.com.base + a.b.com.size)
		if n > 1<<24 {
			return
		}
		f, err := pkg.Open(wpk.PackName)
		if err != nil {
			x.Check(len(x.Fired) > before, "open", "opening the raw package by method %d fails: %v", how, err)
			return
		}
		h := &handle{key: op.A, f: f, data: make([]byte, n), size: n}
		i.ReadAt(h.data, 0)
		slots[slot] = h
		x.Hit("raw-package")
		return
	}
	if len(s.keys) == 0 {
		return
	}
	i := int(uint64(op.N) % uint64(len(s.keys)))
	k, blk := s.keys[i], s.blks[i]
	if blk == nil {
		return
	}
	var f fs.File
	var err error
	switch op.M >> 10 & 3 {
	case 0:
		ts, ok := pkg.GetTagset(k)
		x.Check(ok, "table", "%q is not found", k)
		f, err = pkg.Tagger.OpenTagset(ts)
		if err != nil {
			f = nil
		}
	case 1:
		if j := strings.LastIndexByte(k, '/'); j > 0 {
			sub, err1 := pkg.Sub(k[:j])
			x.Check(err1 == nil, "sub", "Sub(%q) fails: %v", k[:j], err1)
			f, err = sub.Open(k[j+1:])
			x.Hit("opened-by-view")
			break
		}
		fallthrough
	default:
		f, err = pkg.Open(k)
	}
	if err != nil {
		x.Check(len(x.Fired) > before, "open", "opening %q by method %d fails: %v", k, how, err)
		return
	}
	slots[slot] = &handle{key: k, f: f, data: blk.bytes(), size: int64(blk.size), ts: s.sets[i]}
	x.Hit([]string{"bulk", "mmap", "fsys"}[how])
	if blk.size == 0 {
		x.Hit("empty-file")
	}
}

func (a *access) close(op *Op, slots map[int64]*handle, slot int64) {
	h := slots[slot]
	if h == nil {
		return
	}
	before := len(a.x.Fired)
	err := h.f.Close()
	a.x.Check(err == nil || len(a.x.Fired) > before, "close", "closing %q fails: %v", h.key, err)
	delete(slots, slot)
}

func (a *access) step(op *Op, own map[int64]*handle) {
	x := a.x
	simrt.SetOp(op.ID)
	defer simrt.SetOp(-1)
	slot := op.M & 3
	slots := own
	if op.M&16 != 0 {
		slots = a.shared
	}
	n := int(op.M >> 16)
	before := x.hitsOf(op.ID)
	faulted := func() bool { return x.hitsOf(op.ID) > before }
	switch op.K {
	case "open":
		if op.M&16 != 0 && len(a.x.P.Tasks) > 1 && !a.setup(op) {
			return // shared files are opened before the tasks start
		}
		a.open(op, slots, slot)
		return
	case "readfile":
		how := op.M >> 8 & 3
		if how == 3 || a.pkgs[how] == nil {
			how = 2
		}
		s := a.b.com
		if len(s.keys) == 0 {
			return
		}
		i := int(uint64(op.N) % uint64(len(s.keys)))
		if s.blks[i] == nil {
			return
		}
		got, err := a.pkgs[how].ReadFile(s.keys[i])
		if err != nil {
			x.Check(faulted(), "open", "ReadFile(%q) by method %d fails: %v", s.keys[i], how, err)
			return
		}
		x.Check(bytes.Equal(got, s.blks[i].bytes()), "bytes", "ReadFile(%q) by method %d gives other bytes", s.keys[i], how)
		return
	}
	h := slots[slot]
	if h == nil {
		return
	}
	buf := make([]byte, n)
	clear(buf)
	switch op.K {
	case "read":
		if op.M&16 != 0 {
			return
		}
		k, err := h.f.Read(buf)
		left := max(h.size-h.pos, 0)
		x.Check(k >= 0 && int64(k) <= left && k <= n, "read", "Read of %d bytes at %d of %q (%d bytes) gives %d", n, h.pos, h.key, h.size, k)
		x.Check(bytes.Equal(buf[:k], h.slice(h.pos, k)), "bytes", "Read of %d bytes at %d of %q gives other bytes", n, h.pos, h.key)
		h.pos += int64(k)
		switch {
		case err == nil:
			x.Check(k > 0 || n == 0, "read", "Read of %d bytes at %d of %q (%d bytes) gives nothing and no error", n, h.pos, h.key, h.size)
		case errors.Is(err, io.EOF):
			x.Check(h.pos >= h.size || faulted(), "read", "Read at %d of %q (%d bytes) reports the end", h.pos, h.key, h.size)
		default:
			x.Check(faulted(), "read", "Read at %d of %q fails: %v", h.pos, h.key, err)
		}
		if k > 0 {
			x.Hit("read")
		}
	case "readat":
		off := op.N
		if op.M&64 != 0 {
			off = h.size - op.N
		}
		k, err := h.f.(io.ReaderAt).ReadAt(buf, off)
		if off < 0 {
			x.Check(err != nil, "readat", "ReadAt at %d of %q succeeds", off, h.key)
			return
		}
		left := max(h.size-off, 0)
		x.Check(k >= 0 && int64(k) <= left && k <= n, "readat", "ReadAt of %d bytes at %d of %q (%d bytes) gives %d", n, off, h.key, h.size, k)
		x.Check(bytes.Equal(buf[:k], h.slice(off, k)), "bytes", "ReadAt of %d bytes at %d of %q gives other bytes", n, off, h.key)
		switch {
		case err == nil:
			x.Check(k == n, "readat", "ReadAt of %d bytes at %d of %q (%d bytes) gives %d and no error", n, off, h.key, h.size, k)
		case errors.Is(err, io.EOF):
			x.Check(off+int64(k) >= h.size || faulted(), "readat", "ReadAt of %d bytes at %d of %q (%d bytes) gives %d and the end", n, off, h.key, h.size, k)
		default:
			x.Check(faulted(), "readat", "ReadAt at %d of %q fails: %v", off, h.key, err)
		}
		x.Hit("readat")
		if op.M&16 != 0 {
			x.Hit("shared-readat")
		}
	case "seek":
		if op.M&16 != 0 {
			return
		}
		wh := int(op.M >> 12 & 3)
		off := op.N
		if op.M&64 != 0 {
			off = -off
		}
		base := []int64{0, h.pos, h.size, 0}[wh]
		got, err := h.f.(io.Seeker).Seek(off, wh)
		if wh == 3 || base+off < 0 {
			x.Check(err != nil, "seek", "Seek(%d,%d) at %d of %q (%d bytes) gives %d", off, wh, h.pos, h.key, h.size, got)
			return
		}
		x.Check(err == nil && got == base+off, "seek", "Seek(%d,%d) at %d of %q (%d bytes) gives %d, %v", off, wh, h.pos, h.key, h.size, got, err)
		h.pos = base + off
		x.Hit("seek")
	case "stat":
		fi, err := h.f.Stat()
		if err != nil {
			x.Check(faulted(), "stat", "Stat of %q fails: %v", h.key, err)
			return
		}
		x.Check(fi.Size() == h.size && !fi.IsDir(), "stat", "Stat of %q shows %d bytes, directory %v; it has %d", h.key, fi.Size(), fi.IsDir(), h.size)
		if h.ts != "" {
			ts, ok := fi.Sys().(wpk.TagsetRaw)
			x.Check(ok && string(ts) == h.ts, "stat", "Stat of %q has other tags", h.key)
			x.Check(fi.Name() == path.Base(h.key), "stat", "Stat of %q has the name %q", h.key, fi.Name())
		}
	case "close":
		if op.M&16 == 0 {
			a.close(op, slots, slot)
		}
	}
	x.State(op.K, h.pos > 0, h.pos >= h.size, n, op.M>>8&3)
}

func (a *access) setup(op *Op) bool {
	for i := range a.x.P.Tasks[1] {
		if a.x.P.Tasks[1][i].ID == op.ID {
			return true
		}
	}
	return false
}

func (h *handle) slice(off int64, n int) []byte {
	if n == 0 || off >= h.size {
		return nil
	}
	return h.data[off : off+int64(n)]
}

// hitsOf counts the faults that hit one operation.
func (x *Exec) hitsOf(op int) (n int) {
	for _, f := range x.Fired {
		if f.Op == op {
			n++
		}
	}
	return
}

func accessRun(x *Exec) {
	b := buildImage(x)
	a := &access{x: x, b: b, shared: map[int64]*handle{}}
	x.Quiet(func() {
		big := x.FS.Look(b.dpath).Size() > 1<<27
		for how := range a.pkgs {
			if how == 0 && big {
				continue
			}
			pkg, err := openPkg(b.tpath, b.dpath, how)
			if err != nil {
				x.Fail("open", "the package does not open: %v", err)
			}
			a.pkgs[how] = pkg
		}
		if len(x.P.Tasks) > 1 {
			for i := range x.P.Tasks[1] {
				a.step(&x.P.Tasks[1][i], a.shared)
			}
		}
	})
	if len(x.P.Tasks) > 2 {
		for _, t := range x.P.Tasks[2:] {
			simrt.Go(func() {
				own := map[int64]*handle{}
				for i := range t {
					a.step(&t[i], own)
				}
				for s := int64(0); s < 4; s++ {
					a.close(&Op{}, own, s)
				}
			})
		}
		simrt.Join()
	}
	x.Quiet(func() {
		for s := int64(0); s < 4; s++ {
			a.close(&Op{}, a.shared, s)
		}
		for _, p := range a.pkgs {
			if p != nil {
				x.Check(p.Tagger.Close() == nil, "close", "closing a package fails")
			}
		}
	})
	x.Check(len(x.FS.Misuse) == 0, "misuse", "%v", x.FS.Misuse)
}

func init() {
	register(&Prop{ID: "P13", Quick: 360000, Deep: 4800000,
		Real:    "access methods bulk, mmap and fsys, wpk (open, views, tagsets): all real code; files, memory mappings and goroutines are the simulator's",
		Rule:    "a package built by 2-12 calls, a third of them with data offsets beyond 8, 16 or 32 bits, is read through open files of all three access methods by 1-3 tasks with 4-24 calls each (open, read, read-at, seek, stat, close, whole-file read, the raw package), own files and shared ones, under one seeded schedule, a third of the runs with failing reads, opens and mappings; every call is compared with an ideal reader of the content; non-trivial: bytes were read",
		Trivial: func(x *Exec) bool { return x.Probes["read"]+x.Probes["readat"] == 0 },
		Gen: func(r *simrt.Rng, deep bool) *Plan {
			p := &Plan{Cfg: genCfg(r)}
			p.Cfg["base"] = pickBase(r)
			if r.N(3) > 0 {
				p.Cfg["base"] %= 1 << 20
			}
			p.Tasks = [][]Op{genOps(r, r.Range(2, 12), readWeights), nil}
			one := func(k string) Op {
				op := Op{K: k, M: int64(r.N(4)) | int64(r.N(3))<<8 | int64(r.N(4))<<10}
				switch k {
				case "open":
					op.N = int64(r.N(1000))
					if r.N(8) == 0 {
						op.A = wpk.PackName
					}
				case "readfile":
					op.N = int64(r.N(1000))
				default:
					op.M &= 0xfff
					op.M |= int64(simrt.Pick(r, 0, 0, 1, 2, 3)) << 12
					op.M |= int64(simrt.Pick(r, 0, 1, 2, 7, 64, 300, 4096, 70000, r.N(10000))) << 16
					op.N = int64(simrt.Pick(r, 0, 0, 1, 5, 100, 4096, r.N(300), r.N(10000), r.N(70000)))
					if r.N(3) == 0 {
						op.M |= 64
					}
				}
				return op
			}
			if r.N(2) == 0 {
				for n := r.Range(1, 3); n > 0; n-- {
					p.Tasks[1] = append(p.Tasks[1], one("open"))
				}
			}
			for n := r.Range(1, 3); n > 0; n-- {
				t := []Op{one("open")}
				for k := r.Range(3, 23); k > 0; k-- {
					op := one(simrt.Pick(r, "open", "open", "read", "read", "read", "read", "readat", "readat", "readat", "seek", "seek", "seek", "stat", "close", "readfile"))
					if op.K == "readat" && r.N(3) == 0 && len(p.Tasks[1]) > 0 {
						op.M |= 16
					}
					t = append(t, op)
				}
				p.Tasks = append(p.Tasks, t)
			}
			if len(p.Tasks) > 3 {
				p.Sched = mixSched(r, 1500)
			} else {
				p.Sched = seqSched(r)
			}
			if r.N(3) == 0 {
				g := &FaultGen{P: map[string]float64{}, Max: r.Range(1, 6), Short: simrt.Pick(r, 0.0, 0.3, 0.6), From: 1 + len(p.Tasks[0]) + len(p.Tasks[1])}
				rate := simrt.Pick(r, 0.03, 0.1, 0.3)
				for _, k := range []string{"read", "open", "stat", "mmap"} {
					g.P[k] = rate * simrt.Pick(r, 0.0, 1.0, 1.0, 2.0)
				}
				p.Gen = g
			}
			return p
		},
		Run: accessRun,
	})
}
