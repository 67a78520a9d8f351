package main

import (
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"path"
	"strings"
	"time"

	"github.com/schwarzlichtbezirk/wpk"

	"wpkverif/simos"
	"wpkverif/simrt"
)

const realSeq = "wpk (writer, table, tagsets, open), util, access methods bulk, mmap and fsys: all real code"

var seqWeights = weights("pack", 8, "packfile", 3, "alias", 3, "rename", 4, "renamedir", 1, "del", 2, "settag", 4, "addtag", 2, "deltag", 2, "puttag", 1, "setinfo", 1, "hold", 1, "sync", 3, "append", 1, "reopen", 1, "long", 1, "retag", 1, "mass", 1)

var faultWeights = weights("pack", 8, "packfile", 4, "alias", 2, "rename", 2, "del", 1, "settag", 1, "setinfo", 1, "sync", 4, "append", 2, "reopen", 1, "long", 1)

func pickBase(r *simrt.Rng) int64 {
	if r.N(3) > 0 {
		return 0
	}
	b := simrt.Pick(r, int64(200), 255, 65400, 65535, 65536, 1<<24, 1<<32-300, 1<<32-64, 1<<32, 1<<33+12345, 1<<40)
	return b - int64(r.N(60))
}

func init() {
	register(&Prop{ID: "P01", Quick: 300000, Deep: 6000000, Real: realSeq,
		Rule:    "one seeded history of 4-60 write-side calls over up to 12 names with 1-6 sessions, in one layout, compared step by step with a reference model and reopened after every sync; non-trivial: at least one sync of a non-empty package",
		Trivial: func(x *Exec) bool { return x.Probes["sync"] == 0 },
		Gen: func(r *simrt.Rng, deep bool) *Plan {
			p := &Plan{Cfg: genCfg(r), Sched: seqSched(r)}
			p.Cfg["base"] = pickBase(r)
			n := r.Range(4, 36)
			if deep && r.N(4) == 0 {
				n = r.Range(30, 90)
			}
			p.Tasks = [][]Op{genOps(r, n, seqWeights)}
			if r.N(6) == 0 { // one object for several packages
				addAnew(r, p)
			}
			if r.N(6) == 0 { // a file with the name of a view
				l := p.Tasks[0]
				k := r.N(len(l) + 1)
				m := int64(r.Range(1, 2)) << 8
				op := []Op{{K: "pack", A: [3]string{1: "d", 2: "d/e"}[m>>8], N: int64(r.N(50))}, {K: "pack", A: simrt.Pick(r, "a", "e/a"), M: m, N: int64(r.N(50))}}
				for i := r.Range(1, 4); i > 0; i-- {
					op = append(op, Op{K: "self", M: m | int64(r.N(2))<<10, N: int64(r.N(4))})
				}
				p.Tasks[0] = append(append(append([]Op{}, l[:k]...), op...), l[k:]...)
			}
			if r.N(40000) == 0 { // more than 16 bits count
				p.Tasks[0] = append([]Op{{K: "mass", N: 66000}}, genOps(r, 5, seqWeights)...)
			}
			return p
		},
		Run: func(x *Exec) { newBuilder(x).run() },
	})

	register(&Prop{ID: "P02", Quick: 360000, Deep: 4800000, Real: realSeq,
		Rule:    "one seeded history of packs, edits, syncs and appends, half of them with write, seek and source faults; every write and truncation of the package files is compared with the extents of all files acknowledged before; non-trivial: a sync and at least two acknowledged files",
		Trivial: func(x *Exec) bool { return x.Probes["sync"] == 0 || x.Probes["guarded"] < 2 },
		Gen: func(r *simrt.Rng, deep bool) *Plan {
			p := &Plan{Cfg: genCfg(r), Sched: seqSched(r)}
			p.Cfg["base"] = pickBase(r)
			n := r.Range(4, 30)
			if deep && r.N(4) == 0 {
				n = r.Range(30, 90)
			}
			p.Tasks = [][]Op{genOps(r, n, faultWeights)}
			if r.N(2) == 0 {
				p.Gen = writeFaults(r)
				p.Cfg["faulty"] = 1
			}
			return p
		},
		Run: func(x *Exec) {
			b := newBuilder(x)
			b.faulty = x.is("faulty")
			x.FS.OnWrite = func(p string, ino, off int64, data []byte) {
				for _, e := range b.extents {
					if e.ino != ino {
						continue
					}
					if data == nil && off < e.end {
						x.Fail("truncated", "%s is cut to %d bytes although %q occupies [%d,%d)", p, off, e.key, e.off, e.end)
					}
					if data != nil && off < e.end && off+int64(len(data)) > e.off {
						x.Fail("overwritten", "a write of %d bytes at %d of %s overwrites %q at [%d,%d)", len(data), off, p, e.key, e.off, e.end)
					}
				}
			}
			b.after = func(op *Op) { x.Probes["guarded"] = int64(len(b.extents)) }
			b.run()
			// every acknowledged block is still what it was, listed or not
			for _, e := range b.m.ents {
				b.checkBlock(e.key, e.blk)
			}
		},
	})

	register(&Prop{ID: "P05", Quick: 540000, Deep: 7200000, Real: realSeq,
		Rule: "one seeded history of packs, edits, syncs, appends and reopenings with 1-12 faults (failing or short reads of the source, failing or partial writes, failing seeks and stats, full disk, over-long tagsets) drawn while it runs; after every call the table is compared with the model, after the faults stop the failed calls are repeated and the package reopened; non-trivial: at least one fault fired inside a call",
		Trivial: func(x *Exec) bool {
			return len(x.Fired) == 0 && x.Probes["overlong-tagset"] == 0 && x.Probes["full"] == 0
		},
		Gen: func(r *simrt.Rng, deep bool) *Plan {
			p := &Plan{Cfg: genCfg(r), Sched: seqSched(r)}
			if r.N(6) == 0 {
				p.Cfg["base"] = pickBase(r)
			}
			n := r.Range(3, 24)
			if deep && r.N(4) == 0 {
				n = r.Range(20, 60)
			}
			p.Tasks = [][]Op{genOps(r, n, faultWeights)}
			if r.N(4) == 0 {
				k := r.N(len(p.Tasks[0]) + 1)
				p.Tasks[0] = append(p.Tasks[0][:k:k], append([]Op{{K: "dump", N: int64(r.N(1 << 20))}}, p.Tasks[0][k:]...)...)
			}
			if r.N(8) == 0 {
				addAnew(r, p)
			}
			p.Gen = writeFaults(r)
			p.Cfg["faulty"] = 1
			pickSpace(r, p)
			return p
		},
		Run: func(x *Exec) {
			b := newBuilder(x)
			b.faulty = true
			b.run()
		},
	})

	register(&Prop{ID: "P03", Quick: 120000, Deep: 2400000, Real: realSeq,
		Rule:    "one seeded history of a split package is executed and its write journal kept; the package is then opened and read from the file images left by process deaths at (up to) every journal position, and inside writes at every 512-byte boundary; from one of these images a new process may continue the history, up to four lives; non-trivial: a death inside a sync after an earlier sync",
		Trivial: func(x *Exec) bool { return x.Probes["crash-in-sync"] == 0 },
		Gen: func(r *simrt.Rng, deep bool) *Plan {
			p := &Plan{Cfg: genCfg(r), Sched: seqSched(r)}
			p.Cfg["split"] = 1
			genLives(r, p)
			return p
		},
		Run: func(x *Exec) { x.set("split", 1); crashRun(x) },
	})

	register(&Prop{ID: "P04", Quick: 270000, Deep: 3600000, Real: realSeq,
		Rule:    "as P03 for a single-file package: every image must be refused or open as one complete synced state; non-trivial: a death inside a sync",
		Trivial: func(x *Exec) bool { return x.Probes["crash-in-sync"] == 0 },
		Gen: func(r *simrt.Rng, deep bool) *Plan {
			p := &Plan{Cfg: genCfg(r), Sched: seqSched(r)}
			p.Cfg["split"] = 0
			if r.N(5) == 0 {
				p.Cfg["base"] = pickBase(r) % (1 << 20)
			}
			genLives(r, p)
			return p
		},
		Run: func(x *Exec) { x.set("split", 0); crashRun(x) },
	})

	register(&Prop{ID: "P16", Quick: 200000, Deep: 4000000, Real: realSeq,
		Rule:    "one seeded history rich in tag edits of all lengths, renames and aliases, on entries fresh and loaded, while earlier readers keep tagsets and names whose bytes are compared after every step; non-trivial: a tag was replaced by one of another length or a tagset was held across an edit",
		Trivial: func(x *Exec) bool { return x.Probes["set-other-length"] == 0 && x.Probes["held"] == 0 },
		Gen: func(r *simrt.Rng, deep bool) *Plan {
			p := &Plan{Cfg: genCfg(r), Sched: seqSched(r)}
			w := weights("pack", 5, "packfile", 4, "alias", 4, "rename", 4, "renamedir", 1, "del", 1, "settag", 10, "addtag", 4, "deltag", 5, "puttag", 5, "setinfo", 2, "hold", 5, "retag", 2, "sync", 2, "append", 1, "reopen", 2)
			n := r.Range(6, 50)
			if r.N(6) == 0 {
				w["long"] = 1
			}
			p.Tasks = [][]Op{genOps(r, n, w)}
			return p
		},
		Run: func(x *Exec) {
			b := newBuilder(x)
			b.after = func(op *Op) {
				x.Probes["held"] += int64(len(b.held))
				b.tagViews(op)
			}
			b.run()
		},
	})
}

func crashWeights(r *simrt.Rng) map[string]int {
	return weights("pack", 7, "packfile", 2, "alias", 2, "rename", 3, "renamedir", 1, "del", 2, "settag", 3, "setinfo", 1, "sync", 5, "append", 2, "reopen", 1)
}

func writeFaults(r *simrt.Rng) *FaultGen {
	g := &FaultGen{P: map[string]float64{}, Max: r.Range(1, 12), Short: simrt.Pick(r, 0.0, 0.3, 0.6, 1.0)}
	rate := simrt.Pick(r, 0.01, 0.03, 0.1, 0.3)
	for _, k := range []string{"write", "seek", "src", "read", "stat"} {
		g.P[k] = rate * simrt.Pick(r, 0.0, 1.0, 1.0, 3.0)
	}
	return g
}

// addAnew lets one object write several packages.
func addAnew(r *simrt.Rng, p *Plan) {
	for i := r.Range(1, 3); i > 0; i-- {
		l := p.Tasks[0]
		k := r.N(len(l) + 1)
		op := []Op{{K: "sync"}, {K: simrt.Pick(r, "anew", "anew", "reopen"), N: int64(r.N(2)), M: 1 << 20}}
		p.Tasks[0] = append(append(append([]Op{}, l[:k]...), op...), l[k:]...)
	}
}

// pickSpace makes the disk small in some plans.
func pickSpace(r *simrt.Rng, p *Plan) {
	if r.N(6) == 0 {
		p.Cfg["space"] = int64(1) << uint(r.Range(7, 16))
		p.Cfg["space"] += int64(r.N(int(p.Cfg["space"])))
	}
}

// genLives makes the calls of up to four processes, one after another.
func genLives(r *simrt.Rng, p *Plan) {
	p.Tasks = [][]Op{genOps(r, r.Range(3, 26), crashWeights(r))}
	for r.N(3) == 0 && len(p.Tasks) < 4 {
		p.Tasks = append(p.Tasks, genOps(r, r.Range(1, 12), crashWeights(r)))
	}
	for _, l := range p.Tasks {
		capSizes(l)
	}
}

// crashRun executes a history and opens the images left by process deaths.
// From one of these images the next task of the plan continues, as a new
// process would, and dies again.
func crashRun(x *Exec) {
	start := x.FS
	var st *snap
	for life := range x.P.Tasks {
		next, state := crashLife(x, life, start, st)
		if next == nil {
			return
		}
		start, st = next, state
		if life+1 < len(x.P.Tasks) {
			x.Hit("continued-after-death")
		}
	}
}

func crashLife(x *Exec, life int, live *simos.FS, st *snap) (next *simos.FS, state *snap) {
	simos.Cur, x.FS = live, live
	live.Record = true
	b := newBuilder(x)
	b.ops = x.P.Tasks[life]
	b.nblk = int64(life) * 1000
	if life > 0 {
		b.inherit(st)
	} else if base := x.cfg("base"); base > 0 {
		b.craft(uint64(base)) // it is there before the history starts
	}
	shadow := live.Clone()
	b.run()
	j := live.Journal
	live.Record = false
	inos := map[int64]*simos.Inode{}
	rng := simrt.NewRng(simrt.MixStr(x.P.Seed, "crash"))
	total := len(j)
	density := 1.0
	if total > 120 {
		density = 120 / float64(total)
	}
	only := x.P.Crash
	if len(x.P.Lives) > life {
		only = &x.P.Lives[life]
	} else if only != nil && only.Life != life {
		return
	}
	best := ^uint64(0)
	var chosen CrashPt
	x.Quiet(func() {
		for i := 0; i <= total; i++ {
			insync := false
			for _, c := range b.commits {
				if c.from <= i && i <= c.to {
					insync = true
				}
			}
			try := func(keep int) {
				c := CrashPt{life, i, keep}
				if only != nil && *only != c {
					return
				}
				x.Crash = &c
				simos.Cur, x.FS = shadow, shadow
				x.subs++
				live.Fired["process-death"]++
				s := b.crashed(i, keep)
				simos.Cur, x.FS = live, live
				x.Crash = nil
				h := simrt.Mix(x.P.Seed, uint64(life), uint64(i), uint64(keep+1))
				if insync {
					h /= 8
				}
				if s != nil && h < best && life+1 < len(x.P.Tasks) {
					best, chosen, state = h, c, s
					next = shadow.Clone()
				}
			}
			if insync || rng.P(density) || only != nil {
				try(-1)
			}
			if i == total {
				break
			}
			r := &j[i]
			if r.Kind == "write" && len(r.Data) > 1 {
				first := int(512 - r.Off%512)
				n := 0
				for k := first; k < len(r.Data); k += 512 {
					if n++; n > 6 && only == nil {
						k += 512 * rng.N(40)
						if k >= len(r.Data) {
							break
						}
					}
					if only != nil && (only.Rec != i || only.Keep != k) {
						continue
					}
					shadow.Apply(r, inos, k)
					x.Hit("torn-write")
					try(k)
				}
			}
			shadow.Apply(r, inos, -1)
		}
	})
	if next != nil {
		x.Lives = append(x.Lives, chosen)
		next.Fired, next.Kinds, next.NIO, next.Inject = live.Fired, live.Kinds, live.NIO, live.Inject
	}
	return
}

// inherit starts from the state another process left.
func (b *builder) inherit(s *snap) {
	for i, k := range s.keys {
		m, _, _ := parseTags([]byte(s.sets[i]))
		delete(m, uint16(wpk.TIDoffset))
		delete(m, uint16(wpk.TIDsize))
		delete(m, uint16(wpk.TIDpath))
		b.m.add(&ment{key: k, blk: s.blks[i], tags: m})
	}
	b.m.info, _, _ = parseTags([]byte(s.info))
	b.packed = s.size
	b.begun, b.inherited = true, true
	b.com = s
	b.commits = append(b.commits, commit{state: s, done: true})
}

// imageReader reads a file without system calls.
type imageReader struct{ *simos.Inode }

func (f imageReader) ReadAt(p []byte, off int64) (n int, err error) {
	if n = f.Inode.ReadAt(p, off); n < len(p) {
		err = io.EOF
	}
	return
}

// crashed judges the image left by a death after the first i journal entries.
func (b *builder) crashed(i, keep int) *snap {
	x := b.x
	pos := float64(i)
	if keep >= 0 {
		pos += 0.5
	}
	var allowed []*snap
	insync := false
	var last *snap
	for k := range b.commits {
		c := &b.commits[k]
		switch {
		case c.done && float64(c.to) <= pos:
			last = c.state
		case float64(c.from) <= pos && pos < float64(c.to):
			if c.from == 0 && b.split && k == 0 {
				continue // creation
			}
			insync = true
			allowed = append(allowed, c.state)
		}
	}
	if last != nil {
		allowed = append(allowed, last)
	}
	if insync {
		x.Hit("crash-in-sync")
	}
	mustOpen := false
	if b.split {
		mustOpen = pos >= float64(b.beganAt)
	} else {
		mustOpen = last != nil
		for _, c := range b.busy {
			end := float64(c.to)
			if !c.done {
				end = 1e18
			}
			if float64(c.from) < pos && pos < end {
				mustOpen = false
			}
		}
	}
	simrt.Allow(500_000) // for each image
	var peek wpk.TagsetRaw
	peeked := fmt.Errorf("no file")
	if f := x.FS.Look(b.tpath); f != nil {
		_, peek, peeked = wpk.GetPackageInfo(io.NewSectionReader(imageReader{f}, 0, f.Size()))
	}
	pkg, err := openPkg(b.tpath, b.dpath, i)
	if err != nil {
		if peeked == nil {
			x.Fail("crash-info", "process death after %d journal entries (%d bytes of the next): the package is refused (%v), but GetPackageInfo gives %x", i, keep, err, string(peek))
		}
		if mustOpen {
			x.Fail("crash-open", "process death after %d journal entries (%d bytes of the next): the package does not open: %v", i, keep, err)
		}
		x.Hit("crash-refused")
		return nil
	}
	defer pkg.Close()
	got := takeSnap(pkg, nil)
	x.Hit("crash-opened")
	if peeked != nil || string(peek) != string(pkg.GetInfo()) {
		x.Fail("crash-info", "process death after %d journal entries (%d bytes of the next): the package opens with the info %x, GetPackageInfo gives %x, %v", i, keep, string(pkg.GetInfo()), string(peek), peeked)
	}
	var why []string
	for _, s := range allowed {
		err := s.diff(got)
		if err == nil && uint64(pkg.DataSize()) != s.size {
			err = fmt.Errorf("the data size is %d, expected %d", pkg.DataSize(), s.size)
		}
		if err == nil {
			if err := readBack(pkg, s); err != nil {
				x.Fail("crash-content", "process death after %d journal entries (%d bytes of the next): %v", i, keep, err)
			}
			if b.split && x.FS.Look(b.dpath) == nil {
				return nil
			}
			return s
		}
		why = append(why, err.Error())
	}
	if !mustOpen && b.split {
		if len(got.keys) == 0 { // died while being created
			return nil
		}
	}
	x.Fail("crash-state", "process death after %d journal entries (%d bytes of the next): the package opens with %v, which is none of the %d allowed states: %s", i, keep, got, len(allowed), strings.Join(why, "; "))
	return nil
}

// tagViews reads every tag of an entry through the public accessors.
func (b *builder) tagViews(op *Op) {
	x := b.x
	for i, e := range b.m.ents {
		ts, ok := b.pkg.GetTagset(e.key)
		_, order, _ := parseTags(ts)
		x.Check(ok, "table", "GetTagset(%q) finds nothing", e.key)
		for tid, v := range e.tags {
			got, ok := ts.Get(tid)
			if !ok || string(got) != v {
				x.Fail("get", "Get(%d) of %q is %s (%v), expected %s", tid, e.key, short(string(got)), ok, short(v))
			}
			x.Check(ts.Has(tid), "get", "Has(%d) of %q is false", tid, e.key)
		}
		x.Check(ts.Num() == len(e.tags)+3, "get", "Num of %q is %d, expected %d", e.key, ts.Num(), len(e.tags)+3)
		off, size := ts.Pos()
		x.Check(uint64(off) == e.blk.off && int(size) == e.blk.size, "get", "Pos of %q is %d,%d", e.key, off, size)
		x.Check(ts.Path() == e.key, "get", "Path of %q is %q", e.key, ts.Path())
		x.Check(ts.Name() == path.Base(e.key) && ts.Size() == int64(e.blk.size) && !ts.IsDir() && ts.Mode() == 0444, "get", "FileInfo of %q: name %q, size %d, directory %v, mode %v", e.key, ts.Name(), ts.Size(), ts.IsDir(), ts.Mode())
		_, hasc := e.tags[uint16(wpk.TIDctime)]
		_, hasb := e.tags[uint16(wpk.TIDbtime)]
		x.Check(ts.HasChangeTime() == hasc && ts.HasBirthTime() == hasb, "get", "HasChangeTime and HasBirthTime of %q: %v, %v", e.key, ts.HasChangeTime(), ts.HasBirthTime())
		for _, tid := range order {
			if v, ok := e.tags[tid]; ok && (op.ID+i)%4 == 0 {
				b.typed(e.key, ts, tid, v)
			}
		}
		if (op.ID+i)%4 == 0 {
			b.iterate(e.key, ts)
			for _, tid := range []uint16{99, 777, uint16(wpk.TIDctime)} {
				if _, ok := e.tags[tid]; !ok {
					b.typedNone(e.key, ts, tid)
				}
			}
		}
		for _, t := range []struct {
			what string
			got  time.Time
			tid  wpk.TID
		}{{"ModTime", ts.ModTime(), wpk.TIDmtime}, {"AccessTime", ts.AccessTime(), wpk.TIDatime}, {"ChangeTime", ts.ChangeTime(), wpk.TIDctime}, {"BirthTime", ts.BirthTime(), wpk.TIDbtime}} {
			if want, _ := tagTime(e.tags[uint16(t.tid)]); !t.got.Equal(want) {
				x.Fail("time", "%s of %q is %v, expected %v", t.what, e.key, t.got, want)
			}
		}
	}
}

// tagTime gives the time that a tag value presents.
func tagTime(v string) (t time.Time, ok bool) {
	switch len(v) {
	case 8:
		return time.UnixMilli(int64(uintOf(v))), true
	case 12:
		return time.Unix(int64(binary.LittleEndian.Uint64([]byte(v))), int64(binary.LittleEndian.Uint32([]byte(v[8:])))), true
	}
	return
}

// iterate goes over the tags twice and tries to change them on the way.
func (b *builder) iterate(k string, ts wpk.TagsetRaw) {
	x := b.x
	was := string(ts)
	tags, order, _ := parseTags(ts)
	tsi := ts.Iterator()
	for round := 0; round < 2; round++ {
		for n, tid := range order {
			if !tsi.Next() {
				x.Fail("iterator", "the iterator of %q ends after %d of %d tags", k, n, len(order))
			}
			v := tags[tid]
			if tsi.TID() != tid || string(tsi.Tag()) != v || tsi.TagLen() != len(v) || tsi.Failed() || tsi.Passed() != (n == len(order)-1) {
				x.Fail("iterator", "tag %d of %q: ID %d, value %s, length %d, failed %v, passed %v; expected ID %d, %s", n, k, tsi.TID(), short(string(tsi.Tag())), tsi.TagLen(), tsi.Failed(), tsi.Passed(), tid, short(v))
			}
		}
		if tsi.Next() || !tsi.Passed() || tsi.Failed() {
			x.Fail("iterator", "the iterator of %q does not end after %d tags: passed %v, failed %v", k, len(order), tsi.Passed(), tsi.Failed())
		}
		tsi.Reset()
		if tsi.TID() != wpk.TIDnone || tsi.TagLen() != 0 || tsi.Failed() || tsi.Passed() != (len(was) == 0) {
			x.Fail("iterator", "the reset iterator of %q: ID %d, length %d, failed %v, passed %v", k, tsi.TID(), tsi.TagLen(), tsi.Failed(), tsi.Passed())
		}
	}
	for i, try := range []func(){ // an iterator can not be used for changes
		func() { tsi.Put(wpk.TIDlink, wpk.StrTag("x")) },
		func() { tsi.Add(wpk.TIDlink, wpk.StrTag("x")) },
		func() { tsi.AddOk(wpk.TIDlink, wpk.StrTag("x")) },
		func() { tsi.Set(wpk.TIDpath, wpk.StrTag("x")) },
		func() { tsi.SetOk(wpk.TIDpath, wpk.StrTag("x")) },
		func() { tsi.Del(wpk.TIDpath) },
		func() { tsi.DelOk(wpk.TIDpath) },
	} {
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(simrt.Abort); ok {
						panic(e)
					}
				}
			}()
			try()
		}()
		if string(tsi.TagsetRaw) != was || tsi.Num() != len(order) {
			x.Fail("iterator", "change %d goes through the iterator of %q", i, k)
		}
	}
	if n := len(was); n > 0 && !strings.HasSuffix(was, "\x00\x00") {
		cut := wpk.TagsetRaw(was[:n-1]).Iterator()
		for cut.Next() {
		}
		if cut.Passed() || !cut.Failed() || cut.Tag() != nil || cut.TagLen() != 0 {
			x.Fail("iterator", "the iterator over a cut tagset of %q: passed %v, failed %v, %d bytes", k, cut.Passed(), cut.Failed(), cut.TagLen())
		}
		last := order[len(order)-1]
		if v, ok := wpk.TagsetRaw(was[:n-1]).Get(last); ok {
			x.Fail("iterator", "a cut tagset of %q gives %d bytes of its cut tag %d", k, len(v), last)
		}
	}
	if string(ts) != was {
		x.Fail("iterator", "iterating over the tags of %q changes them", k)
	}
}

// typedNone asks for a tag that is not there.
func (b *builder) typedNone(k string, ts wpk.TagsetRaw, tid uint16) {
	var oks []bool
	add := func(ok bool) { oks = append(oks, ok) }
	_, ok := ts.Get(tid)
	add(ok)
	add(ts.Has(tid))
	_, ok = ts.TagStr(tid)
	add(ok)
	_, ok = ts.TagBool(tid)
	add(ok)
	_, ok = ts.TagByte(tid)
	add(ok)
	_, ok = ts.TagUint16(tid)
	add(ok)
	_, ok = ts.TagUint32(tid)
	add(ok)
	_, ok = ts.TagUint64(tid)
	add(ok)
	_, ok = ts.TagUint(tid)
	add(ok)
	_, ok = ts.TagNumber(tid)
	add(ok)
	_, ok = ts.TagTime(tid)
	add(ok)
	_, ok = ts.TagUnixms(tid)
	add(ok)
	for i, ok := range oks {
		if ok {
			b.x.Fail("get", "tag %d, which %q does not have, is given by accessor %d", tid, k, i)
		}
	}
}

// typed reads a tag by every typed accessor.
func (b *builder) typed(k string, ts wpk.TagsetRaw, tid uint16, v string) {
	x := b.x
	bad := func(what string, got any, ok bool) {
		x.Fail("typed", "%s(%d) of %q gives %v (%v) for %s", what, tid, k, got, ok, short(v))
	}
	if got, ok := ts.TagStr(tid); !ok || got != v {
		bad("TagStr", got, ok)
	}
	one := len(v) == 1
	if got, ok := ts.TagBool(tid); ok != one || got != (one && v[0] != 0) {
		bad("TagBool", got, ok)
	}
	if got, ok := ts.TagByte(tid); ok != one || one && got != v[0] {
		bad("TagByte", got, ok)
	}
	n := uintOf(v)
	is := func(l int) bool { return len(v) == l }
	if got, ok := ts.TagUint16(tid); ok != is(2) || ok && uint64(got) != n {
		bad("TagUint16", got, ok)
	}
	if got, ok := ts.TagUint32(tid); ok != is(4) || ok && uint64(got) != n {
		bad("TagUint32", got, ok)
	}
	if got, ok := ts.TagUint64(tid); ok != is(8) || ok && got != n {
		bad("TagUint64", got, ok)
	}
	if got, ok := ts.TagUint(tid); ok != (one || is(2) || is(4) || is(8)) || ok && uint64(got) != n {
		bad("TagUint", got, ok)
	}
	if got, ok := ts.TagNumber(tid); ok != is(8) || ok && math.Float64bits(got) != n {
		bad("TagNumber", got, ok)
	}
	t, timed := tagTime(v)
	if got, ok := ts.TagTime(tid); ok != timed || ok && !got.Equal(t) {
		bad("TagTime", got, ok)
	}
	if got, ok := ts.TagUnixms(tid); ok != timed || ok && got != t.UnixMilli() {
		bad("TagUnixms", got, ok)
	}
}

// typedValue makes a tag value by one of the typed constructors; the bytes
// are what the format prescribes.
func typedValue(r *simrt.Rng) (t wpk.TagRaw, want string) {
	n := r.U64()
	n >>= uint(simrt.Pick(r, 0, 8, 24, 32, 33, 48, 55, 56, 63, 64))
	if r.N(4) == 0 {
		n = simrt.Pick(r, uint64(0), 1, 255, 256, 65535, 65536, 1<<32-1, 1<<32, 1<<63, 1<<64-1)
	}
	le := func(n uint64, w int) string {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], n)
		return string(b[:w])
	}
	width := func(n uint64) int {
		switch {
		case n > 1<<32-1:
			return 8
		case n > 65535:
			return 4
		case n > 255:
			return 2
		}
		return 1
	}
	at := time.Unix(int64(n>>30)-1<<33, int64(n&(1<<29-1)))
	switch r.N(11) {
	case 0:
		return wpk.BoolTag(n&1 != 0), le(n&1, 1)
	case 1:
		return wpk.ByteTag(byte(n)), le(n, 1)
	case 2:
		return wpk.Uint16Tag(uint16(n)), le(n, 2)
	case 3:
		return wpk.Uint32Tag(uint32(n)), le(n, 4)
	case 4:
		return wpk.Uint64Tag(n), le(n, 8)
	case 5, 6:
		return wpk.UintTag(uint(n)), le(n, width(n))
	case 7:
		w := 1 << r.N(4)
		return wpk.UintLenTag(uint(n), w), le(n, w)
	case 8:
		return wpk.NumberTag(math.Float64frombits(n)), le(n, 8)
	case 9:
		return wpk.UnixmsTag(at), le(uint64(at.UnixMilli()), 8)
	default:
		return wpk.TimeTag(at), timeTagOf(at)
	}
}

func timeTagOf(t time.Time) string {
	var b [12]byte
	binary.LittleEndian.PutUint64(b[:], uint64(t.Unix()))
	binary.LittleEndian.PutUint32(b[8:], uint32(t.Nanosecond()))
	return string(b[:])
}
