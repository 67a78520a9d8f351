package main

import (
	"bytes"
	"fmt"
	"io"
	"sort"
	"strings"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/util"

	"wpkverif/simos"
	"wpkverif/simrt"
)

const realConc = "wpk (writer, table, tagsets, directory listing, open), util (ordered map), access methods: all real code; goroutines, mutexes and files are the simulator's"

var concNames = []string{"a", "b", "p/x", "p/y", "p/z", "q/x", "q/w", "p/s/t"}

// sizes hands out file sizes that differ within one execution.
type sizes struct {
	r    *simrt.Rng
	used map[int64]bool
}

func newSizes(r *simrt.Rng) *sizes { return &sizes{r, map[int64]bool{}} }

func (s *sizes) next() int64 {
	for {
		n := int64(0)
		switch s.r.N(12) {
		case 0:
			n = int64(s.r.N(2))
		case 1:
			n = int64(s.r.Range(4000, 9000))
		case 2:
			n = int64(s.r.Range(32000, 70000))
		default:
			n = int64(s.r.Range(2, 900))
		}
		if !s.used[n] {
			s.used[n] = true
			return n
		}
	}
}

// genTasks draws the clients' calls; task 0 is the setup that runs alone.
func genTasks(r *simrt.Rng, tasks, per, setup int, few int, w map[string]int) [][]Op {
	sz := newSizes(r)
	nm := func() string { return concNames[r.N(few)] }
	one := func(k string) (op Op) {
		op.K = k
		switch k {
		case "pack", "packfile":
			op.A, op.N, op.M = nm(), sz.next(), int64(r.N(4)|r.N(8)<<8)
			if r.N(4) == 0 {
				op.M |= 16 // through a view
			}
		case "rename", "alias":
			op.A, op.B = nm(), nm()
			if r.N(4) == 0 {
				op.M |= 16
			}
		case "renamedir":
			op.A, op.B = "p", "q"
			if r.N(2) == 0 {
				op.A, op.B = "q", "p"
			}
			op.N = int64(r.N(2))
		case "readdir":
			op.A = simrt.Pick(r, ".", "p", "q", "p/s")
		case "glob":
			op.A = simrt.Pick(r, "*", "p/*", "*/x", "?")
		case "sub":
			op.A = simrt.Pick(r, "p", "q")
		case "open":
			op.A = nm()
			if r.N(4) == 0 {
				op.A = simrt.Pick(r, "p", "q", "p/s")
			}
		default:
			op.A, op.M = nm(), int64(r.N(4))
		}
		return
	}
	var bag []string
	var keys []string
	for k := range w {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		for i := w[k] * simrt.Pick(r, 0, 1, 1, 2); i > 0; i-- {
			bag = append(bag, k)
		}
	}
	if len(bag) == 0 {
		bag = keys
	}
	l := [][]Op{{}}
	for i := 0; i < setup; i++ {
		op := one("pack")
		if i == 0 {
			op.N = 777 // the block "put" refers to
			if sz.used[777] {
				op.N = 778
			}
			sz.used[op.N] = true
			op.A, op.M = "base", 0
		}
		l[0] = append(l[0], op)
	}
	if w["renamedir"] > 0 && r.N(40) == 0 {
		tasks, per = min(tasks, 3), min(per, 3)
		for i := r.Range(6, 20); i > 0; i-- { // a large directory
			l[0] = append(l[0], Op{K: "alias", A: "base", B: fmt.Sprintf("p/m%d", i)})
		}
	}
	for t := 0; t < tasks; t++ {
		var ops []Op
		for n := r.Range(1, per); n > 0; n-- {
			ops = append(ops, one(bag[r.N(len(bag))]))
		}
		l = append(l, ops)
	}
	return l
}

// concRun is the common course of the concurrent scenarios.
func concRun(x *Exec, tag bool) {
	c := newConc(x)
	c.start()
	if tag {
		t, err := tagger(2, c.dpath) // the only method that sees data packed later
		if err != nil {
			x.Fail("create", "tagger: %v", err)
		}
		c.pkg.Tagger = t
	}
	x.Quiet(func() {
		for i := range x.P.Tasks[0] {
			c.do(&x.P.Tasks[0][i])
		}
	})
	c.clients(x.P.Tasks[1:])
	x.Probes["overlapping-pairs"] += c.overlap()
	for i := range c.hist {
		o := &c.hist[i]
		if i2, ok := o.Input.(cin); ok {
			x.State(i2.k, o.Output.(cout).err, o.Output.(cout).ok)
		}
	}
	c.settle()
	c.linear()
	x.Probes["linearized-calls"] += int64(len(c.hist))
}

func concTrivial(x *Exec) bool { return x.Probes["overlapping-pairs"] == 0 }

func init() {
	register(&Prop{ID: "P08", Quick: 450000, Deep: 6000000, Real: realConc, Trivial: concTrivial,
		Rule: "2-5 tasks pack 1-4 files each (from readers that deliver in pieces, or from files; distinct and equal names; directly and through sub-directory views) under one seeded schedule, half of the runs with failing sources, writes and seeks; afterwards every acknowledged block, the extents, data size and table are compared; non-trivial: at least two calls of different tasks overlapped",
		Gen: func(r *simrt.Rng, deep bool) *Plan {
			p := &Plan{Cfg: map[string]int64{"split": int64(r.N(2))}}
			p.Tasks = genTasks(r, r.Range(2, 5), 4, r.Range(1, 2), simrt.Pick(r, 3, 8, 8), weights("pack", 6, "packfile", 3, "rename", 1, "get", 1, "list", 1, "size", 2))
			p.Sched = mixSched(r, 1500)
			if r.N(2) == 0 {
				p.Gen = writeFaults(r)
				p.Gen.From = 1 + len(p.Tasks[0])
			}
			return p
		},
		Run: func(x *Exec) { concRun(x, false) },
	})
	register(&Prop{ID: "P09", Quick: 600000, Deep: 8000000, Real: realConc, Trivial: concTrivial,
		Rule: "2-4 tasks execute 1-5 name calls each (pack, rename, rename of directories, alias, delete, put, get, has, stat, count, list) over 3-8 shared names under one seeded schedule; the recorded history is checked for linearizability against a sequential table; non-trivial: at least two calls of different tasks overlapped",
		Gen: func(r *simrt.Rng, deep bool) *Plan {
			p := &Plan{Cfg: map[string]int64{"split": int64(r.N(2))}}
			n := r.Range(2, 4)
			per := 5
			if n == 4 {
				per = 4
			}
			p.Tasks = genTasks(r, n, per, r.Range(1, 5), simrt.Pick(r, 3, 4, 8), weights("pack", 4, "packfile", 1, "rename", 5, "renamedir", 3, "alias", 4, "del", 3, "put", 2, "edit", 1, "get", 3, "has", 2, "stat", 1, "len", 2, "list", 4, "setinfo", 1, "info", 1, "size", 1))
			p.Sched = mixSched(r, 1200)
			return p
		},
		Run: func(x *Exec) { concRun(x, false) },
	})
	register(&Prop{ID: "P10", Quick: 450000, Deep: 6000000, Real: realConc,
		Trivial: func(x *Exec) bool { return concTrivial(x) || x.Probes["sync"] == 0 },
		Rule:    "2-4 tasks of which at least one syncs, the others pack, rename, alias, delete, edit tags and set the package info, under one seeded schedule, a third of the runs with write, seek and source faults; the table of every committed header is read from the disk by an independent parser and must be the state of one instant of that sync in some order of all calls; non-trivial: calls overlapped and a sync succeeded",
		Gen: func(r *simrt.Rng, deep bool) *Plan {
			p := &Plan{Cfg: map[string]int64{"split": int64(r.N(3) / 1 % 2)}}
			p.Tasks = genTasks(r, r.Range(1, 3), 4, r.Range(1, 4), simrt.Pick(r, 3, 5, 8), weights("pack", 5, "packfile", 1, "rename", 4, "renamedir", 1, "alias", 3, "del", 3, "put", 1, "edit", 2, "setinfo", 3, "info", 2, "size", 1, "list", 1, "sync", 1))
			var s []Op
			for n := r.Range(1, 3); n > 0; n-- {
				s = append(s, Op{K: "sync"})
				if r.N(4) == 0 {
					s = append(s, Op{K: "list"})
				}
			}
			p.Tasks = append(p.Tasks, s)
			p.Sched = mixSched(r, 1500)
			if r.N(3) == 0 {
				p.Gen = writeFaults(r)
				p.Gen.From = 1 + len(p.Tasks[0])
			}
			return p
		},
		Run: func(x *Exec) { concRun(x, false) },
	})
	register(&Prop{ID: "P11", Quick: 100000, Deep: 2000000, Real: realConc,
		Trivial: func(x *Exec) bool { return x.Probes["open-during-sync"] == 0 },
		Rule:    "one writer of a split package packs, renames, deletes, edits and syncs while 1-3 readers open it with handles of their own, read the table and every file by one of the access methods; writes are seen page by page; every opened state must be that of a sync in the window of the open; non-trivial: an open overlapped a sync",
		Gen: func(r *simrt.Rng, deep bool) *Plan {
			p := &Plan{Cfg: map[string]int64{"split": 1}}
			p.Tasks = genTasks(r, 1, 12, r.Range(1, 3), simrt.Pick(r, 3, 5, 8), weights("pack", 6, "packfile", 1, "rename", 3, "renamedir", 1, "alias", 2, "del", 3, "edit", 2, "setinfo", 2))
			var w []Op
			for _, op := range p.Tasks[1] {
				w = append(w, op)
				if r.N(2) == 0 {
					w = append(w, Op{K: "sync"})
				}
				if r.N(12) == 0 {
					w = append(w, Op{K: "append"})
				}
			}
			p.Tasks[1] = append(w, Op{K: "sync"})
			for n := r.Range(1, 3); n > 0; n-- {
				var l []Op
				for m := r.Range(1, 4); m > 0; m-- {
					op := Op{K: "reader", N: int64(r.N(3))}
					if r.N(3) == 0 {
						op.M = 1 // package info only
					}
					l = append(l, op)
				}
				p.Tasks = append(p.Tasks, l)
			}
			p.Cfg["big"] = int64(r.N(3))
			p.Sched = mixSched(r, 3000)
			return p
		},
		Run: readersRun,
	})
	register(&Prop{ID: "P12", Quick: 800000, Deep: 16000000, Real: "util.SeqMap: real code; its mutex and the goroutines are the simulator's",
		Trivial: func(x *Exec) bool { return x.Probes["overlapping-pairs"] == 0 },
		Rule:    "2-4 tasks execute 1-5 calls each on one map of at most 6 keys (poke, push, peek, has, length, delete, pop, iterations stopped early or whose callback calls the map), under one seeded schedule; the history is checked for linearizability against a sequential insertion-ordered map; non-trivial: at least two calls of different tasks overlapped",
		Gen: func(r *simrt.Rng, deep bool) *Plan {
			p := &Plan{}
			kinds := []string{"poke", "poke", "push", "push", "peek", "has", "len", "delete", "delete", "pop", "pop", "range", "range"}
			keys := r.Range(2, 6)
			p.Tasks = [][]Op{{}}
			one := func() Op {
				op := Op{K: kinds[r.N(len(kinds))], A: string(rune('a' + r.N(keys))), M: int64(r.N(4))}
				if op.K == "range" {
					op.B = simrt.Pick(r, "", "", "delete", "poke", "pop", "push")
				}
				return op
			}
			for n := r.N(6); n > 0; n-- {
				op := one()
				op.K = "poke"
				p.Tasks[0] = append(p.Tasks[0], op)
			}
			for n := r.Range(2, 4); n > 0; n-- {
				var l []Op
				for m := r.Range(1, 5); m > 0; m-- {
					l = append(l, one())
				}
				p.Tasks = append(p.Tasks, l)
			}
			p.Sched = mixSched(r, 200)
			return p
		},
		Run: seqmapRun,
	})
}

// --- P11 ---

type window struct {
	from, to int64 // to < 0: still running
	list     string
	info     string
	ok       bool
}

func readersRun(x *Exec) {
	x.set("split", 1)
	c := newConc(x)
	c.start()
	var syncs []*window
	// before the first sync: an empty package
	syncs = append(syncs, &window{from: -2, to: -1, ok: true})
	x.FS.Split = true
	write := func(op *Op) {
		switch op.K {
		case "sync":
			s := &window{from: simrt.Seq(), to: -1}
			syncs = append(syncs, s)
			n := len(c.img)
			c.do(op)
			if len(c.img) == n+1 {
				s.list, s.ok = c.img[n].list, true
			}
			s.to = simrt.Seq()
		case "append":
			simrt.SetOp(op.ID)
			wpt, wpf := c.files()
			if err := c.pkg.Append(wpt, wpf); err != nil {
				x.Fail("spurious", "append failed: %v", err)
			}
		default:
			c.do(op)
		}
	}
	for i := range x.P.Tasks[0] {
		write(&x.P.Tasks[0][i])
	}
	if x.is("big") { // a table of many pages
		ts, _ := c.pkg.GetTagset("base")
		for i := 0; i < 12*int(x.cfg("big")); i++ {
			k := fmt.Sprintf("base%d", i)
			ts = wpk.CopyTagset(ts).Set(wpk.TIDpath, wpk.StrTag(k)).Set(wpk.TIDcomment, wpk.StrTag(strings.Repeat("c", 300)))
			c.pkg.SetTagset(k, ts)
		}
	}
	for ti := range x.P.Tasks[1:] {
		ops := x.P.Tasks[1+ti]
		simrt.Go(func() {
			for i := range ops {
				op := &ops[i]
				if op.K != "reader" {
					write(op)
					continue
				}
				simrt.SetOp(op.ID)
				c.reader(op, &syncs)
			}
		})
	}
	simrt.Join()
	x.FS.Split = false
	c.settle()
}

// reader opens the package as another process would.
func (c *conc) reader(op *Op, syncs *[]*window) {
	x := c.x
	t0 := simrt.Seq()
	pkg := wpk.NewPackage()
	var err error
	var hdr wpk.Header
	var info wpk.TagsetRaw
	if op.M == 1 {
		var f *simos.File
		if f, err = simos.Open(c.tpath); err != nil {
			x.Fail("spurious", "opening the tags file: %v", err)
		}
		hdr, info, err = wpk.GetPackageInfo(f)
		f.Close()
	} else {
		err = pkg.OpenFile(c.tpath)
	}
	t1 := simrt.Seq()
	// the states allowed
	last, over := 0, 0
	var allowed []*window
	for i, s := range *syncs {
		switch {
		case s.to >= 0 && s.to <= t0 || s.from < 0:
			if s.ok {
				last = i
			}
		case s.from < t1:
			over++
		}
	}
	for i, s := range *syncs {
		if i == last || i > last && s.from < t1 && (s.ok || s.to < 0) {
			allowed = append(allowed, s)
		}
	}
	if over > 0 {
		x.Hit("open-during-sync")
	}
	if over > 1 {
		x.Hit("open-during-two-syncs")
	}
	if err != nil {
		if over <= 1 {
			x.Fail("reader-open", "opening while the writer works (%d syncs overlapped) failed: %v", over, err)
		}
		x.Hit("open-refused")
		return
	}
	// is the state, as f sees it, one of those allowed
	committed := func(f func(list string) bool) bool {
		for _, s := range allowed {
			if s.ok && f(s.list) {
				return true
			}
			if s.to < 0 && !s.ok { // a sync in progress commits when its header is written
				for _, im := range c.img {
					if im.at >= s.from && f(im.list) {
						return true
					}
				}
			}
		}
		return false
	}
	if op.M == 1 {
		if over > 1 {
			return
		}
		label, _ := info.TagStr(wpk.TIDlabel)
		if !committed(func(list string) bool {
			m := parseSet(list)
			l := m[infoKey]
			delete(m, infoKey)
			return l == label && len(m) == hdr.Count()
		}) {
			x.Fail("reader-info", "a reader of the package info sees %q and %d files, but the syncs of its window committed\n %s", label, hdr.Count(), windows(allowed))
		}
		x.Hit("info-ok")
		return
	}
	if pkg.Tagger, err = tagger(int(op.N), c.dpath); err != nil {
		x.Fail("reader-open", "opening the data file: %v", err)
	}
	defer pkg.Close()
	m := map[string]string{}
	pkg.Enum(func(k string, ts wpk.TagsetRaw) bool {
		if over <= 1 {
			m[strings.Clone(k)] = c.checkTs(k, ts)
		} else {
			m[strings.Clone(k)] = value(ts)
		}
		return true
	})
	if info := pkg.GetInfo(); len(info) > 0 {
		m[infoKey], _ = info.TagStr(wpk.TIDlabel)
	}
	got := setString(m)
	found := committed(func(list string) bool { return list == got })
	if !found && over <= 1 {
		x.Fail("reader-state", "a reader sees the state\n %s\nbut the syncs of its window committed\n %s", got, windows(allowed))
	}
	if over > 1 {
		return
	}
	var keys []string
	for k := range m {
		if k != infoKey {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		b, err := pkg.ReadFile(k)
		if err != nil {
			x.Fail("reader-read", "a reader cannot read %q: %v", k, err)
		}
		want := c.blks[len(b)]
		if want == nil || !bytes.Equal(b, want.bytes()) || !strings.HasPrefix(m[k], fmt.Sprint(len(b))) {
			x.Fail("reader-content", "a reader gets %d wrong bytes for %q", len(b), k)
		}
	}
	x.Hit("reader-ok")
}

func windows(l []*window) string {
	var s []string
	for _, w := range l {
		s = append(s, fmt.Sprintf("%d..%d ok=%v %s", w.from, w.to, w.ok, w.list))
	}
	return strings.Join(s, "\n ")
}

// --- P12 ---

type mapin struct {
	k, key, stop string
	v, n         int
}

type mout struct {
	key  string
	v, n int
	ok   bool
	list string
}

func (i mapin) String() string { return fmt.Sprintf("%s(%s,%d)", i.k, i.key, i.v) }
func (o mout) String() string {
	return fmt.Sprintf("%v %s=%d n=%d [%s]", o.ok, o.key, o.v, o.n, o.list)
}

func mapStep(st string, in mapin, out mout) (string, bool) {
	var l []string
	if st != "" {
		l = strings.Split(st, ";")
	}
	at, val := -1, 0
	for i, e := range l {
		k, v, _ := strings.Cut(e, "=")
		if k == in.key {
			at = i
			fmt.Sscan(v, &val)
		}
	}
	pair := fmt.Sprintf("%s=%d", in.key, in.v)
	switch in.k {
	case "poke":
		if at >= 0 {
			l[at] = pair
		} else {
			l = append(l, pair)
		}
	case "push":
		if out.ok != (at >= 0) {
			return "", false
		}
		if at < 0 {
			l = append(l, pair)
		}
	case "peek", "delete":
		if out.ok != (at >= 0) || out.v != val {
			return "", false
		}
		if in.k == "delete" && at >= 0 {
			l = append(l[:at:at], l[at+1:]...)
		}
	case "has":
		return st, out.ok == (at >= 0)
	case "len":
		return st, out.n == len(l)
	case "pop":
		if len(l) == 0 {
			return st, !out.ok
		}
		if !out.ok || l[len(l)-1] != fmt.Sprintf("%s=%d", out.key, out.v) {
			return "", false
		}
		l = l[:len(l)-1]
	case "range":
		want := l
		if in.n > 0 && in.n < len(l) {
			want = l[:in.n]
		}
		return st, out.list == strings.Join(want, ";")
	}
	return strings.Join(l, ";"), true
}

func seqmapRun(x *Exec) {
	var m util.SeqMap[string, int]
	m.Init(3)
	var hist []porcupine.Operation
	rec := func(in mapin, f func() mout) {
		i := len(hist)
		hist = append(hist, porcupine.Operation{ClientId: simrt.ID(), Input: in, Call: simrt.Seq(), Return: -1})
		o := f()
		hist[i].Output, hist[i].Return = o, simrt.Seq()
	}
	var do func(op *Op, v int)
	do = func(op *Op, v int) {
		in := mapin{k: op.K, key: op.A, v: v}
		switch op.K {
		case "poke":
			rec(in, func() (o mout) { m.Poke(op.A, v); return })
		case "push":
			rec(in, func() (o mout) { o.ok = m.Push(op.A, v); return })
		case "peek":
			rec(in, func() (o mout) { o.v, o.ok = m.Peek(op.A); return })
		case "has":
			rec(in, func() (o mout) { o.ok = m.Has(op.A); return })
		case "len":
			rec(in, func() (o mout) { o.n = m.Len(); return })
		case "delete":
			rec(in, func() (o mout) { o.v, o.ok = m.Delete(op.A); return })
		case "pop":
			rec(in, func() (o mout) { o.key, o.v, o.ok = m.Pop(); return })
		case "range":
			in.n = int(op.M)
			rec(in, func() (o mout) {
				var l []string
				m.Range(func(k string, val int) bool {
					l = append(l, fmt.Sprintf("%s=%d", k, val))
					if op.B != "" && len(l) == 1 {
						x.Hit("callback-" + op.B)
						do(&Op{K: op.B, A: op.A}, v+1000)
					}
					return len(l) != in.n
				})
				o.list = strings.Join(l, ";")
				return
			})
		}
	}
	for i := range x.P.Tasks[0] {
		op := &x.P.Tasks[0][i]
		do(op, op.ID)
	}
	for t := range x.P.Tasks[1:] {
		ops := x.P.Tasks[1+t]
		simrt.Go(func() {
			for i := range ops {
				simrt.SetOp(ops[i].ID)
				do(&ops[i], ops[i].ID)
			}
		})
	}
	simrt.Join()
	do(&Op{K: "len"}, 0)
	do(&Op{K: "range"}, 0)
	// every key that can be met is looked up, and the map emptied
	for k := 'a'; k < 'g'; k++ {
		do(&Op{K: "peek", A: string(k)}, 0)
	}
	for i := 0; i < 8; i++ {
		do(&Op{K: "pop"}, 0)
	}
	n := int64(0)
	for i := range hist {
		for j := range hist[:i] {
			if a, b := &hist[i], &hist[j]; a.ClientId != b.ClientId && a.Call < b.Return && b.Call < a.Return {
				n++
			}
		}
		x.State(fmt.Sprint(hist[i].Input, hist[i].Output))
	}
	x.Probes["overlapping-pairs"] += n
	x.Probes["linearized-calls"] += int64(len(hist))
	model := porcupine.Model{
		Init: func() interface{} { return "" },
		Step: func(st, in, out interface{}) (bool, interface{}) {
			s, ok := mapStep(st.(string), in.(mapin), out.(mout))
			return ok, s
		},
		Equal: func(a, b interface{}) bool { return a.(string) == b.(string) },
	}
	switch porcupine.CheckOperationsTimeout(model, hist, 20*time.Second) {
	case porcupine.Illegal:
		var s strings.Builder
		sort.Slice(hist, func(i, j int) bool { return hist[i].Call < hist[j].Call })
		for _, o := range hist {
			fmt.Fprintf(&s, "  [%d..%d] task %d %v -> %v\n", o.Call, o.Return, o.ClientId, o.Input, o.Output)
		}
		x.Fail("not-linearizable", "no order of the calls on the map explains the results:\n%s", s.String())
	case porcupine.Unknown:
		x.Hit("linearizability-unknown")
	}
}

var _ = io.EOF
var _ = simos.Cur
