package main

import (
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"

	"github.com/schwarzlichtbezirk/wpk"

	"wpkverif/simos"
	"wpkverif/simrt"
)

// --- P19: handles and mappings ---

// held describes what the simulated system has open besides what belongs to
// the harness.
func (x *Exec) held(own map[*simos.File]bool) (n int, what string) {
	var l []string
	for _, f := range x.FS.Open {
		if !own[f] {
			l = append(l, f.Name())
		}
	}
	for _, m := range x.FS.Maps {
		l = append(l, "mapping of "+m)
	}
	sort.Strings(l)
	return len(l), strings.Join(l, ", ")
}

// released requires that nothing is open any more.
func (x *Exec) released(after string) {
	if n, what := x.held(nil); n > 0 {
		x.Fail("leak", "after %s there are %d handles and mappings left: %s", after, n, what)
	}
	x.misuse(after)
}

func (x *Exec) misuse(after string) {
	if len(x.FS.Misuse) > 0 {
		x.Fail("misuse", "after %s: %s", after, strings.Join(x.FS.Misuse, ", "))
	}
}

// hpkg is an open package.
type hpkg struct {
	img   int
	how   int
	pkg   *wpk.Package
	cost  int
	alive bool
}

// hfile is an open nested file, directory or raw package.
type hfile struct {
	key  string
	f    fs.File
	data []byte // nil if the content is not known
	pos  int
	cost int
	dir  bool
}

// himg is a package on the disk.
type himg struct {
	tpath, dpath string
	keys         []string
	data         [][]byte
	bad          []bool // the entry leads out of the file
	broken       bool   // the package is damaged
}

type handles struct {
	x     *Exec
	imgs  []*himg
	pkgs  [4]*hpkg
	files [6]*hfile
	union *wpk.Union
	uimgs []*hpkg
	own   map[*simos.File]bool
	cost  int
	op    *Op
	what  string
}

var hNames = []string{"a", "d/b", "d/c", "d/e/f", "z", "e.txt", "d2/x", "d2/b"}

func (h *handles) build() {
	x := h.x
	r := simrt.NewRng(simrt.MixStr(x.P.Seed, "handles"))
	n := 1 + int(x.cfg("imgs"))
	x.Quiet(func() {
		for i := 0; i < n; i++ {
			m := &himg{}
			m.tpath = fmt.Sprintf("/work/h%d.wpk", i)
			m.dpath = m.tpath
			var wpf io.WriteSeeker
			flags := simos.O_RDWR | simos.O_CREATE | simos.O_TRUNC
			if x.cfg("split")>>i&1 != 0 {
				m.tpath, m.dpath = fmt.Sprintf("/work/h%d.wpt", i), fmt.Sprintf("/work/h%d.wpf", i)
				f, err := simos.OpenFile(m.dpath, flags, 0644)
				must(err)
				defer f.Close()
				wpf = f
			}
			wpt, err := simos.OpenFile(m.tpath, flags, 0644)
			must(err)
			defer wpt.Close()
			var w io.WriteSeeker = wpt
			if wpf != nil {
				w = wpf
			}
			pkg := wpk.NewPackage()
			must(pkg.Begin(wpt, wpf))
			for k := r.N(7); k > 0; k-- {
				key := hNames[r.N(len(hNames))]
				if pkg.HasTagset(key) {
					continue
				}
				data := content(int64(r.U64()>>20), simrt.Pick(r, 0, 1, 100, 4096, 5000, r.N(20000)))
				_, err := pkg.PackData(w, bytes.NewReader(data), key)
				must(err)
				m.keys, m.data, m.bad = append(m.keys, key), append(m.data, data), append(m.bad, false)
			}
			if x.cfg("bad")>>i&1 != 0 && len(m.keys) > 0 { // an entry that will lead out of the file
				m.bad[r.N(len(m.keys))] = true
			}
			must(pkg.Sync(wpt, wpf))
			if x.cfg("bad")>>i&0x100 != 0 {
				m.broken = true
				b, _ := x.FS.Get(m.tpath)
				switch r.N(4) {
				case 0:
					b = b[:r.N(len(b))]
				case 1:
					b[r.N(wpk.HeaderSize)] ^= byte(1 + r.N(255))
				default:
					b[r.N(len(b))] ^= byte(1 + r.N(255))
				}
				x.FS.Put(m.tpath, b)
			}
			h.imgs = append(h.imgs, m)
		}
	})
}

func (h *handles) count() int {
	n, _ := h.x.held(h.own)
	return n
}

// balance requires that exactly what the known objects hold is open.
func (h *handles) balance() {
	x := h.x
	want := 0
	for _, p := range h.pkgs {
		if p != nil && p.alive {
			want += p.cost
		}
	}
	for _, f := range h.files {
		if f != nil {
			want += f.cost
		}
	}
	n, what := x.held(h.own)
	if n > want {
		x.Fail("leak", "after %s there are %d handles and mappings, the open objects hold %d: %s", h.what, n, want, what)
	}
	if n < want {
		x.Fail("overclosed", "after %s there are %d handles and mappings, the open objects hold %d: %s", h.what, n, want, what)
	}
	for f := range h.own {
		if !f.IsOpen() {
			x.Fail("overclosed", "%s closes a file of the caller, %s", h.what, f.Name())
		}
	}
	x.misuse(h.what)
}

func (h *handles) tag(format string, a ...any) { h.what = fmt.Sprintf(format, a...) }

// firm reads an open file to its end and compares it.
func (h *handles) firm(f *hfile) {
	x := h.x
	if f.data == nil || f.dir {
		return
	}
	before := len(x.Fired)
	b := make([]byte, len(f.data)+10)
	n, err := io.ReadFull(f.f, b)
	if len(x.Fired) > before {
		h.rewind(f)
		return
	}
	if err != io.ErrUnexpectedEOF && err != io.EOF || f.pos+n != len(f.data) || !bytes.Equal(b[:n], f.data[f.pos:]) {
		x.Fail("dead", "after %s the open file %q reads %d bytes (%v), expected %d", h.what, f.key, n, err, len(f.data)-f.pos)
	}
	x.Hit("read")
	h.rewind(f)
}

func (h *handles) rewind(f *hfile) {
	if s, ok := f.f.(io.Seeker); ok {
		if _, err := s.Seek(0, io.SeekStart); err == nil {
			f.pos = 0
		}
	}
}

func (h *handles) closeFile(i int) {
	f := h.files[i]
	if f == nil {
		return
	}
	h.tag("closing %q", f.key)
	f.f.Close()
	h.files[i] = nil
	h.balance()
}

func (h *handles) closePkg(i int) {
	p := h.pkgs[i]
	if p == nil {
		return
	}
	h.pkgs[i] = nil
	if !p.alive {
		return
	}
	p.alive = false
	h.tag("closing package %d by method %d", p.img, p.how)
	p.pkg.Tagger.Close()
	h.balance()
	h.all()
}

// all checks that the open files are readable still.
func (h *handles) all() {
	h.x.Quiet(func() {
		for _, f := range h.files {
			if f != nil {
				h.firm(f)
			}
		}
	})
	h.balance()
}

func (h *handles) store(i int, f *hfile, before int) {
	h.files[i] = f
	f.cost = h.count() - before
	h.x.Hit("opened")
}

func (h *handles) step(op *Op) {
	x := h.x
	h.op = op
	simrt.SetOp(op.ID)
	defer simrt.SetOp(-1)
	slot, fslot := int(op.M&3), int(op.M>>2&7)%6
	p := h.pkgs[slot]
	if p != nil && !p.alive {
		p = nil
	}
	switch op.K {
	case "openpkg":
		h.closePkg(slot)
		i := int(op.N) % len(h.imgs)
		m := h.imgs[i]
		how := int(op.M >> 6 & 3 % 3)
		if how > 2 {
			how = 2
		}
		before := h.count()
		h.tag("opening package %d by method %d", i, how)
		pkg, err := openPkg(m.tpath, m.dpath, how)
		if err != nil {
			x.Hit("refused-package")
			h.balance()
			if m.broken || op.M>>9&1 != 0 {
				return
			}
			before = h.count()
			x.Quiet(func() { pkg, err = openPkg(m.tpath, m.dpath, how) })
			must(err)
		}
		for k, bad := range m.bad {
			if ts, ok := pkg.GetTagset(m.keys[k]); ok && bad {
				ts = wpk.CopyTagset(ts)
				if op.N&64 == 0 {
					ts = ts.Set(wpk.TIDoffset, wpk.UintTag(uint(1<<20+op.N)))
				} else {
					ts = ts.Set(wpk.TIDsize, wpk.UintTag(uint(1<<20+op.N)))
				}
				pkg.SetTagset(m.keys[k], ts)
				x.Hit("bad-entry")
			}
		}
		h.pkgs[slot] = &hpkg{img: i, how: how, pkg: pkg, cost: h.count() - before, alive: true}
		x.Hit("package")
		h.balance()
		return
	case "closepkg":
		h.closePkg(slot)
		return
	case "closefile":
		h.closeFile(fslot)
		h.all()
		return
	case "read":
		if f := h.files[fslot]; f != nil {
			h.tag("reading %q", f.key)
			if f.dir {
				f.f.(fs.ReadDirFile).ReadDir(int(op.N%5) - 1)
			} else {
				if f.data != nil && op.N&1 == 0 {
					h.firm(f)
				} else {
					n, _ := f.f.Read(make([]byte, op.N%7000))
					f.pos += n
					f.f.Stat()
				}
			}
			h.balance()
		}
		return
	case "union":
		h.union, h.uimgs = &wpk.Union{}, nil
		for _, p := range h.pkgs {
			if p != nil && p.alive {
				h.union.List = append(h.union.List, p.pkg)
				h.uimgs = append(h.uimgs, p)
			}
		}
		return
	case "closeunion":
		if h.union == nil {
			return
		}
		for _, p := range h.uimgs {
			if !p.alive {
				return // one of them is closed already
			}
		}
		h.tag("closing the union of %d", len(h.uimgs))
		h.union.Close()
		for _, p := range h.uimgs {
			p.alive = false
		}
		h.union = nil
		x.Hit("union-closed")
		h.balance()
		h.all()
		return
	case "info", "stream":
		// the stream belongs to the caller
		m := h.imgs[int(op.N)%len(h.imgs)]
		var f *simos.File
		x.Quiet(func() { f, _ = simos.Open(m.tpath) })
		h.own[f] = true
		h.tag("reading a package from the caller's stream")
		if op.K == "info" {
			wpk.GetPackageInfo(f)
		} else {
			wpk.NewPackage().OpenStream(f)
		}
		h.balance()
		delete(h.own, f)
		x.Quiet(func() { f.Close() })
		return
	case "packfile":
		var w, f *simos.File
		x.Quiet(func() {
			w, _ = simos.OpenFile("/work/new.wpk", simos.O_RDWR|simos.O_CREATE|simos.O_TRUNC, 0644)
			x.FS.Put("/work/source", content(int64(op.ID), int(op.N)))
			f, _ = simos.Open("/work/source")
		})
		h.own[f], h.own[w] = true, true
		h.tag("packing a file of the caller")
		pkg := wpk.NewPackage()
		if pkg.Begin(w, nil) == nil {
			pkg.PackFile(w, f, "source")
			pkg.Append(w, nil)
			pkg.Sync(w, nil)
		}
		h.balance()
		delete(h.own, f)
		delete(h.own, w)
		x.Quiet(func() { f.Close(); w.Close() })
		x.Hit("packfile")
		return
	}
	// calls on an open package or the union
	var v wpk.CompleteFS
	var list []*hpkg
	if op.M>>10&3 == 0 && h.union != nil {
		v, list = h.union, h.uimgs
		for _, p := range list {
			if !p.alive {
				return
			}
		}
	} else if p != nil {
		v, list = p.pkg, []*hpkg{p}
	}
	if len(list) == 0 {
		return
	}
	key := op.A
	if ks := h.imgs[list[0].img].keys; len(ks) > 0 && op.M>>13&7 < 6 {
		key = ks[int(op.N)%len(ks)]
	}
	pre := ""
	if op.M>>12&3 == 0 {
		if d := path.Dir(key); d != "." {
			sub, err := v.Sub(d)
			if err != nil {
				return
			}
			v, pre, key = sub.(wpk.CompleteFS), d+"/", path.Base(key)
		}
	}
	// the content it must have
	var data []byte
	bad := false
	for _, p := range list {
		m := h.imgs[p.img]
		for i, k := range m.keys {
			if k == pre+key && data == nil && !bad {
				data, bad = m.data[i], m.bad[i]
			}
		}
		if m.broken {
			data, bad = nil, true
			break
		}
	}
	if bad {
		data = nil
	}
	before := h.count()
	fired := len(x.Fired)
	switch op.K {
	case "open":
		h.closeFile(fslot)
		before = h.count()
		h.tag("opening %q", pre+key)
		var f fs.File
		var err error
		if p != nil && op.M>>14&3 == 0 && pre == "" && len(list) == 1 {
			ts, ok := list[0].pkg.GetTagset(key)
			if !ok {
				return
			}
			var g wpk.RFile
			if g, err = list[0].pkg.OpenTagset(ts); err == nil {
				f = g
			}
		} else {
			f, err = v.Open(key)
		}
		if err != nil {
			x.Hit("refused-file")
			x.Check(len(x.Fired) > fired || data == nil, "spurious", "opening %q fails: %v", pre+key, err)
			h.balance()
			return
		}
		_, dir := f.(fs.ReadDirFile)
		h.store(fslot, &hfile{key: pre + key, f: f, data: data, dir: dir}, before)
	case "raw":
		h.closeFile(fslot)
		before = h.count()
		h.tag("opening the raw package")
		f, err := v.Open(wpk.PackName)
		if err == nil {
			_, dir := f.(fs.ReadDirFile)
			h.store(fslot, &hfile{key: wpk.PackName, f: f, dir: dir}, before)
			x.Hit("raw")
		}
	case "readfile":
		h.tag("ReadFile(%q)", pre+key)
		b, err := v.ReadFile(key)
		if err == nil && data != nil {
			x.Check(bytes.Equal(b, data), "dead", "%s gives other bytes", h.what)
			x.Hit("readfile")
		}
	case "list":
		h.tag("listing")
		v.ReadDir(".")
		v.Glob("*/*")
		v.Stat(key)
		fs.WalkDir(v, ".", func(p string, d fs.DirEntry, err error) error {
			if err == nil {
				d.Info()
			}
			return nil
		})
		x.Hit("walk")
	}
	h.balance()
	x.State(op.K, len(list), bad, data == nil, h.count())
}

func handlesRun(x *Exec) {
	switch x.cfg("kind") {
	case 1:
		x.only = true
		x.set("handles", 1)
		toolsRun(x)
		x.released("the tools")
		x.Hit("tools")
		return
	case 3:
		x.only = true
		x.set("handles", 1)
		scriptsRun(x)
		x.Hit("build")
		return
	case 2:
		x.only = true
		x.set("handles", 1)
		newLuaRun(x).run()
		x.released("the script")
		x.Hit("script")
		return
	}
	h := &handles{x: x, own: map[*simos.File]bool{}}
	h.build()
	if len(x.P.Tasks) > 0 {
		for i := range x.P.Tasks[0] {
			h.step(&x.P.Tasks[0][i])
		}
	}
	for i := range h.files {
		h.closeFile(i)
	}
	for i := range h.pkgs {
		h.closePkg(i)
	}
	h.tag("closing everything")
	h.balance()
}

func handlesGen(r *simrt.Rng, deep bool) *Plan {
	var p *Plan
	switch k := r.N(10); {
	case k == 0 && r.N(3) == 0:
		p = scriptsGen(r, deep)
		p.Cfg["kind"] = 3
		return p
	case k == 0:
		p = toolsGen(r, deep)
		p.Cfg["kind"], p.Cfg["die"] = 1, 0
		return p
	case k < 3:
		p = props["P17"].Gen(r, deep)
		if p.Cfg == nil {
			p.Cfg = map[string]int64{}
		}
		p.Cfg["kind"] = 2
		return p
	}
	p = &Plan{Cfg: map[string]int64{"imgs": int64(r.N(3)), "split": int64(r.N(8)), "bad": int64(r.N(8) & r.N(8))}, Sched: seqSched(r)}
	if r.N(3) == 0 {
		p.Cfg["bad"] |= int64(r.N(8)) << 8
	}
	var ops []Op
	for i, n := 0, r.Range(1, 3); i < n; i++ {
		ops = append(ops, Op{K: "openpkg", M: int64(i) | int64(r.N(4))<<6, N: int64(i)})
	}
	n := r.Range(5, 25)
	if deep {
		n = r.Range(5, 60)
	}
	for ; n > 0; n-- {
		op := Op{K: simrt.Pick(r, "openpkg", "closepkg", "open", "open", "open", "open", "open", "raw", "readfile", "readfile", "read", "read", "closefile", "closefile", "list", "union", "closeunion", "info", "stream", "packfile"), M: int64(r.N(1 << 16)), N: int64(r.N(9000)), A: hNames[r.N(len(hNames))]}
		if r.N(12) == 0 {
			op.A = simrt.Pick(r, "d", "d/e", ".", "nosuch", "d2")
		}
		ops = append(ops, op)
	}
	p.Tasks = [][]Op{ops}
	if r.N(4) > 0 {
		g := &FaultGen{P: map[string]float64{}, Max: r.Range(1, 8), Short: simrt.Pick(r, 0, 0.3, 0.8)}
		for _, k := range []string{"open", "read", "seek", "stat", "close", "mmap", "write"} {
			g.P[k] = simrt.Pick(r, 0, 0, 0.05, 0.2)
		}
		if r.N(2) == 0 {
			g.P[simrt.Pick(r, "open", "read", "stat", "close", "mmap", "seek")] = 0.4
		}
		p.Gen = g
	}
	return p
}

func init() {
	register(&Prop{ID: "P19", Quick: 200000, Deep: 4000000, Real: "wpk, bulk, mmap, fsys, luawpk, cmd/pack, cmd/extract, cmd/build: all real code",
		Rule: "seven of ten executions draw 6-28 calls (open and close of 1-3 packages by any access method, of nested files, directories, the raw package, views and unions, whole-file reads, listings, streams and files of the caller) on packages of which some are damaged, most with failing open, read, stat, seek, close, mmap calls; after every call the open handles and mappings must be exactly those of the open objects, and open files must read their content; the others run the scenarios of P17, P18 and P20 and count handles; non-trivial: something was opened",
		Trivial: func(x *Exec) bool {
			return x.Probes["package"]+x.Probes["tools"]+x.Probes["script"]+x.Probes["build"] == 0
		},
		Gen:    handlesGen,
		Run:    handlesRun,
		Budget: 30000000,
	})
}
