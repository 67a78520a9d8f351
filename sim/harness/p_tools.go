package main

import (
	"encoding/binary"
	"flag"
	"fmt"
	"hash/crc32"
	"io"
	"mime"
	"net/http"
	"os"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/schwarzlichtbezirk/wpk"
	cmdextract "github.com/schwarzlichtbezirk/wpk/cmd/extract"
	cmdpack "github.com/schwarzlichtbezirk/wpk/cmd/pack"

	"wpkverif/simlog"
	"wpkverif/simos"
	"wpkverif/simrt"
)

// tools runs the command line tools inside the simulation.
type tools struct {
	x     *Exec
	op    *Op
	fired int
	args  string
	// the source trees
	roots []string
	tree  []map[string]string // per root: path -> full path
	m     *model              // what packing has to produce
	clash bool                // the trees have the same name twice
	// the package
	pkg, dat string
	made     []made // what extraction takes
}

// made is a package for extraction.
type made struct {
	pkg, dat string
	m        *model
}

var toolNames = []string{"a", "b.txt", "d", "d", "d", "Файл.md", "x y.jpg", "UP.PNG", "noext", ".hidden", "e.unk", "..x", "a.b.c", "t~", "f%41.bin", "$HOME", "%HOME%", "l.html", "z.wpk", "C.TXT", "q.zzz", strings.Repeat("n", 200)}

// run starts a tool and returns what it logged, and whether it reported
// completion.
func (t *tools) run(tool string, main func(), args ...string) (done bool, lines []string) {
	x := t.x
	t.args = tool + " " + strings.Join(args, " ")
	t.fired = len(x.Fired)
	simlog.Lines = nil
	os.Args = append([]string{tool}, args...)
	simos.Args = os.Args
	flag.CommandLine = flag.NewFlagSet(tool, flag.PanicOnError)
	flag.CommandLine.SetOutput(io.Discard)
	simrt.Reset("cmd" + tool)
	simrt.SetOp(t.op.ID)
	defer func() {
		simrt.SetOp(-1)
		lines = simlog.Lines
		for _, l := range lines {
			done = done || l == "done."
		}
		if r := recover(); r != nil {
			if _, ok := r.(simrt.Abort); ok {
				panic(r)
			}
			if _, ok := r.(simrt.ExitPanic); ok {
				x.Check(!done, "exit", "%s reports completion and exits with a failure", t.args)
				return
			}
			x.Fail("panic", "%s panics: %v", t.args, r)
		}
	}()
	main()
	if x.is("handles") {
		x.released(t.args)
	}
	return
}

// hit gives the first failed call of the last run that loses something, and
// the first one that may have had no effect.
func (t *tools) hit(soft func(call string) bool) (hard, weak string) {
	for _, f := range t.x.Fired[t.fired:] {
		switch {
		case f.Kind == "short":
		case soft(f.Call):
			if weak == "" {
				weak = f.Call
			}
		case hard == "":
			hard = f.Call
		}
	}
	return
}

// sources makes the trees.
func (t *tools) sources(ops []Op) {
	x := t.x
	n := int(x.cfg("roots"))
	for i := 0; i <= n; i++ {
		root := fmt.Sprintf("/work/src%d", i)
		x.FS.Dirs(root)
		t.roots = append(t.roots, root)
		t.tree = append(t.tree, map[string]string{})
	}
	for i := range ops {
		op := &ops[i]
		if op.K != "file" && op.K != "dir" && op.K != "link" {
			continue
		}
		k := int(op.M) % len(t.roots)
		p := t.roots[k] + "/" + op.A
		bad := x.FS.Look(p) != nil
		for d := path.Dir(p); d != "/"; d = path.Dir(d) {
			if in := x.FS.Look(d); in != nil && !in.IsDir() {
				bad = true
			}
		}
		if bad {
			continue
		}
		if op.K == "dir" {
			x.FS.Dirs(p)
			continue
		}
		if op.K == "link" { // to a file of its own, outside of the tree
			to := fmt.Sprintf("/work/linked%d-%d", k, i)
			x.FS.Put(to, content(int64(op.ID), int(op.N))).SetTimes(timeOf(op, 1), timeOf(op, 2), timeOf(op, 3))
			if op.M>>8&1 != 0 {
				to = strings.Repeat("../", strings.Count(p, "/")-1) + to[1:]
			}
			x.FS.Link(p, to)
			t.tree[k][op.A] = p
			x.Hit("symlink")
			continue
		}
		data := content(int64(op.ID)+int64(x.P.Seed>>8), int(op.N))
		switch op.M >> 8 & 7 {
		case 0:
			data = append([]byte("\x89PNG\r\n\x1a\n"), data...)
		case 1:
			data = append([]byte("<html><body>"), data...)
		case 2:
			for i := range data {
				data[i] = 'a' + data[i]%26
			}
		}
		x.FS.Put(p, data).SetTimes(timeOf(op, 1), timeOf(op, 2), timeOf(op, 3))
		t.tree[k][op.A] = p
	}
}

// expect computes what a package of the trees has to hold.
func (t *tools) expect() {
	x := t.x
	t.m, t.clash = &model{info: map[uint16]string{}}, false
	for k := range t.roots {
		var keys []string
		for key := range t.tree[k] {
			keys = append(keys, key)
		}
		sort.Slice(keys, func(i, j int) bool { // the order of a walk
			a, b := strings.Split(keys[i], "/"), strings.Split(keys[j], "/")
			for n := 0; ; n++ {
				if a[n] != b[n] {
					return a[n] < b[n]
				}
			}
		})
		for _, key := range keys {
			p := t.tree[k][key]
			data, _ := x.FS.Get(p)
			at, mt := x.FS.Look(p).Times()
			if t.m.find(key) != nil {
				t.clash = true
				continue
			}
			e := &ment{key: key, blk: &block{size: len(data), data: data}, tags: map[uint16]string{
				uint16(wpk.TIDatime): timeTag(at), uint16(wpk.TIDmtime): timeTag(mt),
			}}
			if x.is("mime") {
				ct := mime.TypeByExtension(path.Ext(key))
				if ct == "" {
					ct = http.DetectContentType(data[:min(512, len(data))])
				}
				e.tags[uint16(wpk.TIDmime)] = ct
			}
			if x.is("link") {
				e.tags[uint16(wpk.TIDlink)] = p
			}
			t.m.add(e)
		}
	}
}

// pack runs the packing tool.
func (t *tools) pack(num int) (done bool) {
	x := t.x
	t.expect()
	dir := "/work/pk"
	if x.is("self") {
		dir = t.roots[0]
		if d := x.FS.Look(dir + "/d"); d != nil && d.IsDir() && x.cfg("style")&512 != 0 {
			dir += "/d"
		}
	}
	dst := dir + "/out" + strings.Repeat("_", num) + []string{".wpk", "", ".a.b"}[x.cfg("ext")%3]
	t.pkg, t.dat = dst, dst
	var args []string
	flagOf := func(on bool, s string) {
		if on {
			args = append(args, s)
		}
	}
	flagOf(x.is("split"), "-split")
	flagOf(x.is("mime"), "-mime")
	flagOf(x.is("link"), "-link=true")
	flagOf(x.is("nolog"), "-log=false")
	if x.is("split") {
		base := strings.TrimSuffix(dst, path.Ext(dst))
		t.pkg, t.dat = base+".wpt", base+".wpf"
	}
	if x.is("over") && !x.is("die") { // there is a bigger file of another making
		for _, p := range []string{t.pkg, t.dat} {
			if x.FS.Look(p) == nil {
				x.FS.Put(p, content(int64(num)+77, 70000))
			}
		}
	}
	src := ""
	for i, r := range t.roots {
		switch (x.cfg("style") >> (2 * i)) & 3 {
		case 1:
			r += "/"
		case 2:
			r = strings.Replace(r, "/work", "$HOME", 1)
		case 3:
			r = strings.Replace(r, "/work/", "./", 1)
		}
		src += r
		if i < len(t.roots)-1 || x.cfg("style")&64 != 0 {
			src += ";"
		}
	}
	for i := range t.roots {
		if (x.cfg("style")>>(2*i))&3 == 3 && x.is("link") { // a relative source gives a relative link
			for _, e := range t.m.ents {
				if p := t.tree[i][e.key]; p != "" && e.tags[uint16(wpk.TIDlink)] == p {
					e.tags[uint16(wpk.TIDlink)] = "." + strings.TrimPrefix(p, "/work")
				}
			}
		}
	}
	if x.cfg("style")&128 != 0 {
		dst = strings.Replace(dst, "/work", "%HOME%", 1)
	}
	args = append(args, "-src", src, "-dst", dst)
	miss := false
	if x.cfg("style")&0xf00 == 0x100 {
		miss = true
		args[len(args)-3] = src + ";/work/nosuchdir"
	}
	done, lines := t.run("pack", cmdpack.SimMain, args...)
	h, weak := t.hit(func(call string) bool { // closing a file that was only read loses nothing
		return strings.HasPrefix(call, "close ") && (x.is("self") || !strings.Contains(call, t.pkg) && !strings.Contains(call, t.dat)) ||
			strings.HasPrefix(call, "truncate ") || strings.HasPrefix(call, "rename ") // what matters is the result
	})
	switch {
	case done && h != "":
		x.Fail("swallowed", "%s reports completion although %s failed", t.args, h)
	case done && t.clash:
		x.Fail("accepted", "%s reports completion although one name comes from two folders", t.args)
	case done && miss:
		x.Fail("accepted", "%s reports completion although a folder is missing", t.args)
	case !done && h == "" && weak == "" && !t.clash && !miss:
		x.Fail("spurious", "%s does not report completion: %q", t.args, lines)
	}
	if !done {
		x.Hit("pack-failed")
		return
	}
	x.Hit("packed")
	t.made = append(t.made, made{t.pkg, t.dat, t.m})
	x.Quiet(func() { t.checkPackage() })
	return
}

// checkPackage compares the package with the trees.
func (t *tools) checkPackage() {
	x := t.x
	pkg, err := openPkg(t.pkg, t.dat, t.op.ID)
	if err != nil {
		x.Fail("pack-open", "after %s the package does not open: %v", t.args, err)
	}
	defer pkg.Close()
	if b, _ := x.FS.Get(t.pkg); len(b) >= wpk.HeaderSize {
		num := func(i int) int { return int(binary.LittleEndian.Uint64(b[24+8*i:])) }
		end, data := num(1)+num(2), num(3)+num(4)
		if t.pkg == t.dat {
			end = max(end, data)
		} else if b, _ := x.FS.Get(t.dat); len(b) > data {
			x.Fail("rest", "after %s the data file has %d bytes, %d of them are packed", t.args, len(b), data)
		}
		if len(b) > end {
			x.Fail("rest", "after %s the package has %d bytes, it ends at %d", t.args, len(b), end)
		}
	}
	n := 0
	pkg.Enum(func(k string, ts wpk.TagsetRaw) bool {
		e := t.m.find(k)
		if e == nil {
			x.Fail("pack-table", "after %s the package has %q, which is in no folder", t.args, k)
		}
		n++
		got, _, err := parseTags(ts)
		if err != nil {
			x.Fail("pack-tags", "after %s entry %q: %v", t.args, k, err)
		}
		for tid, v := range e.tags {
			if got[tid] != v {
				x.Fail("pack-tags", "after %s tag %d of %q is %s, expected %s", t.args, tid, k, short(got[tid]), short(v))
			}
		}
		return true
	})
	x.Check(n == len(t.m.ents), "pack-table", "after %s the package has %d files, the folders have %d", t.args, n, len(t.m.ents))
	for _, e := range t.m.ents {
		b, err := pkg.ReadFile(e.key)
		if err != nil || string(b) != string(e.blk.data) {
			x.Fail("pack-content", "after %s file %q reads as %d bytes (%v), the source has %d, first difference at %d", t.args, e.key, len(b), err, e.blk.size, firstDiff(b, e.blk.data))
		}
	}
}

// hostile makes a package with names that lead out of the destination.
func (t *tools) hostile(ops []Op) {
	x := t.x
	t.pkg, t.dat = "/work/pk/evil.wpk", "/work/pk/evil.wpk"
	if x.is("split") {
		t.pkg, t.dat = "/work/pk/evil.wpt", "/work/pk/evil.wpf"
	}
	t.m = &model{info: map[uint16]string{}}
	x.Quiet(func() {
		flags := simos.O_RDWR | simos.O_CREATE | simos.O_TRUNC
		wpt, err := simos.OpenFile(t.pkg, flags, 0644)
		must(err)
		defer wpt.Close()
		var w, wpf io.WriteSeeker = wpt, nil
		if x.is("split") {
			f, err := simos.OpenFile(t.dat, flags, 0644)
			must(err)
			defer f.Close()
			w, wpf = f, f
		}
		pkg := wpk.NewPackage()
		must(pkg.Begin(wpt, wpf))
		for i := range ops {
			op := &ops[i]
			if op.K != "evil" && op.K != "file" || t.m.find(op.A) != nil {
				continue
			}
			data := content(int64(op.ID), int(op.N))
			key := fmt.Sprintf("tmp%d", i)
			ts, err := pkg.PackData(w, strings.NewReader(string(data)), key)
			must(err)
			pkg.DelTagset(key)
			e := &ment{key: op.A, tags: map[uint16]string{}, blk: &block{size: len(data), data: data}}
			ts = wpk.CopyTagset(ts).Set(wpk.TIDpath, wpk.StrTag(op.A))
			for j, tid := range []wpk.TID{wpk.TIDatime, wpk.TIDmtime} {
				ns := timeOf(op, int64(j))
				switch op.M >> (4 + 2*j) & 3 {
				case 0, 1:
					ts = ts.Put(tid, wpk.TimeTag(time.Unix(ns/1e9, ns%1e9)))
				case 2:
					ns -= ns % 1e6
					ts = ts.Put(tid, wpk.UnixmsTag(time.Unix(ns/1e9, ns%1e9)))
				default:
					continue
				}
				e.tags[uint16(tid)] = timeTag(ns)
			}
			pkg.SetupTagset(ts)
			t.m.add(e)
		}
		must(pkg.Sync(wpt, wpf))
	})
	t.made = []made{{t.pkg, t.dat, t.m}}
}

// inside resolves a name below the destination; false if it leads out.
func inside(dst, key string) (string, bool) {
	p := path.Join(dst, key)
	return p, strings.HasPrefix(p, dst+"/")
}

// extract runs the extraction tool.
func (t *tools) extract(evil bool) (done bool) {
	x := t.x
	dst := "/work/out"
	var args []string
	if x.cfg("dst")%4 == 1 {
		dst = "/work/out/deep/er"
	}
	if x.is("onto") && len(t.made) > 0 { // where the packages are
		dst = path.Dir(t.made[0].pkg)
	}
	md := x.is("md")
	if md {
		args = append(args, "-md")
	}
	if x.is("ft") {
		args = append(args, "-ft")
	}
	if x.is("nolog") {
		args = append(args, "-sl=false")
	}
	mode := []string{"", "bulk", "mmap", "fsys"}[x.cfg("pm")%4]
	if mode != "" {
		args = append(args, "-pm", mode)
	}
	form := dst
	switch x.cfg("dst") / 4 % 4 {
	case 1:
		form += "/"
	case 2:
		form = strings.Replace(dst, "/work", "${HOME}", 1)
	case 3:
		form = strings.TrimPrefix(dst, "/work/")
	}
	src := ""
	m := &model{} // a later package replaces files of the previous ones
	for i, d := range t.made {
		if i > 0 {
			src += ";"
		}
		src += d.pkg
		for _, e := range d.m.ents {
			if old := m.find(e.key); old != nil {
				*old = *e
			} else {
				c := *e
				m.add(&c)
			}
		}
	}
	if len(t.made) > 1 {
		x.Hit("several-packages")
	}
	if x.cfg("dst")/16%2 == 1 {
		src = strings.Replace(src, "/work", "$HOME", 1) + ";"
	}
	args = append(args, "-src", src, "-dst", form)
	nodst := x.FS.Look(dst) == nil && !md
	type state struct {
		dir  bool
		data string
		a, m int64
	}
	all := func() map[string]state {
		r := map[string]state{}
		x.FS.Walk("/", func(p string, i *simos.Inode) {
			s := state{dir: i.IsDir()}
			if !s.dir {
				b, _ := x.FS.Get(p)
				s.data = string(b)
				s.a, s.m = i.Times()
			}
			r[p] = s
		})
		return r
	}
	before := all()
	start := simrt.Now().UnixNano()
	done, lines := t.run("extract", cmdextract.SimMain, args...)
	after := all()
	in := func(p string) bool { return p == dst || strings.HasPrefix(p, dst+"/") }
	ours := map[string]bool{} // what extraction may touch
	for _, e := range m.ents {
		if p, ok := inside(dst, e.key); ok {
			for ; p != dst; p = path.Dir(p) {
				ours[p] = true
			}
		}
	}
	for p := dst; p != "/"; p = path.Dir(p) {
		ours[p] = true
	}
	var paths []string
	for p := range after {
		paths = append(paths, p)
	}
	for p := range before {
		if _, ok := after[p]; !ok {
			paths = append(paths, p)
		}
	}
	sort.Strings(paths)
	for _, p := range paths {
		b, was := before[p]
		a, is := after[p]
		if was == is && a.dir == b.dir && a.data == b.data && (a.m == b.m || a.dir) {
			continue
		}
		if !in(p) && !(a.dir && strings.HasPrefix(dst, p+"/")) {
			x.Fail("escaped", "%s changes %s, which is outside of the destination", t.args, p)
		}
		if !ours[p] && !(evil && a.dir) {
			x.Fail("stray", "%s changes %s, which is no file of the package", t.args, p)
		}
	}
	h, weak := t.hit(func(call string) bool {
		pkg := false
		for _, d := range t.made {
			pkg = pkg || strings.Contains(call, d.pkg) || strings.Contains(call, d.dat)
		}
		switch {
		case strings.HasPrefix(call, "close "):
			return pkg // was only read
		case strings.HasPrefix(call, "truncate "), strings.HasPrefix(call, "rename "):
			return true // what matters is the result
		case strings.HasPrefix(call, "stat "), strings.HasPrefix(call, "mkdir "):
			return true // making a folder and reading a whole file go on without
		}
		return false
	})
	own := "" // a package, which a file of a package replaces
	for _, e := range m.ents {
		p, _ := inside(dst, e.key)
		for _, d := range t.made {
			if p == d.pkg || p == d.dat {
				own = p
			}
		}
	}
	blocked := false // a name is needed as a file and as a directory
	for _, e := range m.ents {
		p, ok := inside(dst, e.key)
		if !ok {
			continue
		}
		if before[p].dir {
			blocked = true
		}
		for d := path.Dir(p); d != dst && d != "/"; d = path.Dir(d) {
			if s, ok := before[d]; ok && !s.dir {
				blocked = true
			}
			for _, e2 := range m.ents {
				if p2, _ := inside(dst, e2.key); p2 == d {
					blocked = true
				}
			}
		}
	}
	switch {
	case done && h != "":
		x.Fail("swallowed", "%s reports completion although %s failed", t.args, h)
	case done && (blocked || nodst):
		x.Fail("accepted", "%s reports completion although it can not be complete", t.args)
	case !done && h == "" && !evil && !blocked && !nodst && weak == "" && own == "":
		x.Fail("spurious", "%s does not report completion: %q", t.args, lines)
	}
	if own != "" {
		x.Hit("extract-onto-package")
	}
	if !done {
		if b := before[own]; own != "" && after[own].data != b.data {
			x.Fail("destroyed", "%s does not report completion, package file %s had %d bytes and now %d", t.args, own, len(b.data), len(after[own].data))
		}
		x.Hit("extract-failed")
		return
	}
	x.Hit("extracted")
	if mode != "" {
		x.Hit("extracted-" + mode)
	}
	if evil {
		x.Hit("hostile-completed")
		return
	}
	for _, e := range m.ents {
		p, _ := inside(dst, e.key)
		s, ok := after[p]
		if !ok || s.dir {
			x.Fail("lost", "%s reports completion, but there is no file %s", t.args, p)
		}
		if s.data != string(e.blk.data) {
			x.Fail("content", "after %s file %s has %d bytes, expected %d, first difference at %d", t.args, p, len(s.data), e.blk.size, firstDiff([]byte(s.data), e.blk.data))
		}
		if x.is("ft") {
			at, aok := e.tags[uint16(wpk.TIDatime)]
			mt, mok := e.tags[uint16(wpk.TIDmtime)]
			if aok && mok && (timeTag(s.a) != at || timeTag(s.m) != mt) {
				x.Fail("times", "after %s the times of %s are not the original ones", t.args, p)
			}
			if was := before[p]; timeTag(s.a) != at && s.a < start && s.a != was.a || timeTag(s.m) != mt && s.m < start && s.m != was.m { // what has no original time has the time of extraction
				x.Fail("times", "after %s the times of %s are neither the original ones nor the time of extraction", t.args, p)
			}
			if !aok || !mok {
				x.Hit("incomplete-times")
			}
		}
	}
	return
}

// odd runs a tool with arguments that can not be right: it does not report
// completion, and leaves all as it is.
func (t *tools) odd(n int) {
	x := t.x
	x.FS.Dirs("/work/odd/d")
	x.FS.Put("/work/odd/f", []byte("this is a file and no package, it is longer than the header of a package"))
	x.FS.Put("/work/odd/d/a", []byte("a"))
	state := func() string {
		var sb strings.Builder
		x.FS.Walk("/", func(p string, i *simos.Inode) {
			b, _ := x.FS.Get(p)
			if !i.IsDir() {
				fmt.Fprintf(&sb, "%s %d %x\n", p, len(b), crc32.ChecksumIEEE(b))
			}
		})
		return sb.String()
	}
	x.Quiet(func() {
		f, err := simos.Create("/work/odd/p.wpk")
		must(err)
		pkg := wpk.NewPackage()
		must(pkg.Begin(f, nil))
		_, err = pkg.PackData(f, strings.NewReader("odd"), "odd.txt")
		must(err)
		must(pkg.Sync(f, nil))
		f.Close()
	})
	before := state()
	var done bool
	switch n {
	case 0:
		done, _ = t.run("pack", cmdpack.SimMain, "-src", "/work/odd/f", "-dst", "/work/odd/o.wpk")
	case 1:
		done, _ = t.run("pack", cmdpack.SimMain, "-dst", "/work/odd/o.wpk")
	case 2:
		done, _ = t.run("pack", cmdpack.SimMain, "-src", ";;", "-dst", "/work/odd/o.wpk")
	case 3:
		done, _ = t.run("pack", cmdpack.SimMain, "-src", "/work/odd/d")
	case 4:
		done, _ = t.run("pack", cmdpack.SimMain, "-src", "/work/odd/d", "-dst", "/work/none/o.wpk")
	case 5:
		done, _ = t.run("pack", cmdpack.SimMain, "-split", "-src", "/work/odd/d", "-dst", "/work/odd/f/o.wpk")
	case 6:
		done, _ = t.run("pack", cmdpack.SimMain, "-src", "/work/odd/d;/work/odd/f", "-dst", "/work/odd/o.wpk")
	case 7:
		done, _ = t.run("extract", cmdextract.SimMain, "-src", "/work/odd/d", "-dst", "/work/odd")
	case 8:
		done, _ = t.run("extract", cmdextract.SimMain, "-dst", "/work/odd")
	case 9:
		done, _ = t.run("extract", cmdextract.SimMain, "-src", "/work/odd/p.wpk;/work/odd/none.wpk", "-dst", "/work/odd")
	case 10:
		done, _ = t.run("extract", cmdextract.SimMain, "-src", "/work/odd/f", "-dst", "/work/odd")
	case 11:
		done, _ = t.run("extract", cmdextract.SimMain, "-md", "-src", "/work/odd/p.wpk", "-dst", "/work/odd/f")
	case 12:
		done, _ = t.run("extract", cmdextract.SimMain, "-pm", "zip", "-src", "/work/odd/p.wpk", "-dst", "/work/odd")
	default:
		done, _ = t.run("extract", cmdextract.SimMain, "-src", "/work/odd/p.wpk")
	}
	if done {
		x.Fail("accepted", "%s reports completion", t.args)
	}
	if after := state(); after != before {
		x.Fail("stray", "%s changes files:\n%s\nbefore:\n%s", t.args, after, before)
	}
	x.Hit("odd-arguments")
}

func toolsRun(x *Exec) {
	t := &tools{x: x}
	x.FS.Dirs("/work/pk")
	var ops []Op
	if len(x.P.Tasks) > 0 {
		ops = x.P.Tasks[0]
	}
	x.FS.Put("/work/precious", []byte("precious"))
	x.FS.Put("/work/outside/x", []byte("other"))
	if x.cfg("dst")%4 != 2 {
		x.FS.Dirs("/work/out")
		if x.cfg("dst")%4 == 1 && x.cfg("dst")%5 > 0 {
			x.FS.Dirs("/work/out/deep/er")
		}
		for i := range ops {
			op := &ops[i]
			if op.K == "old" && x.FS.Look(path.Dir("/work/out/"+op.A)) != nil && x.FS.Look(path.Dir("/work/out/"+op.A)).IsDir() && x.FS.Look("/work/out/"+op.A) == nil {
				x.FS.Put("/work/out/"+op.A, content(int64(op.ID), int(op.N)))
			}
		}
	}
	evil := x.is("evil")
	if x.cfg("odd") > 0 {
		t.op = &Op{ID: 7030, K: "odd"}
		t.odd(int(x.cfg("odd")) - 1)
	}
	if evil || x.is("lib") {
		t.op = &Op{ID: 7000, K: "hostile"}
		t.hostile(ops)
	} else {
		t.sources(ops)
		roots, tree := t.roots, t.tree
		for num := range roots {
			if x.is("sep") {
				t.roots, t.tree = roots[num:num+1], tree[num:num+1]
			} else if num > 0 {
				break
			}
			t.op = &Op{ID: 7010 + num, K: "pack"}
			if x.is("die") {
				t.packDies(num)
			}
			if !t.pack(num) {
				x.quiet++
				x.FS.Limited = false
				t.op = &Op{ID: 7020 + num, K: "pack"}
				ok := t.pack(num)
				x.quiet--
				if !ok {
					return
				}
				x.Hit("repacked")
			}
		}
		x.State("pack", len(t.m.ents), len(t.roots), x.is("split"), x.is("mime"), x.is("link"))
	}
	t.op = &Op{ID: 7003, K: "extract"}
	if !t.extract(evil) {
		x.quiet++
		x.FS.Limited = false
		t.op = &Op{ID: 7004, K: "extract"}
		if t.extract(evil) {
			x.Hit("reextracted")
		}
		x.quiet--
	}
	x.State("extract", evil, len(t.m.ents), x.cfg("dst"), x.cfg("pm"))
}

// packDies packs, judges all moments at which the process could have died, and
// goes on after one of these deaths.
func (t *tools) packDies(num int) {
	x := t.x
	live := x.FS
	shadow := live.Clone()
	live.Journal, live.Record = nil, true
	n := len(t.made)
	done := t.pack(num)
	if done {
		t.made = t.made[:n]
	}
	live.Record = false
	j := live.Journal
	r := simrt.NewRng(simrt.Mix(x.P.Seed, uint64(num), 78))
	inos := map[int64]*simos.Inode{}
	var next *simos.FS
	seen := 0
	x.Quiet(func() {
		judge := func(i, keep int) {
			simos.Cur, x.FS = shadow, shadow
			x.subs++
			live.Fired["process-death"]++
			if pkg, err := openPkg(t.pkg, t.dat, i); err == nil {
				num := pkg.TagsetNum()
				pkg.Close()
				if num > 0 || !x.is("split") { // a split package opens as empty one until it is written
					x.Hit("death-complete")
					t.checkPackage()
				}
			} else if done && i == len(j) {
				x.Fail("pack-open", "after %s the package does not open: %v", t.args, err)
			}
			simos.Cur, x.FS = live, live
			if seen++; r.N(seen) == 0 {
				next = shadow.Clone()
			}
		}
		density := 1.0
		if len(j) > 60 {
			density = 60 / float64(len(j))
		}
		for i := 0; ; i++ {
			if i == len(j) || i > len(j)-12 || r.P(density) {
				judge(i, -1)
			}
			if i == len(j) {
				break
			}
			rec := &j[i]
			if rec.Kind == "write" && len(rec.Data) > 1 && (i > len(j)-12 || r.P(density)) {
				k, n := int(512-rec.Off%512), 0
				for ; k < len(rec.Data) && n < 4; n++ {
					shadow.Apply(rec, inos, k)
					x.Hit("torn-write")
					judge(i, k)
					k += 512 * (1 + r.N(4))
				}
			}
			shadow.Apply(rec, inos, -1)
		}
	})
	next.Fired, next.Kinds, next.NIO, next.Inject = live.Fired, live.Kinds, live.NIO, live.Inject
	next.Limited, next.Space, next.OnFull = live.Limited, live.Space, live.OnFull
	simos.Cur, x.FS = next, next
	x.Hit("death-pack")
}

func genName(r *simrt.Rng) string {
	s := toolNames[r.N(len(toolNames))]
	for r.N(3) == 0 {
		s += "/" + toolNames[r.N(len(toolNames))]
	}
	return s
}

func toolsGen(r *simrt.Rng, deep bool) *Plan {
	p := &Plan{Cfg: map[string]int64{}, Sched: seqSched(r)}
	for _, k := range []string{"split", "mime", "link", "ft", "md", "nolog"} {
		p.Cfg[k] = int64(r.N(2))
	}
	p.Cfg["pm"], p.Cfg["dst"], p.Cfg["ext"], p.Cfg["style"] = int64(r.N(4)), int64(r.N(64)), int64(r.N(3)), int64(r.N(1<<12))
	if p.Cfg["dst"]%4 == 2 && r.N(4) > 0 {
		p.Cfg["md"] = 1
	}
	p.Cfg["odd"] = int64(simrt.Pick(r, 0, 0, 0, 0, 0, 0, r.Range(1, 14)))
	p.Cfg["self"], p.Cfg["over"] = int64(r.N(10)/9), int64(r.N(4)/3)
	p.Cfg["roots"] = int64(simrt.Pick(r, 0, 0, 0, 1, 2))
	p.Cfg["die"] = int64(r.N(8) / 7)
	if p.Cfg["roots"] > 0 && r.N(2) == 0 {
		p.Cfg["sep"] = 1
	}
	if r.N(6) == 0 {
		p.Cfg["evil"] = 1
	} else if r.N(8) == 0 {
		p.Cfg["lib"] = 1
	}
	n := r.Range(1, 14)
	if deep && r.N(4) == 0 {
		n = r.Range(10, 50)
	}
	if r.N(8) == 0 {
		p.Cfg["onto"] = 1
	}
	var ops []Op
	unique := r.N(4) > 0 // no name in two roots
	seen := map[string]bool{}
	for len(ops) < n {
		op := Op{K: "file", A: genName(r), N: pickSize(r), M: int64(r.N(1 << 12))}
		switch r.N(24) {
		case 0, 1:
			op.K = "dir"
		case 2:
			if p.Cfg["self"] == 0 { // writing through a link of the user is no escape of the package
				op.K = "link"
			}
		}
		if p.Cfg["onto"] != 0 && p.Cfg["self"] == 0 && r.N(4) == 0 {
			op.A = simrt.Pick(r, "out", "out_", "evil") + simrt.Pick(r, ".wpk", ".wpt", ".wpf", "", ".a.b")
		}
		if unique {
			top := strings.SplitN(op.A, "/", 2)[0]
			if top == "d" && r.N(2) == 0 && p.Cfg["roots"] == 0 {
				top = op.A
			}
			if seen[op.A] || p.Cfg["roots"] > 0 && top != "d" && seen[top] {
				n--
				continue
			}
			seen[op.A], seen[top] = true, true
		}
		if p.Cfg["evil"] != 0 && r.N(2) == 0 {
			op.K = "evil"
			op.A = simrt.Pick(r, "../precious", "../evil", "d/../../precious", "../outside/x", "/work/precious", "..", "../out2/x", "/etc/evil", "d/../../../etc/x", "../../evil", ".", "a/..", "a//b", "./c", "d/../e", "../out", "../out/x", "../outside", "a/../../out-/z", "..\\precious", "//work/precious", "../../../../tmp/evil", "a/./../../precious")
		}
		ops = append(ops, op)
	}
	for r.N(3) == 0 {
		op := Op{K: "old", A: toolNames[r.N(len(toolNames))], N: int64(r.N(9000))}
		if len(ops) > 0 && r.N(2) == 0 {
			op.A = ops[r.N(len(ops))].A
		}
		ops = append(ops, op)
	}
	p.Tasks = [][]Op{ops}
	if r.N(3) > 0 {
		g := &FaultGen{P: map[string]float64{}, Max: r.Range(1, 4), Short: simrt.Pick(r, 0, 0.3, 0.8)}
		for _, k := range []string{"open", "create", "read", "write", "seek", "stat", "close", "readdir", "mkdir", "chtimes", "mmap", "truncate", "rename"} {
			g.P[k] = simrt.Pick(r, 0, 0, 0.02, 0.1)
		}
		if r.N(2) == 0 { // one kind often
			g.P[simrt.Pick(r, "open", "create", "read", "write", "close", "readdir", "chtimes")] = 0.3
		}
		p.Gen = g
		pickSpace(r, p)
	}
	return p
}

func init() {
	register(&Prop{ID: "P18", Quick: 240000, Deep: 2400000, Real: "cmd/pack, cmd/extract, wpk, bulk, mmap, fsys, util: all real code started through their main functions",
		Rule:    "one seeded folder tree (one to three source folders, up to 14 files) is packed by the packing tool and extracted by the extraction tool with random options, two of three with faults in open, create, read, write, seek, stat, close, readdir, mkdir, chtimes, truncate, rename and mmap calls or a small disk; what fails is repeated without faults; one of six extracts a hostile package; the file system is compared with the model after every run of a tool; non-trivial: a package with files was extracted",
		Trivial: func(x *Exec) bool { return x.Probes["extracted"]+x.Probes["extract-failed"] == 0 },
		Gen:     toolsGen,
		Run:     toolsRun,
	})
}
