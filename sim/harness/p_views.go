package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"

	"github.com/schwarzlichtbezirk/wpk"

	"wpkverif/simrt"
)

// --- the reference of a file system view ---

// rfile is a file that a view must show.
type rfile struct {
	name string
	e    *ment
}

type rview []rfile

func (v rview) find(name string) *ment {
	for _, f := range v {
		if f.name == name {
			return f.e
		}
	}
	return nil
}

func (v rview) isDir(dir string) bool {
	if dir == "." {
		return len(v) > 0
	}
	for _, f := range v {
		if strings.HasPrefix(f.name, dir+"/") {
			return true
		}
	}
	return false
}

func (v rview) sub(dir string) (s rview) {
	if dir == "." {
		return v
	}
	for _, f := range v {
		if strings.HasPrefix(f.name, dir+"/") {
			s = append(s, rfile{f.name[len(dir)+1:], f.e})
		}
	}
	return
}

// list gives the expected directory listing, as "name" and "name/".
func (v rview) list(dir string) (l []string) {
	seen := map[string]bool{}
	for _, f := range v.sub(dir) {
		n := f.name
		if i := strings.IndexByte(n, '/'); i >= 0 {
			n = n[:i+1]
		}
		if !seen[n] {
			seen[n] = true
			l = append(l, n)
		}
	}
	sort.Strings(l)
	return
}

func (v rview) names() (l []string) {
	for _, f := range v {
		l = append(l, f.name)
	}
	sort.Strings(l)
	return
}

func (v rview) dirs() (l []string) {
	seen := map[string]bool{".": true}
	l = append(l, ".")
	for _, f := range v {
		for d := path.Dir(f.name); !seen[d]; d = path.Dir(d) {
			seen[d] = true
			l = append(l, d)
		}
	}
	sort.Strings(l)
	return
}

// refOf is the reference view of a package through a workspace.
func refOf(m *model, ws string) (v rview) {
	for _, e := range m.ents {
		v = append(v, rfile{e.key, e})
	}
	return v.sub(ws)
}

// viewCheck compares a view with its reference.
type viewCheck struct {
	x       *Exec
	v       wpk.CompleteFS
	ref     rview
	what    string
	rng     *simrt.Rng
	faulted func() bool // faults may have hit the call
	slash   bool
	sub     bool // v is a view of some directory
}

func (c *viewCheck) fail(class, format string, a ...any) {
	c.x.Fail(class, "%s: %s\nfiles: %q", c.what, fmt.Sprintf(format, a...), c.ref.names())
}

// spell writes a name the way another system would.
func (c *viewCheck) spell(n string) string {
	if c.slash && c.rng.N(4) == 0 {
		return strings.ReplaceAll(n, "/", "\\")
	}
	return n
}

var aspects = []string{"keys", "stat", "open", "readfile", "readdir", "chunks", "sub", "glob", "walk"}

func (c *viewCheck) run(list []string, depth int) {
	if n := len(c.ref); n > 30 {
		simrt.Allow(int64(n * n * 50 * len(list)))
	}
	for _, a := range list {
		switch a {
		case "keys":
			c.keys()
		case "stat":
			c.each(c.stat)
		case "open":
			c.each(c.open)
		case "readfile":
			c.each(c.readfile)
		case "readdir":
			c.each(c.readdir)
		case "chunks":
			for _, d := range c.some(c.ref.dirs()) {
				c.chunks(d)
			}
		case "sub":
			c.subs(depth)
		case "glob":
			c.glob()
		case "walk":
			c.walk()
		}
		if c.x.V != nil {
			return
		}
	}
}

// some draws from a large list.
func (c *viewCheck) some(l []string) []string {
	if len(l) <= 45 {
		return l
	}
	s := []string{l[0], l[len(l)-1]}
	for len(s) < 14 {
		s = append(s, l[c.rng.N(len(l))])
	}
	return s
}

func (c *viewCheck) each(f func(string)) {
	seen := map[string]bool{}
	one := func(n string) {
		if !seen[n] && c.x.V == nil {
			seen[n] = true
			f(n)
		}
	}
	for _, n := range c.some(c.ref.names()) {
		one(n)
	}
	for _, d := range c.some(c.ref.dirs()) {
		one(d)
	}
	for _, n := range []string{"zz", "d", "d/zz", "d/e", "dd", "a/zz", "e", "b.tx", "d/b.txt/x"} {
		one(n)
	}
	if c.sub {
		for _, n := range []string{"@pack", "@pack/0", "../a", "../b.txt", "../@pack", "./../a"} {
			one(n)
		}
	}
}

func (c *viewCheck) keys() {
	var got []string
	switch v := c.v.(type) {
	case *wpk.Package:
		v.Enum(func(k string, ts wpk.TagsetRaw) bool {
			got = append(got, strings.Clone(k))
			if e := c.ref.find(k); e != nil {
				if err := sameTags(ts, e); err != nil {
					c.fail("keys", "enumeration gives %q other tags: %v", k, err)
				}
			}
			return true
		})
		for _, k := range got {
			full := v.FullPath(k)
			if s := v.TrimPath(full); s != k {
				c.fail("keys", "TrimPath(FullPath(%q)) is %q", k, s)
			}
			if v.Workspace != "." && v.Workspace != "" {
				if s := v.TrimPath("x" + full); s != "" {
					c.fail("keys", "TrimPath(%q) is %q in %q", "x"+full, s, v.Workspace)
				}
				if s := v.TrimPath(v.Workspace + "x/y"); s != "" {
					c.fail("keys", "TrimPath(%q) is %q in %q", v.Workspace+"x/y", s, v.Workspace)
				}
			}
		}
	case *wpk.Union:
		got = v.AllKeys()
	}
	sort.Strings(got)
	if fmt.Sprint(got) != fmt.Sprint(c.ref.names()) {
		c.fail("keys", "enumeration gives %q", got)
	}
}

func (c *viewCheck) file(what, n string, fi fs.FileInfo, e *ment) {
	if fi.IsDir() || fi.Mode().IsDir() || fi.Size() != int64(e.blk.size) || fi.Name() != path.Base(n) {
		c.fail(what, "%s(%q) gives name %q, size %d, dir %v; the file has %d bytes", what, n, fi.Name(), fi.Size(), fi.IsDir(), e.blk.size)
	}
	ts, ok := fi.Sys().(wpk.TagsetRaw)
	if !ok {
		c.fail(what, "%s(%q) gives no tagset", what, n)
	}
	if err := sameTags(ts, e); err != nil {
		c.fail(what, "%s(%q) gives the tags of something else: %v", what, n, err)
	}
}

func (c *viewCheck) stat(n string) {
	fi, err := c.v.Stat(c.spell(n))
	e := c.ref.find(n)
	switch {
	case e != nil:
		if err != nil {
			c.fail("stat", "Stat(%q) of a file fails: %v", n, err)
			return
		}
		c.file("stat", n, fi, e)
	case c.ref.isDir(n):
		if err != nil {
			c.fail("stat", "Stat(%q) of a directory fails: %v", n, err)
			return
		}
		if !fi.IsDir() || !fi.Mode().IsDir() || n != "." && fi.Name() != path.Base(n) {
			c.fail("stat", "Stat(%q) of a directory gives name %q, dir %v, mode %v", n, fi.Name(), fi.IsDir(), fi.Mode())
		}
	case n == ".": // the root of nothing
	default:
		if !errors.Is(err, fs.ErrNotExist) {
			c.fail("stat", "Stat(%q) of nothing gives %v", n, err)
		}
	}
}

func (c *viewCheck) open(n string) {
	e := c.ref.find(n)
	f, err := c.v.Open(c.spell(n))
	if err != nil {
		switch {
		case c.faulted() && e != nil:
		case e != nil || c.ref.isDir(n):
			c.fail("open", "Open(%q) fails: %v", n, err)
		case n != "." && !errors.Is(err, fs.ErrNotExist):
			c.fail("open", "Open(%q) of nothing gives %v", n, err)
		}
		return
	}
	defer func() {
		if err := f.Close(); err != nil && !c.faulted() {
			c.fail("open", "closing %q fails: %v", n, err)
		}
	}()
	switch {
	case e != nil:
		if fi, err := f.Stat(); err != nil {
			c.fail("open", "Stat of the open file %q fails: %v", n, err)
		} else {
			c.file("open", n, fi, e)
		}
		got, err := io.ReadAll(f)
		if err != nil {
			if !c.faulted() {
				c.fail("open", "reading %q fails: %v", n, err)
			}
			return
		}
		if !bytes.Equal(got, e.blk.bytes()) {
			c.fail("content", "Open(%q) delivers %d other bytes", n, len(got))
		}
	case c.ref.isDir(n):
		fi, err := f.Stat()
		if err != nil || !fi.IsDir() {
			c.fail("open", "Open(%q) of a directory gives no directory, %v", n, err)
		}
		if k, err := f.Read(make([]byte, 10)); k != 0 || err == nil {
			c.fail("open", "a directory %q delivers bytes", n)
		}
		if _, ok := f.(fs.ReadDirFile); !ok {
			c.fail("open", "Open(%q) gives no readable directory", n)
		}
	case n == ".":
	default:
		c.fail("open", "Open(%q) succeeds, there is nothing", n)
	}
}

func (c *viewCheck) readfile(n string) {
	got, err := c.v.ReadFile(c.spell(n))
	e := c.ref.find(n)
	switch {
	case e == nil:
		if err == nil {
			c.fail("readfile", "ReadFile(%q) succeeds, there is no file", n)
		}
	case err != nil:
		if !c.faulted() {
			c.fail("readfile", "ReadFile(%q) fails: %v", n, err)
		}
	case !bytes.Equal(got, e.blk.bytes()):
		c.fail("content", "ReadFile(%q) delivers %d other bytes", n, len(got))
	}
}

// entries checks directory entries and gives them as "name" and "name/".
func (c *viewCheck) entries(what, dir string, l []fs.DirEntry) (s []string) {
	for _, d := range l {
		n := d.Name()
		full := path.Join(dir, n)
		if d.IsDir() != d.Type().IsDir() {
			c.fail(what, "the entry %q of %q is a directory: %v and %v", n, dir, d.IsDir(), d.Type().IsDir())
		}
		fi, err := d.Info()
		if err != nil {
			c.fail(what, "the entry %q of %q has no info: %v", n, dir, err)
			return
		}
		if d.IsDir() {
			if !fi.IsDir() {
				c.fail(what, "the info of directory %q of %q is of no directory", n, dir)
			}
			c.entry(what, full, d)
			n += "/"
		} else if e := c.ref.find(full); e != nil {
			c.file(what, full, fi, e)
		}
		s = append(s, n)
	}
	return
}

// entry reads a listed directory through its entry, if that can be read.
func (c *viewCheck) entry(what, dir string, d fs.DirEntry) {
	h, ok := d.(fs.ReadDirFile)
	if !ok || c.rng.N(3) > 0 {
		return
	}
	l, err := h.ReadDir(-1)
	if err != nil {
		c.fail(what, "reading the listed directory %q fails: %v", dir, err)
		return
	}
	var got []string
	for _, d := range l {
		n := d.Name()
		if d.IsDir() {
			n += "/"
		}
		got = append(got, n)
	}
	sort.Strings(got)
	if want := c.ref.list(dir); fmt.Sprint(got) != fmt.Sprint(want) {
		c.fail(what, "the listed directory %q has %q, expected %q", dir, got, want)
	}
	c.x.Hit("entry-read")
}

func (c *viewCheck) readdir(n string) {
	l, err := c.v.ReadDir(c.spell(n))
	if !c.ref.isDir(n) {
		if err == nil && len(l) > 0 {
			c.fail("readdir", "ReadDir(%q) lists %q, there is no directory", n, c.entries("readdir", n, l))
		}
		return
	}
	if err != nil {
		c.fail("readdir", "ReadDir(%q) fails: %v", n, err)
		return
	}
	got := c.entries("readdir", n, l)
	for i := 1; i < len(l); i++ {
		if l[i-1].Name() > l[i].Name() {
			c.fail("readdir", "ReadDir(%q) is not sorted: %q", n, got)
		}
	}
	sort.Strings(got)
	want := c.ref.list(n)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		c.fail("readdir", "ReadDir(%q) lists %q, expected %q", n, got, want)
	}
	// the limited form
	k := c.rng.Range(1, 5)
	if c.rng.N(3) == 0 && len(want) > 0 {
		k = len(want) // everything and not one more
	}
	full := n
	var some []fs.DirEntry
	switch v := c.v.(type) {
	case *wpk.Package:
		full = v.FullPath(n)
		some, err = v.ReadDirN(full, k)
	case *wpk.Union:
		some, err = v.ReadDirN(n, k)
	}
	if err != nil && !(err == io.EOF && k > len(want)) {
		c.fail("readdir", "ReadDirN(%q,%d) of %d entries fails: %v", full, k, len(want), err)
		return
	}
	if len(some) != min(k, len(want)) {
		c.fail("readdir", "ReadDirN(%q,%d) of %d entries gives %d", full, k, len(want), len(some))
	}
	seen := map[string]bool{}
	for _, s := range c.entries("readdir", n, some) {
		i := sort.SearchStrings(want, s)
		if seen[s] || i >= len(want) || want[i] != s {
			c.fail("readdir", "ReadDirN(%q,%d) gives %q", full, k, s)
		}
		seen[s] = true
	}
}

// chunks reads a directory through its handle in portions.
func (c *viewCheck) chunks(dir string) {
	if c.ref.find(dir) != nil || !c.ref.isDir(dir) {
		return
	}
	f, err := c.v.Open(c.spell(dir))
	if err != nil {
		c.fail("chunks", "Open(%q) of a directory fails: %v", dir, err)
		return
	}
	defer f.Close()
	h, ok := f.(fs.ReadDirFile)
	if !ok {
		c.fail("chunks", "Open(%q) gives no readable directory", dir)
		return
	}
	want := c.ref.list(dir)
	var got []string
	n := c.rng.Range(1, 4)
	var last string
	for i := 0; ; i++ {
		if i > len(want)+2 {
			c.fail("chunks", "ReadDir(%d) of %q does not end: %q", n, dir, got)
			return
		}
		if c.rng.N(6) == 0 {
			n = c.rng.Range(-1, 4)
		}
		l, err := h.ReadDir(n)
		if n <= 0 {
			if err != nil {
				c.fail("chunks", "ReadDir(%d) of %q fails: %v", n, dir, err)
				return
			}
		} else if len(l) > n {
			c.fail("chunks", "ReadDir(%d) of %q gives %d entries", n, dir, len(l))
		} else if len(l) == 0 && err != io.EOF {
			c.fail("chunks", "ReadDir(%d) of %q gives nothing and %v", n, dir, err)
			return
		} else if len(l) > 0 && err != nil && !(err == io.EOF && len(got)+len(l) == len(want)) {
			c.fail("chunks", "ReadDir(%d) of %q gives %d entries and %v", n, dir, len(l), err)
			return
		}
		got = append(got, c.entries("chunks", dir, l)...)
		for _, d := range l {
			if d.Name() < last {
				c.fail("chunks", "ReadDir(%d) of %q is not sorted: %q", n, dir, got)
			}
			last = d.Name()
		}
		_ = append(l, fs.DirEntry(nil)) // the list is the caller's
		if n <= 0 || err == io.EOF {
			break
		}
	}
	c.x.Hit("chunked")
	if l, err := h.ReadDir(2); len(l) > 0 || err != io.EOF {
		c.fail("chunks", "ReadDir at the end of %q gives %d entries, %v", dir, len(l), err)
	}
	sort.Strings(got)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		c.fail("chunks", "ReadDir(%d) again and again of %q lists %q, expected %q", n, dir, got, want)
	}
}

func (c *viewCheck) subs(depth int) {
	c.each(func(d string) {
		s, err := c.v.Sub(c.spell(d))
		if !c.ref.isDir(d) {
			if err == nil && d != "." {
				c.fail("sub", "Sub(%q) succeeds, there is no directory", d)
			}
			return
		}
		if err != nil {
			c.fail("sub", "Sub(%q) fails: %v", d, err)
			return
		}
		if depth > 0 && c.rng.N(2) == 0 {
			v, ok := s.(wpk.CompleteFS)
			if !ok {
				c.fail("sub", "Sub(%q) gives an incomplete file system", d)
				return
			}
			n := *c
			n.v, n.ref = v, c.ref.sub(d)
			n.sub = c.sub || d != "."
			n.what = c.what + " > Sub(" + d + ")"
			n.run([]string{"keys", aspects[1+c.rng.N(8)], aspects[1+c.rng.N(8)]}, depth-1)
			c.x.Hit("sub-checked")
		}
	})
}

func (c *viewCheck) glob() {
	pats := []string{"*", "d/*", "*/*", "?", "d/e/*/*", "*.txt", "d*/x", "[a-c]*", "zz*", "a", "Файл*", "x y*", "[d]/*", "d/[A-Z]*", "d?*/?"}
	for i, f := range c.ref { // patterns made of a name
		if i < 3 || strings.ContainsAny(f.name, "[*?") {
			n := len(f.name)
			pats = append(pats, f.name, f.name[:n/2]+"*", path.Dir(f.name)+"/?"+path.Ext(f.name))
			if strings.Contains(f.name, "/") {
				pats = append(pats, "*/"+path.Base(f.name), path.Dir(f.name))
			}
		}
	}
	for _, p := range pats {
		if _, err := path.Match(p, ""); err != nil {
			continue
		}
		var want []string
		for _, f := range c.ref {
			if ok, _ := path.Match(p, f.name); ok {
				want = append(want, f.name)
			}
		}
		spelled := p
		if len(p)%3 == 0 {
			spelled = c.spell(p)
		}
		got, err := c.v.Glob(spelled)
		if err != nil {
			c.fail("glob", "Glob(%q) fails: %v", spelled, err)
		}
		sort.Strings(got)
		sort.Strings(want)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			c.fail("glob", "Glob(%q) = %q, expected %q", p, got, want)
		}
	}
	if _, err := c.v.Glob("[a"); err == nil {
		c.fail("glob", "Glob of a malformed pattern succeeds")
	}
}

func (c *viewCheck) walk() {
	if len(c.ref) == 0 {
		return
	}
	var got []string
	n := 0
	err := fs.WalkDir(c.v, ".", func(p string, d fs.DirEntry, err error) error {
		if n++; n > 10000 {
			return errors.New("the walk does not end")
		}
		if err != nil {
			return fmt.Errorf("at %q: %w", p, err)
		}
		if !d.IsDir() {
			got = append(got, p)
		}
		return nil
	})
	if err != nil {
		c.fail("walk", "the walk stops: %v", err)
	}
	sort.Strings(got)
	if fmt.Sprint(got) != fmt.Sprint(c.ref.names()) {
		c.fail("walk", "the walk reaches %q", got)
	}
}

// --- P14 ---

var viewWeights = weights("pack", 9, "packfile", 1, "alias", 4, "rename", 6, "renamedir", 3, "del", 3, "settag", 1, "sync", 2, "append", 1, "reopen", 1, "retag", 1)

// readers lets several tasks look at one tree at the same time.
func readers(x *Exec, k int64, mk func(i int64) *viewCheck) {
	for i := int64(0); i < k; i++ {
		c := mk(i)
		c.rng = simrt.NewRng(simrt.Mix(x.P.Seed, uint64(i), 8))
		c.faulted = func() bool { return false }
		l := []string{aspects[c.rng.N(9)], aspects[c.rng.N(9)]}
		if i > 0 && c.rng.N(2) == 0 {
			l[0] = "keys"
		}
		simrt.Go(func() { c.run(l, 1) })
	}
	simrt.Join()
	x.Hit("readers")
}

func viewRun(x *Exec) {
	b := newBuilder(x)
	check := func(list []string, op *Op) {
		x.Quiet(func() {
			rec := b.pkg.Tagger
			how := 2
			if b.com != nil && !b.dirty && op.ID%3 < 2 {
				how = op.ID % 3
			}
			if how == 0 && x.cfg("base") > 1<<26 {
				how = 1
			}
			t, err := tagger(how, b.dpath)
			if err != nil {
				x.Fail("create", "tagger: %v", err)
				return
			}
			b.pkg.Tagger = t
			c := &viewCheck{x: x, v: b.pkg, ref: refOf(b.m, "."), what: fmt.Sprintf("after %s(%q,%q)", op.K, op.A, op.B),
				rng: simrt.NewRng(simrt.Mix(x.P.Seed, uint64(op.ID))), faulted: func() bool { return false }, slash: true}
			c.run(list, 2)
			// the view the step has worked through
			if d := b.dir(op); d != "" && c.ref.isDir(d) {
				c.v = b.view(op)
				c.ref = c.ref.sub(d)
				c.what += " in " + d
				c.run(list, 1)
			}
			t.Close()
			b.pkg.Tagger = rec
		})
	}
	b.after = func(op *Op) {
		r := simrt.NewRng(simrt.Mix(x.P.Seed, uint64(op.ID), 5))
		check([]string{"keys", aspects[r.N(9)], aspects[r.N(9)]}, op)
	}
	b.run()
	b.after = nil
	check(aspects, &Op{K: "finish", ID: 9003})
	if k := x.cfg("readers"); k > 1 && x.V == nil {
		x.Quiet(func() {
			pkg, err := openPkg(b.tpath, b.dpath, int(x.cfg("how")))
			if err != nil {
				x.Fail("create", "the package does not open: %v", err)
				return
			}
			ref := refOf(b.m, ".")
			readers(x, k, func(i int64) *viewCheck {
				return &viewCheck{x: x, v: pkg, ref: ref, what: fmt.Sprintf("reader %d of %d", i, k), slash: true}
			})
			pkg.Tagger.Close()
		})
	}
	x.Probes["files"] += int64(len(b.m.ents))
}

// --- P15 ---

// member is one package of a union, seen through a workspace.
type member struct {
	b    *builder
	ws   string
	view *wpk.Package
	tgr  *countTagger
}

// countTagger counts the closes and fails where it should.
type countTagger struct {
	wpk.Tagger
	fail   bool
	closed int
}

func (t *countTagger) Close() error {
	t.closed++
	err := t.Tagger.Close()
	if t.fail {
		return errors.New("close failed")
	}
	return err
}

// mergeRef is the reference of a union: the first package that has a name.
func mergeRef(l []*member) (v rview) {
	seen := map[string]bool{}
	for _, m := range l {
		for _, f := range refOf(m.b.m, m.ws) {
			if !seen[f.name] {
				seen[f.name] = true
				v = append(v, f)
			}
		}
	}
	return
}

func unionRun(x *Exec) {
	var list []*member
	n := len(x.P.Tasks) - 1
	if n < 1 {
		return
	}
	x.Quiet(func() {
		for i := 0; i < n; i++ {
			if i > 0 && x.cfg("share")>>(i&3)&1 != 0 { // one more view of a package
				m := &member{b: list[i-1].b, ws: []string{".", ".", "d", "d/e"}[x.cfg("ws")>>(2*i)&3]}
				list = append(list, m)
				x.Hit("two-views-of-a-package")
				continue
			}
			b := newBuilder(x)
			b.split = x.cfg("split")>>i&1 != 0
			b.base = wpk.HeaderSize
			b.tpath = fmt.Sprintf("/work/u%d.wpk", i)
			b.dpath = b.tpath
			if b.split {
				b.base = 0
				b.tpath, b.dpath = fmt.Sprintf("/work/u%d.wpt", i), fmt.Sprintf("/work/u%d.wpf", i)
			}
			b.create()
			m := &member{b: b, ws: []string{".", ".", "d", "d/e"}[x.cfg("ws")>>(2*i)&3]}
			list = append(list, m)
			for j := range x.P.Tasks[1+i] {
				b.step(&x.P.Tasks[1+i][j])
			}
		}
	})
	u := &wpk.Union{}
	tie := func(m *member, op int) {
		// the package object changes when it is reopened
		if m.view == nil || m.view.FTT != m.b.pkg.FTT {
			how := 2
			t, err := tagger(how, m.b.dpath)
			if err != nil {
				x.Fail("create", "tagger: %v", err)
				return
			}
			m.tgr = &countTagger{Tagger: t}
			m.view = &wpk.Package{FTT: m.b.pkg.FTT, Tagger: m.tgr, Workspace: m.ws}
		}
	}
	check := func(list2 []string, op *Op, depth int) {
		before := len(x.Fired)
		u.List = nil
		for _, m := range list {
			tie(m, op.ID)
			u.List = append(u.List, m.view)
		}
		simrt.SetOp(op.ID)
		c := &viewCheck{x: x, v: u, ref: mergeRef(list), what: fmt.Sprintf("union of %d after %s(%q,%q)", len(list), op.K, op.A, op.B),
			rng: simrt.NewRng(simrt.Mix(x.P.Seed, uint64(op.ID))), faulted: func() bool { return len(x.Fired) > before }, slash: true}
		c.run(list2, depth)
		// raw packages by number
		for i, m := range list {
			if m.ws != "." || list[0].ws != "." {
				continue
			}
			f, err := u.Open(fmt.Sprintf("%s/%d", wpk.PackName, i))
			if err != nil {
				x.Check(c.faulted(), "raw", "the raw package %d does not open: %v", i, err)
				continue
			}
			size := int64(m.b.base) + int64(m.b.pkg.DataSize())
			if fi, err := f.Stat(); err != nil || fi.Size() != size {
				x.Check(c.faulted(), "raw", "the raw package %d has the wrong size", i)
			}
			if in := x.FS.Look(m.b.dpath); in != nil {
				got := make([]byte, min(size, 4096))
				want := make([]byte, len(got))
				in.ReadAt(want, 0)
				if _, err := io.ReadFull(f, got); err != nil || !bytes.Equal(got, want) {
					x.Check(c.faulted(), "raw", "the raw package %d has other bytes, %v", i, err)
				}
			}
			f.Close()
			x.Hit("raw-member")
		}
		if _, err := u.Open(fmt.Sprintf("%s/%d", wpk.PackName, len(list))); err == nil {
			x.Fail("raw", "a package behind the last one opens")
		}
		for _, n := range []string{"4294967296", "18446744073709551616", "-1", "99", "x", ""} {
			if f, err := u.Open(wpk.PackName + "/" + n); err == nil && x.cfg("packdir") == 0 {
				x.Fail("raw", "the union opens a package with the number %q: %T", n, f)
			}
		}
		if _, err := (&wpk.Union{}).Open("a"); !errors.Is(err, fs.ErrNotExist) {
			x.Fail("raw", "an empty union opens a file: %v", err)
		}
		simrt.SetOp(-1)
		shared := len(mergeRef(list))
		tot := 0
		for _, m := range list {
			tot += len(refOf(m.b.m, m.ws))
		}
		if tot > shared {
			x.Hit("overlapping-names")
		}
	}
	x.Quiet(func() { check(aspects, &Op{K: "start", ID: 9000}, 1) })
	for i := range x.P.Tasks[0] {
		op := &x.P.Tasks[0][i]
		m := list[int(uint(op.ID)%uint(len(list)))]
		if op.K == "order" { // another order of the packages
			r := simrt.NewRng(uint64(op.N))
			for j := range list {
				k := r.N(j + 1)
				list[j], list[k] = list[k], list[j]
			}
			x.Hit("reordered")
		} else {
			x.Quiet(func() { m.b.step(op) })
		}
		r := simrt.NewRng(simrt.Mix(x.P.Seed, uint64(op.ID), 6))
		check([]string{"keys", aspects[r.N(9)], aspects[r.N(9)]}, op, 1)
	}
	check([]string{"open", "readfile"}, &Op{K: "end", ID: 9001}, 0)
	if k := x.cfg("readers"); k > 1 && x.V == nil {
		if x.cfg("fresh") != 0 { // nobody has read from this one before
			u = &wpk.Union{List: u.List}
		}
		ref := mergeRef(list)
		readers(x, k, func(i int64) *viewCheck {
			return &viewCheck{x: x, v: u, ref: ref, what: fmt.Sprintf("union of %d, reader %d of %d", len(list), i, k), slash: true}
		})
	}
	x.Quiet(func() {
		check(aspects, &Op{K: "end", ID: 9002}, 2)
		// a directory with the name of the raw packages, seen from inside
		if x.cfg("packdir") != 0 && x.V == nil {
			for i, m := range list {
				if x.cfg("packdir")>>i&1 != 0 {
					op := Op{K: "pack", A: wpk.PackName + "/" + []string{"q", "0", "e/1", wpk.PackName + "/0"}[(i+int(x.cfg("packdir")>>8))%4], ID: 9100 + i, N: 20}
					m.b.step(&op)
				}
			}
			tie(list[0], 0)
			ref := mergeRef(list).sub(wpk.PackName)
			if s, err := u.Sub(wpk.PackName); err == nil && len(ref) > 0 {
				c := &viewCheck{x: x, v: s.(*wpk.Union), ref: ref, what: "union inside of " + wpk.PackName,
					rng: simrt.NewRng(x.P.Seed), faulted: func() bool { return false }, slash: true}
				c.run(aspects, 1)
				x.Hit("packdir")
			} else {
				x.Check(len(ref) == 0, "sub", "Sub(%q) of the union fails: %v", wpk.PackName, err)
			}
		}
		// close: every member, also when some fail
		wantErr := false
		for i, m := range list {
			if x.cfg("closefail")>>i&1 != 0 {
				m.tgr.fail = true
				wantErr = true
				x.FS.Fired["err-close"]++
			}
		}
		err := u.Close()
		x.Check((err != nil) == wantErr, "close", "Close of the union gives %v", err)
		for i, m := range list {
			x.Check(m.tgr.closed == 1, "close", "Close of the union closed the package %d of %d %d times", i, len(list), m.tgr.closed)
		}
		for _, m := range list {
			m.b.closeFiles()
		}
	})
}

func init() {
	register(&Prop{ID: "P14", Quick: 180000, Deep: 2400000,
		Real:    "wpk (table, directory listing, views, open, glob), util, access methods: all real code; goroutines, mutexes and files are the simulator's",
		Rule:    "two thirds: a history of 3-30 packs, renames, aliases, deletes, syncs and reopenings over up to 15 nested names, after every step two drawn kinds of view (key list, stat, open, whole read, directory listing, chunked reading, sub-directories recursively, glob, walk) are compared with the reference table, at the end all of them; one third: 2-4 tasks change the package while others list, glob, open, stat and take sub-directories, under one seeded schedule, checked for linearizability; non-trivial: a file was listed, or calls overlapped",
		Trivial: func(x *Exec) bool { return x.Probes["files"] == 0 && x.Probes["overlapping-pairs"] == 0 },
		Gen: func(r *simrt.Rng, deep bool) *Plan {
			if r.N(3) == 0 {
				p := &Plan{Cfg: map[string]int64{"split": int64(r.N(2)), "conc": 1}}
				p.Tasks = genTasks(r, r.Range(2, 4), 4, r.Range(1, 5), simrt.Pick(r, 3, 5, 8), weights("pack", 4, "rename", 4, "renamedir", 2, "alias", 2, "del", 3, "readdir", 4, "glob", 3, "open", 4, "sub", 2, "stat", 2, "list", 2, "size", 2))
				p.Sched = mixSched(r, 1500)
				return p
			}
			p := &Plan{Cfg: genCfg(r), Sched: seqSched(r)}
			n := r.Range(3, 24)
			if deep && r.N(4) == 0 {
				n = r.Range(20, 60)
			}
			p.Tasks = [][]Op{genOps(r, n, viewWeights)}
			if r.N(8) == 0 {
				p.Cfg["readers"], p.Cfg["how"] = int64(r.Range(2, 3)), int64(1+r.N(2))
				p.Sched = mixSched(r, 1500)
				return p
			}
			if r.N(80) == 0 {
				p.Tasks[0] = addWide(r, genOps(r, r.Range(1, 6), viewWeights))
			}
			return p
		},
		Run: func(x *Exec) {
			if len(x.P.Tasks) > 1 {
				concRun(x, true)
			} else {
				viewRun(x)
			}
		},
	})
	register(&Prop{ID: "P15", Quick: 120000, Deep: 2400000,
		Real:    "wpk (union, views, table, listing, open), util, access methods: all real code; files are the simulator's",
		Rule:    "1-4 packages in mixed layouts with overlapping names are built by 1-10 calls each and joined in a union, as a whole or through sub-directories; 0-12 further calls change single packages or the order of the list, after each two drawn kinds of view of the union are compared with the reference (first package wins), half of the runs with failing opens and reads; at the end the union is closed with drawn members failing; non-trivial: two packages had a name in common",
		Trivial: func(x *Exec) bool { return x.Probes["overlapping-names"] == 0 },
		Gen: func(r *simrt.Rng, deep bool) *Plan {
			p := &Plan{Sched: seqSched(r)}
			p.Cfg = map[string]int64{"split": int64(r.N(16)), "closefail": int64(r.N(16) * r.N(2))}
			if r.N(2) == 0 {
				p.Cfg["ws"] = int64(r.N(256))
				if r.N(4) == 0 {
					p.Cfg["share"] = int64(r.N(16))
				}
			} else if r.N(8) == 0 {
				p.Cfg["packdir"] = int64(r.N(1 << 10))
			}
			w := weights("pack", 9, "alias", 3, "rename", 4, "renamedir", 1, "del", 2, "settag", 1)
			p.Tasks = [][]Op{genOps(r, r.N(12), w)}
			for i := range p.Tasks[0] {
				if r.N(8) == 0 && p.Tasks[0][i].K != "wide" {
					p.Tasks[0][i] = Op{K: "order", N: int64(r.N(1 << 30))}
				}
			}
			n, most := r.Range(1, 4), 10
			if r.N(60) == 0 {
				n, most = r.Range(9, 14), 2 // the number has two digits
			}
			wide := r.N(100) == 0
			if wide {
				p.Tasks[0] = genOps(r, r.N(4), w)
			}
			for ; n > 0; n-- {
				ops := genOps(r, r.Range(0, most), w)
				if wide && r.N(2) == 0 {
					ops = addWide(r, ops)
				}
				p.Tasks = append(p.Tasks, ops)
			}
			for _, t := range p.Tasks {
				for i := range t {
					t[i].N %= 5000
				}
			}
			if r.N(6) == 0 && !wide {
				p.Cfg["readers"], p.Cfg["fresh"] = int64(r.Range(2, 3)), int64(r.N(2))
				p.Sched = mixSched(r, 1500)
			} else if r.N(2) == 0 && !wide {
				g := &FaultGen{P: map[string]float64{}, Max: r.Range(1, 8), Short: 0.3}
				rate := simrt.Pick(r, 0.03, 0.1, 0.3)
				for _, k := range []string{"read", "open", "stat"} {
					g.P[k] = rate
				}
				p.Gen = g
			}
			return p
		},
		Run: unionRun,
	})
}
