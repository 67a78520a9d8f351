package main

import (
	"encoding/hex"
	"fmt"
	"os"
	"path"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/schwarzlichtbezirk/wpk"
	cmdbuild "github.com/schwarzlichtbezirk/wpk/cmd/build"
	"github.com/schwarzlichtbezirk/wpk/util"

	"wpkverif/simlog"
	"wpkverif/simos"
	"wpkverif/simrt"
)

// --- P20: what scripts see of files, folders and the environment ---

// scripts runs the build tool on generated scripts. Every statement of a
// script announces itself in the log, so that calls, faults and results
// belong to statements.
type scripts struct {
	x     *Exec
	ev    []sevent
	args  []string // script paths after expansion
	files map[string]int
	dirs  map[string]bool
	stmts [][]Op
	made  map[string]map[string]string // package -> key -> content
	vague map[string]bool              // packages of which the content is not determined
	nth   int
}

type sevent struct {
	line  string
	fired int // faults fired before
}

const scrRoot = "/work/t"

var scrNames = []string{"a", "b.txt", "d", "d", "e", "Файл.md", "x y.jpg", "UP.PNG", ".hid", "a.b.c", "f%41.bin", "$HOME", "%TMPDIR%", "${A}", "aa", "q", "-", "~", "0"}

var scrEnv = []string{"A", "B", "_", "_x", "HOME", "VAR", "V2", "P0_1", "LONG_NAME_9", "ß", "TMPDIR"}

// envTok is a piece of a path with variables: how it is written and what it
// becomes.
func envTok(tok string, vars func(string) (string, bool)) (in, out string) {
	kind, name, _ := strings.Cut(tok, ":")
	in = map[string]string{"lit": name, "$": "$" + name, "{": "${" + name + "}", "%": "%" + name + "%"}[kind]
	out = in
	if kind != "lit" {
		if v, ok := vars(name); ok {
			out = v
		}
	}
	return
}

func envToks(s string, vars func(string) (string, bool)) (in, out string) {
	for _, tok := range strings.Split(s, "\x01") {
		a, b := envTok(tok, vars)
		in, out = in+a, out+b
	}
	return
}

// genEnv makes a path with variables. Pieces are such that there is one way
// to read them.
func genEnv(r *simrt.Rng) string {
	var l []string
	open := false // a $NAME before, which letters would continue
	for n := r.Range(1, 6); n > 0; n-- {
		switch r.N(6) {
		case 0, 1:
			s := simrt.Pick(r, "/", "/x", ".b/c", "/$", "/$/", "/${", "/%/", "/${A/", "/%A/", "-", " ", "/$1", "/é", "/{}", "/$9A/", "/${}", "\\")
			if !open || s != "" {
				l = append(l, "lit:"+s)
			}
			if strings.HasSuffix(s, "$") || strings.HasSuffix(s, "{") {
				l = append(l, "lit:/")
			}
			open = false
		case 2:
			l = append(l, "lit:"+simrt.Pick(r, "/a", "/Z", "/_", "/"))
			open = false
		default:
			name := simrt.Pick(r, "A", "B", "_", "_x", "HOME", "VAR", "V2", "P0_1", "LONG_NAME_9", "TMPDIR", "NO", "N", "x9")
			k := simrt.Pick(r, "$", "{", "%")
			l = append(l, k+":"+name)
			open = k == "$"
		}
	}
	return strings.Join(l, "\x01")
}

// env fills the simulated environment.
func (t *scripts) env(r *simrt.Rng) {
	e := map[string]string{"HOME": "/work", "TMPDIR": simrt.Pick(r, "/tmp", "/work/tmp dir", "/tmp/")}
	for _, k := range scrEnv {
		if _, ok := e[k]; !ok && r.N(3) > 0 {
			e[k] = simrt.Pick(r, "", "v", "/work", "$HOME", "%A%", "${A}", "long value of a variable", "a/b", "Ф")
		}
	}
	simos.Env = e
	if t.x.is("noexe") {
		simos.Exe = ""
	} else {
		simos.Exe = simrt.Pick(r, "/bin/tool", "/work/bin dir/wpk", "/tool")
	}
}

// tree makes the folders that scripts look at.
func (t *scripts) tree(ops []Op) {
	x := t.x
	x.FS.Dirs(scrRoot)
	t.files, t.dirs = map[string]int{}, map[string]bool{scrRoot: true}
	if n := x.cfg("crowd"); n > 0 { // a folder with more files than a new stack of the interpreter can hold
		simrt.Allow(n * 10000)
		x.FS.Dirs("/work/crowd")
		for i := int64(0); i < n; i++ {
			x.FS.Put(fmt.Sprintf("/work/crowd/f%d", i), nil)
		}
	}
	for i := range ops {
		op := &ops[i]
		p := scrRoot + "/" + op.A
		bad := x.FS.Look(p) != nil
		for d := path.Dir(p); d != "/"; d = path.Dir(d) {
			bad = bad || t.files[d] > 0
		}
		if bad {
			continue
		}
		for d := path.Dir(p); d != scrRoot; d = path.Dir(d) {
			t.dirs[d] = true
		}
		if op.K == "link" { // to a file made before
			var l []string
			for q := range t.files {
				l = append(l, q)
			}
			sort.Strings(l)
			if len(l) > 0 {
				q := l[int(op.N)%len(l)]
				x.FS.Link(p, q)
				t.files[p] = t.files[q]
				x.Hit("symlink")
				continue
			}
		}
		if op.K == "dir" {
			x.FS.Dirs(p)
			t.dirs[p] = true
			continue
		}
		x.FS.Put(p, content(int64(op.ID)+500, int(op.N))).SetTimes(timeOf(op, 1), timeOf(op, 2), timeOf(op, 3))
		t.files[p] = i + 1
	}
}

// list gives the names inside of a folder.
func (t *scripts) list(dir string) (l []string) {
	for p := range t.files {
		if path.Dir(p) == dir {
			l = append(l, path.Base(p))
		}
	}
	for p := range t.dirs {
		if path.Dir(p) == dir && p != dir {
			l = append(l, path.Base(p))
		}
	}
	sort.Strings(l)
	return
}

// glob gives what a pattern below the root matches.
func (t *scripts) glob(pattern string) (l []string) {
	seg := strings.Split(pattern, "/")
	match := func(p string) {
		s := strings.Split(p, "/")
		if len(s) != len(seg) {
			return
		}
		for i := range s {
			if ok, _ := path.Match(seg[i], s[i]); !ok {
				return
			}
		}
		l = append(l, p)
	}
	for p := range t.files {
		match(p)
	}
	for p := range t.dirs {
		match(p)
	}
	sort.Strings(l)
	return
}

func (t *scripts) under(root string) map[string]string {
	m := map[string]string{}
	for p := range t.files {
		if strings.HasPrefix(p, root+"/") {
			b, _ := t.x.FS.Get(p)
			m[p[len(root)+1:]] = string(b)
		}
	}
	return m
}

// pick gives a path of the tree, or one that is not there.
func (t *scripts) pick(n int64) string {
	var l []string
	for p := range t.files {
		l = append(l, p)
	}
	for p := range t.dirs {
		l = append(l, p)
	}
	sort.Strings(l)
	n = (n%64+64)%64 + 64
	if k := int(n) % (len(l) + 3); k < len(l) {
		return l[k]
	} else if k == len(l) {
		return scrRoot + "/nosuch"
	} else if k == len(l)+1 {
		return l[int(n/3)%len(l)] + "/under"
	}
	return "/work/nodir/x"
}

// folder gives a folder of the tree, or something that is none.
func (t *scripts) folder(n int64) string {
	var l []string
	for p := range t.dirs {
		l = append(l, p)
	}
	sort.Strings(l)
	if n%9 == 8 {
		return t.pick(n / 9)
	}
	return l[int(n/9)%len(l)]
}

// stmt is a statement: its text, and what it has to write.
type stmt struct {
	code  string
	want  []string // exactly these lines
	raise string   // it has to fail, with a message that contains this
	// given a fault
	softly func(l []string) bool      // the lines are right if the call had no answer
	free   func(l []string) bool      // instead of want, any lines this accepts
	kinds  map[string]bool            // fault kinds that need not raise
	after  func(ok bool, line string) // what the statement leaves
	any    bool                       // may fail
}

func sep(l []string) string { return strings.Join(l, "|") }

// lines joins a line of values.
func vals(a ...any) []string {
	var l []string
	for _, v := range a {
		l = append(l, fmt.Sprint(v))
	}
	return []string{"=" + sep(l)}
}

var scrStrs = []string{"a/b/c.txt", "/x/y.z", "name", "d.e/f", "/", "a//b", "../q", "a/./b", "", "x.y/z.w", "/only", "é/ü.ö", "C.TXT", "a b/c d.e f", "./t", "a/b/..", ".hidden", "q/.hid", "x.tar.gz", "d.d/", "name.", "..", "a b."}

func (t *scripts) stmt(op *Op, scr int) (s stmt) {
	x := t.x
	r := simrt.NewRng(simrt.Mix(x.P.Seed, uint64(op.ID), 31))
	switch op.K {
	case "enum":
		dir := t.folder(op.N)
		n := int(op.M%7) - 2
		call := fmt.Sprintf("path.enum(%s, %d)", lq(dir), n)
		if n == -2 {
			call = fmt.Sprintf("path.enum(%s)", lq(dir))
		}
		s.code = fmt.Sprintf("local l = %s; local n = #l; table.sort(l); L(n, unpack(l))", call)
		if !t.dirs[dir] {
			s.raise = dir
			break
		}
		l := t.list(dir)
		if n <= 0 || n >= len(l) {
			s.want = []string{"=" + sep(append([]string{strconv.Itoa(len(l))}, l...))}
			break
		}
		s.free = func(got []string) bool {
			if len(got) != 1 {
				return false
			}
			f := strings.Split(got[0][1:], "|")
			if f[0] != strconv.Itoa(n) || len(f) != n+1 {
				return false
			}
			seen := map[string]bool{}
			for _, name := range f[1:] {
				i := sort.SearchStrings(l, name)
				if i == len(l) || l[i] != name || seen[name] {
					return false
				}
				seen[name] = true
			}
			return true
		}
	case "check":
		p := t.pick(op.N)
		s.code = fmt.Sprintf("local a, b = checkfile(%s); L(a, a and b, not a and type(b))", lq(p))
		_, file := t.files[p]
		switch {
		case file:
			s.want = vals(true, true, false)
		case t.dirs[p]:
			s.want = vals(true, false, false)
		default:
			s.free = func(got []string) bool {
				return len(got) == 1 && (got[0] == "=false|false|nil" || got[0] == "=false|false|string")
			}
		}
		s.kinds = map[string]bool{"stat": true}
		s.softly = func(got []string) bool { return len(got) == 1 && got[0] == "=false|false|string" }
	case "glob":
		pat := scrRoot
		for i := r.N(3); i >= 0; i-- {
			pat += "/" + simrt.Pick(r, "*", "*", "?", "a*", "*.*", "[a-e]", "*b*", "[^a]*", "Ф*", "d", "??", "*.txt")
		}
		s.code = fmt.Sprintf("local l = {path.glob(%s)}; table.sort(l); L(#l, unpack(l))", lq(pat))
		if op.M%13 == 0 {
			pat = scrRoot + "/[a"
			s.code = fmt.Sprintf("L(path.glob(%s))", lq(pat))
			s.raise = "syntax error"
			break
		}
		l := t.glob(pat)
		s.want = []string{"=" + sep(append([]string{strconv.Itoa(len(l))}, l...))}
		s.kinds = map[string]bool{"stat": true, "open": true, "readdir": true, "close": true}
		s.softly = func(got []string) bool { // what can not be read is left out
			if len(got) != 1 {
				return false
			}
			f := strings.Split(got[0][1:], "|")
			for _, p := range f[1:] {
				if i := sort.SearchStrings(l, p); i == len(l) || l[i] != p {
					return false
				}
			}
			return f[0] == strconv.Itoa(len(f)-1)
		}
	case "crowd":
		s.code = "L(#{path.glob('/work/crowd/f*')})"
		s.want = vals(x.cfg("crowd"))
		s.kinds = map[string]bool{"stat": true, "open": true, "readdir": true, "close": true}
		s.softly = func(got []string) bool { return len(got) == 1 }
		x.Hit("crowd")
	case "env":
		in, out := envToks(op.A, simos.LookupEnv)
		s.code = fmt.Sprintf("L(path.envfmt(%s))", lq(in))
		s.want = vals(out)
	case "vars":
		exe := simos.Exe
		if exe == "" {
			exe = os.Args[0]
		}
		s.code = "L(scrdir, bindir, tmpdir, type(buildvers), type(buildtime), path.sep)"
		s.want = vals(path.Dir(t.args[scr]), path.Dir(exe), simos.TempDir(), "string", "string", "/")
	case "str":
		a, b := scrStrs[r.N(len(scrStrs))], scrStrs[r.N(len(scrStrs))]
		switch r.N(9) {
		case 0:
			s.code, s.want = "L(path.dir("+lq(a)+"), path.volume("+lq(a)+"))", vals(path.Dir(a), "")
		case 1:
			s.code, s.want = "L(path.base("+lq(a)+"))", vals(path.Base(a))
		case 2:
			s.code, s.want = "L(path.ext("+lq(a)+"))", vals(path.Ext(a))
		case 3:
			d, f := path.Split(a)
			s.code, s.want = "L(path.split("+lq(a)+"))", vals(d, f)
		case 4:
			l := []string{a, b, "z"}
			var q []string
			for r.N(2) == 0 {
				l = append(l, scrStrs[r.N(len(scrStrs))])
			}
			l = l[:len(l)-r.N(2)*r.N(len(l)+1)]
			for _, e := range l {
				q = append(q, lq(e))
			}
			s.code, s.want = "L(path.join("+strings.Join(q, ", ")+"))", vals(path.Join(l...))
		case 5:
			c := ""
			if r.N(2) == 0 {
				c = strings.Repeat(simrt.Pick(r, "x", `long\name `, "y/"), r.N(60)) + simrt.Pick(r, `\`, `a\b\`, "")
			}
			s.code, s.want = "L(path.clean("+lq(a)+"), path.toslash("+lq(`q\`+c+b)+"))", vals(path.Clean(a), "q/"+strings.ReplaceAll(c+b, `\`, "/"))
		case 6:
			dir, base, ext := simrt.Pick(r, "", "/", "a.b/", "x/y/", "é/", `C:\w.d\`), simrt.Pick(r, "n", "name", "имя", "a b"), simrt.Pick(r, "", ".e", ".txt")
			s.code, s.want = "L(path.name("+lq(dir+base+ext)+"))", vals(base)
		default:
			name := simrt.Pick(r, "a.txt", "b", "abc", "a*", "[a]", "d/e.txt", "", "[", "a[", "\\")
			pat := simrt.Pick(r, "*", "*.txt", "a*", "?", "[a-c]*", "d/*", "abc", "*/*", "a\\*", "", "[", "a[", "\\", "a[]", "[^a-b]*", "[a-]", "\\[a\\]")
			ok, err := path.Match(pat, name)
			s.code, s.want = "L(path.match("+lq(name)+", "+lq(pat)+"))", vals(ok)
			if err != nil {
				s.want, s.raise = nil, "syntax error"
			}
		}
	case "hex":
		b := content(op.N, int(op.M%40))
		h := hex.EncodeToString(b)
		s.code = fmt.Sprintf("L(bin2hex(%s), hex2bin(%s) == %s)", lq(string(b)), lq(simrt.Pick(r, h, strings.ToUpper(h))), lq(string(b)))
		s.want = vals(h, true)
		if op.M%11 == 0 {
			s.code, s.want, s.raise = fmt.Sprintf("L(hex2bin(%s))", lq(simrt.Pick(r, "0", "zz", "00 1", "abc"))), nil, "hex"
		}
	case "time":
		ms := op.N
		s.code = fmt.Sprintf("L(time2milli(milli2time(%d)))", ms)
		s.want = vals(ms)
		switch op.M % 6 {
		case 0:
			u := time.UnixMilli(ms).UTC()
			s.code = fmt.Sprintf("L(time2milli(%s))", lq(u.Format("2006-01-02T15:04:05.999Z")))
		case 1:
			lay := simrt.Pick(r, time.RFC3339, time.RFC1123Z, "02.01.2006 15:04:05 -0700")
			ms -= ((ms % 1000) + 1000) % 1000
			s.code = fmt.Sprintf("L(time2milli(milli2time(%d, %s), %s))", ms, lq(lay), lq(lay))
			s.want = vals(ms)
		case 2:
			lay := simrt.Pick(r, time.RFC3339Nano, time.ANSIC, "2006", "Jan _2 15:04:05.000")
			s.code = fmt.Sprintf("L(milli2time(%d, %s))", ms, lq(lay))
			s.want = vals(time.UnixMilli(ms).Format(lay))
			s.free = func(got []string) bool { // the zone is not documented
				return sep(got) == sep(s.want) || sep(got) == sep(vals(time.UnixMilli(ms).UTC().Format(lay)))
			}
		case 3:
			if op.M%5 == 0 {
				s.code, s.want, s.raise = "L(time2milli('yesterday'))", nil, "cannot parse"
			}
		}
	case "walk":
		t.walk(op, &s)
	case "again":
		t.again(op, &s)
	case "dofile":
		s.code = "dofile(path.join(scrdir, 'inc.lua'))"
		s.want = []string{"=included|" + path.Dir(t.args[scr])}
	case "global":
		s.code = "L(GV); GV = (GV or 0) + 1"
		n := 0
		for i := range t.stmts[scr] {
			if o := &t.stmts[scr][i]; o.K == "global" {
				if o.ID == op.ID {
					break
				}
				n++
			}
		}
		s.want = vals("nil")
		if n > 0 {
			s.want = vals(n)
		}
	case "fail":
		s.code, s.raise = fmt.Sprintf("error('oops%d')", op.ID), fmt.Sprintf("oops%d", op.ID)
	case "badcall":
		s.code = simrt.Pick(r, "path.enum()", "checkfile({})", "path.join({}, 'a')", "log(nil)", "bin2hex()", "milli2time('x')", "path.match('a')", "path.glob(nil)")
		s.raise = "bad argument"
	default:
		s.code, s.want = "L(1)", vals(1)
	}
	return
}

// walk packs a folder like the sample scripts do.
func (t *scripts) walk(op *Op, s *stmt) {
	root := t.folder(op.N)
	p, d := t.pkgPath(op.M)
	s.code = fmt.Sprintf(`local pkg = wpk.new()
pkg.autofid = %v; pkg.automime = %v; pkg.crc32 = %v
pkg:begin(%s)
local n = 0
local function rec(prefix, dir)
	for _, name in ipairs(path.enum(dir)) do
		local fpath = path.join(dir, name)
		local access, isfile = checkfile(fpath)
		if access then
			if isfile then
				pkg:putfile(prefix..name, fpath, {link = fpath, author = "me"})
				n = n + 1
			else
				rec(prefix..name.."/", fpath)
			end
		end
	end
end
rec("", %s)
%s
pkg:finalize()
L(n)`, op.M&8 != 0, op.M&16 != 0, op.M&32 != 0, pathArgs(p, d), lq(root), map[bool]string{true: "pkg:flush()"}[d != "" && op.M&64 != 0])
	if !t.dirs[root] {
		s.raise = root
		s.after = func(bool, string) { t.vague[p] = true }
		return
	}
	m := t.under(root)
	s.want = vals(len(m))
	s.kinds = map[string]bool{"stat": true}
	s.softly = func(got []string) bool {
		if len(got) != 1 {
			return false
		}
		n, err := strconv.Atoi(got[0][1:])
		return err == nil && n >= 0 && n <= len(m)
	}
	s.after = func(ok bool, line string) {
		t.made[p], t.vague[p] = m, !ok || line != s.want[0]
	}
}

// again opens a package of this or a script before and adds to it.
func (t *scripts) again(op *Op, s *stmt) {
	p, d := t.pkgPath(op.M)
	key := fmt.Sprintf("added/%d", op.ID)
	s.code = fmt.Sprintf(`local pkg = wpk.new()
pkg:load(%s)
pkg:append()
pkg:putdata(%s, %s)
pkg:finalize()
L(pkg.tagnum, pkg:hasfile(%s))`, pathArgs(p, d), lq(key), lq(key), lq(key))
	m := t.made[p]
	switch {
	case t.vague[p]:
		s.free = func([]string) bool { return true }
		s.softly = s.free
		s.kinds, s.any = map[string]bool{"any": true}, true
		s.after = func(bool, string) {}
	case m == nil:
		s.raise = p
	default:
		n := map[string]string{key: key}
		for k, v := range m {
			n[k] = v
		}
		s.want = vals(len(n), true)
		s.kinds = map[string]bool{"close": true} // load only reads
		s.after = func(ok bool, line string) { t.made[p], t.vague[p] = n, !ok }
	}
}

func (t *scripts) pkgPath(n int64) (p, d string) {
	switch n & 3 {
	case 0:
		return "/work/pk/one.wpk", ""
	case 1:
		return "/work/pk/two.wpk", ""
	case 2:
		return "/work/pk/three.wpt", "/work/pk/three.wpf"
	}
	return "/work/pk/four.wpt", "/work/pk/four.wpf"
}

func pathArgs(p, d string) string {
	if d == "" {
		return lq(p)
	}
	return lq(p) + ", " + lq(d)
}

const scrHead = "local function L(...) local t = {...} for i = 1, select('#', ...) do t[i] = tostring(t[i]) end log('='..table.concat(t, '|')) end\n"

func (t *scripts) text(i int, order []stmt) string {
	var b strings.Builder
	if t.x.cfg("shebang")&(1<<i) != 0 {
		b.WriteString("#!/usr/bin/env build\n")
	}
	fmt.Fprintf(&b, "log('@S%d')\n%s", i, scrHead)
	for k := range order {
		op := &t.stmts[i][k]
		fmt.Fprintf(&b, "log('@%d')\n", op.ID)
		if op.B == "pcall" {
			fmt.Fprintf(&b, "if not pcall(function()\n%s\nend) then log('=raised') end\n", order[k].code)
		} else {
			fmt.Fprintf(&b, "do\n%s\nend\n", order[k].code)
		}
	}
	fmt.Fprintf(&b, "log('@E%d')\n", i)
	return b.String()
}

// hook learns from the log where the scripts are.
func (t *scripts) hook(line string) {
	t.ev = append(t.ev, sevent{line, len(t.x.Fired)})
	if strings.HasPrefix(line, "@") {
		if n, err := strconv.Atoi(line[1:]); err == nil {
			simrt.SetOp(n)
		} else if line[1] == 'E' {
			n, _ := strconv.Atoi(line[2:])
			simrt.SetOp(90001 + n)
		}
	}
}

// next takes one line of the log.
func (t *scripts) peek() (sevent, bool) {
	if t.nth < len(t.ev) {
		return t.ev[t.nth], true
	}
	return sevent{}, false
}

// firedIn gives the faults that an operation met.
func (t *scripts) firedIn(op int, soft map[string]bool) (hard, weak string) {
	for _, f := range t.x.Fired {
		kind, p, _ := strings.Cut(f.Call, " ")
		switch {
		case f.Op != op || f.Kind == "short":
		case soft[kind] || soft["any"] || kind == "close" && !strings.Contains(p, "/work/pk/"):
			weak = f.Call
		case hard == "":
			hard = f.Call
		}
	}
	return
}

// failed checks that the log ends with an error here.
func (t *scripts) failed(what, contains string) {
	x := t.x
	e, ok := t.peek()
	if !ok {
		x.Fail("silent", "%s failed, the build tool does not say so; log: %q", what, simlog.Lines)
	}
	if strings.HasPrefix(e.line, "@") || strings.HasPrefix(e.line, "=") {
		x.Fail("goes-on", "%s failed, the build tool goes on: %q", what, e.line)
	}
	if !strings.Contains(e.line, contains) {
		x.Fail("message", "%s failed, the message %q does not tell %q", what, e.line, contains)
	}
	t.nth++
	if e, ok := t.peek(); ok {
		x.Fail("goes-on", "%s failed, the build tool goes on: %q", what, e.line)
	}
}

func scriptsRun(x *Exec) {
	// the interpreter takes a failed read for a strange character
	x.spare = func(kind, p string) bool { return kind == "read" && strings.HasSuffix(p, ".lua") }
	t := &scripts{x: x, made: map[string]map[string]string{}, vague: map[string]bool{}}
	for len(x.P.Tasks) < 2 {
		x.P.Tasks = append(x.P.Tasks, nil)
	}
	t.env(simrt.NewRng(simrt.MixStr(x.P.Seed, "env")))
	x.FS.Dirs("/work/pk")
	x.FS.Dirs("/work/scr")
	t.tree(x.P.Tasks[0])
	if x.is("direct") {
		t.direct(x.P.Tasks[1])
		return
	}
	t.stmts = x.P.Tasks[1:]
	os.Args = []string{"/usr/bin/wpkbuild"}
	simrt.Reset("cmdbuild")
	var bad []int
	for i := range t.stmts {
		name := fmt.Sprintf("s%d.lua", i)
		style := x.cfg("style") >> (3 * i) & 7
		arg, p := "/work/scr/"+name, "/work/scr/"+name
		switch style {
		case 1:
			arg = "$HOME/scr/" + name
		case 2:
			arg = "${HOME}/scr/" + name
		case 3:
			arg = "%HOME%/scr/" + name
		case 4:
			arg, p = "scr/"+name, "scr/"+name
		case 5:
			arg, p = "./scr/"+name, "./scr/"+name
		}
		t.args = append(t.args, p)
		os.Args = append(os.Args, arg)
		b := 0
		if int(x.cfg("bad"))%10 == i {
			b = int(x.cfg("bad"))/10%3 + 1
		}
		bad = append(bad, b)
	}
	simos.Args = os.Args
	// the text of a script depends on what scripts before it left
	build := func(i int) {
		if bad[i] == 1 {
			return
		}
		var l []stmt
		for k := range t.stmts[i] {
			l = append(l, t.stmt(&t.stmts[i][k], i))
		}
		s := t.text(i, l)
		if bad[i] == 2 {
			s += "\nthis is = not lua (\n"
		}
		if bad[i] == 3 {
			x.FS.Dirs(fmt.Sprintf("/work/scr/s%d.lua", i))
			return
		}
		x.FS.Put(fmt.Sprintf("/work/scr/s%d.lua", i), []byte(s))
	}
	x.Quiet(func() {
		x.FS.Put("/work/scr/inc.lua", []byte("log('=included|'..scrdir)\n"))
		for i := range t.stmts {
			build(i)
		}
	})
	simlog.Lines = nil
	simlog.Hook = t.hook
	simrt.SetOp(90000)
	func() {
		defer func() {
			simlog.Hook = nil
			simrt.SetOp(-1)
			if r := recover(); r != nil {
				if _, ok := r.(simrt.Abort); ok {
					panic(r)
				}
				x.Fail("panic", "the build tool panics: %v", r)
			}
		}()
		cmdbuild.SimMain()
	}()
	if x.V != nil || x.W.Aborted() != "" {
		simrt.Stop("violation")
	}
	x.Hit("built")
	if t.judge(bad) {
		x.Hit("all-done")
		if x.is("handles") {
			own := map[*simos.File]bool{}
			for _, f := range x.FS.Open { // scripts that handle errors leave packages begun
				own[f] = strings.HasPrefix(f.Name(), "/work/pk/")
			}
			if n, what := x.held(own); n > 0 {
				x.Fail("leak", "after a build without failures there are %d handles and mappings left: %s", n, what)
			}
			x.misuse("a build without failures")
		}
	}
	x.Quiet(t.packages)
}

// judge compares the log with what the scripts had to write. It tells whether
// all were executed to their end.
func (t *scripts) judge(bad []int) bool {
	x := t.x
	for i := range t.stmts {
		what := "script " + os.Args[i+1]
		hard, weak := t.firedIn(90000+i, nil)
		e, ok := t.peek()
		started := ok && e.line == fmt.Sprintf("@S%d", i)
		switch {
		case bad[i] != 0:
			x.Hit("bad-script")
			t.failed(what, "")
			return false
		case hard != "":
			x.Hit("fault-script")
			t.failed(what, "")
			return false
		case !started && weak == "":
			x.Fail("not-run", "%s is not executed; the log goes on with %q", what, e.line)
		case !started:
			t.failed(what, "")
			return false
		}
		t.nth++
		for k := range t.stmts[i] {
			op := &t.stmts[i][k]
			e, ok := t.peek()
			if !ok || e.line != fmt.Sprintf("@%d", op.ID) {
				x.Fail("not-run", "%s: step %d is not executed; the log goes on with %q", what, op.ID, e.line)
			}
			t.nth++
			if !t.step(i, op) {
				return false
			}
		}
		e, ok = t.peek()
		if !ok || e.line != fmt.Sprintf("@E%d", i) {
			x.Fail("not-run", "%s does not end; the log goes on with %q", what, e.line)
		}
		t.nth++
	}
	if e, ok := t.peek(); ok {
		x.Fail("extra", "after all scripts the log goes on with %q", e.line)
	}
	return true
}

// step judges a statement and tells whether the script went on.
func (t *scripts) step(scr int, op *Op) bool {
	x := t.x
	s := t.stmt(op, scr)
	what := strings.TrimSpace(s.code)
	if len(what) > 160 {
		what = op.K + " step"
	}
	hard, weak := t.firedIn(op.ID, s.kinds)
	var got []string
	for {
		e, ok := t.peek()
		if !ok || !strings.HasPrefix(e.line, "=") {
			break
		}
		got = append(got, e.line)
		t.nth++
	}
	end, ok := t.peek()
	raised := !ok || !strings.HasPrefix(end.line, "@")
	caught := false
	if op.B == "pcall" && len(got) > 0 && got[len(got)-1] == "=raised" {
		caught = true
		got = got[:len(got)-1]
	}
	x.Hit("step-" + op.K)
	okay := func() bool {
		if s.free != nil {
			return s.free(got)
		}
		return sep(got) == sep(s.want)
	}
	if raised || caught {
		if s.raise == "" && hard == "" && weak == "" && !s.any {
			x.Fail("spurious", "%s raises an error: %q", what, end.line)
		}
		if op.B == "pcall" && raised {
			x.Fail("uncaught", "%s inside of pcall ends the script: %q", what, end.line)
		}
		if hard != "" || weak != "" {
			x.Hit("fault-" + op.K)
		}
		if s.after != nil {
			s.after(false, "")
		}
		if raised {
			need := s.raise
			if hard != "" || weak != "" {
				need = ""
			}
			t.failed(what, need)
			return false
		}
		return true
	}
	switch {
	case s.raise != "":
		x.Fail("accepted", "%s returns %q, it has to raise an error", what, got)
	case hard != "":
		x.Fail("swallowed", "%s returns %q although %s failed", what, got, hard)
	case weak != "" && s.softly != nil && s.softly(got):
		x.Hit("soft-" + op.K)
	case !okay():
		x.Fail("answer-"+op.K, "%s gives %q, expected %q", what, got, s.want)
	}
	line := ""
	if len(got) > 0 {
		line = got[0]
	}
	if s.after != nil {
		s.after(true, line)
	}
	return true
}

// packages compares what the scripts packed with the folders.
func (t *scripts) packages() {
	x := t.x
	var l []string
	for p := range t.made {
		if !t.vague[p] {
			l = append(l, p)
		}
	}
	sort.Strings(l)
	for _, p := range l {
		m := t.made[p]
		d := p
		if strings.HasSuffix(p, ".wpt") {
			d = strings.TrimSuffix(p, ".wpt") + ".wpf"
		}
		pkg, err := openPkg(p, d, int(x.P.Seed%7))
		if err != nil {
			x.Fail("pack-open", "the package %s a script made does not open: %v", p, err)
		}
		n := 0
		pkg.Enum(func(k string, ts wpk.TagsetRaw) bool {
			if _, ok := m[k]; !ok {
				x.Fail("pack-table", "the package %s a script made has %q, which is in no folder", p, k)
			}
			n++
			return true
		})
		x.Check(n == len(m), "pack-table", "the package %s a script made has %d files, expected %d", p, n, len(m))
		var keys []string
		for k := range m {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			v := m[k]
			b, err := pkg.ReadFile(k)
			if err != nil || string(b) != v {
				x.Fail("pack-content", "file %q of the package %s a script made reads as %d bytes (%v), expected %d", k, p, len(b), err, len(v))
			}
		}
		pkg.Close()
		x.Hit("package-checked")
		x.State("pkg", p, len(m))
	}
}

// direct calls the expansion of variables with a table of variables.
func (t *scripts) direct(ops []Op) {
	x := t.x
	for i := range ops {
		op := &ops[i]
		if op.K == "util" {
			t.helpers(op)
			continue
		}
		if op.K != "env" {
			continue
		}
		r := simrt.NewRng(simrt.Mix(x.P.Seed, uint64(op.ID), 33))
		var table map[string]string
		if r.N(4) > 0 {
			table = map[string]string{}
			for _, k := range scrEnv {
				if r.N(2) == 0 {
					table[k] = simrt.Pick(r, "", "t", "/table", "$HOME", "long value from the table")
				}
			}
		}
		in, out := envToks(op.A, func(k string) (string, bool) {
			if v, ok := table[k]; ok {
				return v, true
			}
			return simos.LookupEnv(k)
		})
		if got := util.Envfmt(in, table); got != out {
			x.Fail("answer-env", "Envfmt(%q, %v) gives %q, expected %q (environment %v)", in, table, got, out, simos.Env)
		}
		x.Hit("direct")
		x.State("env", op.A)
	}
}

// helpers compares the functions on paths with plain ones.
func (t *scripts) helpers(op *Op) {
	x := t.x
	r := simrt.NewRng(simrt.Mix(x.P.Seed, uint64(op.ID), 35))
	s := pathText(r)
	arg := strings.Clone(s)
	one := func(name, got, want string, args ...string) {
		if got != want {
			x.Fail("helper", "%s(%q) gives %q, expected %q", name, args, got, want)
		}
		if s != arg {
			x.Fail("helper", "%s changes its argument %q, it becomes %q", name, arg, s)
		}
	}
	fold := func(from, to byte, d int) string {
		b := []byte(arg)
		for i, c := range b {
			if c >= from && c <= to {
				b[i] = byte(int(c) + d)
			}
		}
		return string(b)
	}
	low := fold('A', 'Z', 32)
	one("ToSlash", util.ToSlash(s), strings.ReplaceAll(arg, `\`, "/"), arg)
	one("ToLower", util.ToLower(s), low, arg)
	one("ToUpper", util.ToUpper(s), fold('a', 'z', -32), arg)
	one("ToKey", util.ToKey(s), strings.ReplaceAll(low, `\`, "/"), arg)
	one("B2S", util.B2S(util.S2B(s)), arg, arg)
	dir := simrt.Pick(r, "", ".", "a", "a/", "/", "/a/b", "a.b/c/", "Ф", "..", "x y", pathSafe(s))
	base := simrt.Pick(r, "", ".", "x", "/x", "x/y.z", "/", ".h", "..", "Ф/", pathSafe(s))
	join := base
	switch {
	case dir == "" || dir == ".":
	case base == "" || base == ".":
		join = dir
	default:
		join = strings.TrimSuffix(dir, "/") + "/" + strings.TrimPrefix(base, "/")
	}
	one("JoinPath", util.JoinPath(dir, base), join, dir, base)
	one("JoinFilePath", util.JoinFilePath(dir, base), join, dir, base)
	dir, base = simrt.Pick(r, "", "/", "a.b/", "x/y/", "é/", `C:\w.d\`, `\\h\`, ".g/"), simrt.Pick(r, "n", "name", "имя", "a b", "")
	ext := simrt.Pick(r, "", ".e", ".txt", ".")
	one("TempPath", wpk.TempPath(base), util.JoinPath(simos.TempDir(), base), base)
	one("PathName", util.PathName(dir+base+ext), base, dir+base+ext)
	x.Hit("helpers")
	x.State("util", arg)
}

// pathText draws a text with what the functions look for at any place.
func pathText(r *simrt.Rng) string {
	n := r.N(12)
	if r.N(3) == 0 {
		n = r.Range(12, 300)
	}
	b := make([]byte, 0, n+2)
	rare := r.N(20)
	for len(b) < n {
		if r.N(20) < rare {
			b = append(b, "abcdefghijklmnopqrstuvwxyz0123456789"[r.N(36)])
			continue
		}
		switch r.N(6) {
		case 0:
			b = append(b, '\\')
		case 1:
			b = append(b, '/')
		case 2:
			b = append(b, byte('A'+r.N(26)))
		case 3:
			b = append(b, "AZaz@[`{.\\"[r.N(10)])
		case 4:
			b = append(b, "éФ漢"...)
		default:
			b = append(b, byte(r.N(256)))
		}
	}
	return string(b)
}

// pathSafe keeps a text out of the special cases of joining.
func pathSafe(s string) string {
	return "q" + strings.ReplaceAll(s, `\`, "/") + "q"
}

func scriptsGen(r *simrt.Rng, deep bool) *Plan {
	p := &Plan{Cfg: map[string]int64{}, Sched: seqSched(r)}
	p.Cfg["noexe"] = int64(r.N(6) / 5)
	p.Cfg["style"] = int64(r.N(1 << 12))
	p.Cfg["shebang"] = int64(r.N(16) & r.N(16))
	var tree []Op
	for n := r.Range(0, 14); n > 0; n-- {
		name := scrNames[r.N(len(scrNames))]
		for r.N(3) == 0 {
			name += "/" + scrNames[r.N(len(scrNames))]
		}
		op := Op{K: "file", A: name, N: pickSize(r)}
		if r.N(16) == 0 {
			op.K = "link"
		} else if r.N(4) == 0 {
			op.K = "dir"
		}
		tree = append(tree, op)
	}
	if r.N(25) == 0 { // a folder with many names
		dir := simrt.Pick(r, "", "many/", "d/many/")
		for n := simrt.Pick(r, 63, 64, 65, 99, 100, 101, 128, 129, 150, 257, 300); n > 0; n-- {
			tree = append(tree, Op{K: "file", A: fmt.Sprintf("%sm%d", dir, n), N: int64(n % 3)})
		}
	}
	p.Tasks = [][]Op{tree}
	if r.N(8) == 0 {
		p.Cfg["direct"] = 1
		var ops []Op
		for n := r.Range(1, 10); n > 0; n-- {
			op := Op{K: "util"}
			if r.N(3) > 0 {
				op = Op{K: "env", A: genEnv(r)}
			}
			ops = append(ops, op)
		}
		p.Tasks = append(p.Tasks, ops)
		return p
	}
	kinds := []string{"enum", "enum", "check", "check", "glob", "glob", "env", "env", "vars", "str", "str", "hex", "time", "walk", "again", "dofile", "global"}
	if r.N(3) == 0 {
		kinds = append(kinds, "walk", "walk", "again", "again", "again")
	}
	for i := r.Range(1, 4); i > 0; i-- {
		var ops []Op
		m := 8
		if deep {
			m = 20
		}
		for n := r.Range(0, m); n > 0; n-- {
			op := Op{K: kinds[r.N(len(kinds))], N: int64(r.N(1 << 16)), M: int64(r.N(1 << 12))}
			if r.N(30) == 0 {
				op.K = simrt.Pick(r, "fail", "badcall")
			}
			switch op.K {
			case "env":
				op.A = genEnv(r)
			case "time":
				op.N = simrt.Pick(r, int64(r.N(1<<31)), int64(r.N(1<<41)), -int64(r.N(1<<40)), 0, 1, -1, 999, 1000, -1000, 1500000000123, 253402214399999-int64(r.N(1<<45)), -62135510400000+int64(r.N(1<<45)))
			}
			if r.N(3) == 0 || r.N(3) > 0 && strings.Contains("enum walk again", op.K) {
				op.B = "pcall"
			}
			ops = append(ops, op)
		}
		p.Tasks = append(p.Tasks, ops)
	}
	if r.N(9000) == 0 {
		p.Cfg["crowd"] = int64(r.Range(5000, 6000))
		l := p.Tasks[len(p.Tasks)-1]
		k := r.N(len(l) + 1)
		p.Tasks[len(p.Tasks)-1] = append(append(append([]Op{}, l[:k]...), Op{K: "crowd"}), l[k:]...)
	}
	if r.N(8) == 0 {
		p.Cfg["bad"] = int64(r.N(3)*10 + r.N(4))
	} else {
		p.Cfg["bad"] = 9
	}
	if r.N(2) == 0 {
		g := &FaultGen{P: map[string]float64{}, Max: r.Range(1, 4), Short: simrt.Pick(r, 0, 0.3, 0.8)}
		for _, k := range []string{"open", "create", "read", "write", "seek", "stat", "close", "readdir", "mmap"} {
			g.P[k] = simrt.Pick(r, 0, 0, 0.02, 0.1)
		}
		if r.N(2) == 0 {
			g.P[simrt.Pick(r, "open", "stat", "readdir", "stat", "readdir")] = 0.2
		}
		p.Gen = g
	}
	return p
}

func init() {
	register(&Prop{ID: "P20", Quick: 180000, Deep: 2400000, Budget: 30000000, Real: "cmd/build started through its main function, luawpk, util, wpk: all real code, with the real interpreter (gopher-lua) on the simulated system",
		Rule:    "the build tool runs one to four generated scripts (up to eight steps each, some inside of pcall) over a seeded folder tree, environment, time zone and directory order; every step logs what it was told, the log is compared with the model line by line; half with failing open, create, read, write, seek, stat, close, readdir calls; packages the scripts made are opened and compared; one of eight calls the expansion of variables directly; non-trivial: a script was executed",
		Trivial: func(x *Exec) bool { return x.Probes["built"]+x.Probes["direct"] == 0 },
		Gen:     scriptsGen,
		Run:     scriptsRun,
	})
}
