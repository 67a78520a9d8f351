package main

import (
	"crypto/hmac"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"hash"
	"hash/crc32"
	"hash/crc64"
	"math"
	"mime"
	"path"
	"strings"
	"time"

	"github.com/h2non/filetype"
	lua "github.com/yuin/gopher-lua"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/luawpk"

	"wpkverif/simos"
	"wpkverif/simrt"
)

// Types of tag values, as the documentation of the script API has them.
const (
	ttAny = iota
	ttBin
	ttStr
	ttUint
	ttTime
)

type luaTag struct {
	name string
	tid  uint16
	typ  int
}

var luaTags = []luaTag{
	{"fid", 4, ttUint}, {"mtime", 5, ttTime}, {"atime", 6, ttTime}, {"ctime", 7, ttTime}, {"btime", 8, ttTime},
	{"attr", 9, ttUint}, {"mime", 10, ttStr},
	{"crc32", 12, ttBin}, {"crc32ieee", 11, ttBin}, {"crc32c", 12, ttBin}, {"crc32k", 13, ttBin}, {"crc64", 14, ttBin}, {"crc64iso", 14, ttBin},
	{"md5", 20, ttBin}, {"sha1", 21, ttBin}, {"sha224", 22, ttBin}, {"sha256", 23, ttBin}, {"sha384", 24, ttBin}, {"sha512", 25, ttBin},
	{"tmbjpeg", 100, ttBin}, {"tmbwebp", 101, ttBin},
	{"label", 110, ttStr}, {"link", 111, ttStr}, {"keywords", 112, ttStr}, {"category", 113, ttStr}, {"version", 114, ttStr}, {"author", 115, ttStr}, {"comment", 116, ttStr},
}

func luaType(tid uint16) int {
	for _, t := range luaTags {
		if t.tid == tid {
			return t.typ
		}
	}
	return map[uint16]int{1: ttUint, 2: ttUint, 3: ttStr}[tid]
}

// luaHashes are the checksums a script can ask for.
var luaHashes = []struct {
	name string
	tid  uint16
	mac  func() hash.Hash
}{
	{"crc32", 12, nil}, {"crc64", 14, nil},
	{"md5", 20, md5.New}, {"sha1", 21, sha1.New}, {"sha224", 22, sha256.New224}, {"sha256", 23, sha256.New}, {"sha384", 24, sha512.New384}, {"sha512", 25, sha512.New},
}

func luaHash(i int, data []byte, secret string) string {
	h := luaHashes[i]
	switch h.name {
	case "crc32":
		return string(binary.BigEndian.AppendUint32(nil, crc32.Checksum(data, crc32.MakeTable(crc32.Castagnoli))))
	case "crc64":
		return string(binary.BigEndian.AppendUint64(nil, crc64.Checksum(data, crc64.MakeTable(crc64.ISO))))
	}
	m := hmac.New(h.mac, []byte(secret))
	m.Write(data)
	return string(m.Sum(nil))
}

func luaMime(key string, data []byte) string {
	ext := strings.ToLower(path.Ext(key))
	if t := mime.TypeByExtension(ext); t != "" {
		return t
	}
	if t, ok := luawpk.MimeExt[ext]; ok {
		return t
	}
	if len(data) > 8192 {
		data = data[:8192]
	}
	if kind, err := filetype.Match(data); err == nil && kind != filetype.Unknown {
		return kind.MIME.Value
	}
	return "application/octet-stream"
}

func uintTag(v uint64) string {
	b := binary.LittleEndian.AppendUint64(nil, v)
	switch {
	case v > math.MaxUint32:
		return string(b)
	case v > math.MaxUint16:
		return string(b[:4])
	case v > math.MaxUint8:
		return string(b[:2])
	}
	return string(b[:1])
}

// lq quotes a Lua string.
func lq(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c < 32 || c > 126 || c == '"' || c == '\\' {
			fmt.Fprintf(&b, "\\%03d", c)
		} else {
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// luaArg is a tag as a script gives it.
type luaArg struct {
	key, val string // Lua expressions
	tid      uint16
	tag      string // the value the file gets
	badKey   bool   // the key is refused
	badVal   bool   // the value is refused
}

func (a *luaArg) bad() bool { return a.badKey || a.badVal }

// genLuaKey draws the name of a tag.
func genLuaKey(r *simrt.Rng, bad bool) (a luaArg) {
	if bad && r.N(3) == 0 {
		a.badKey = true
		a.key = simrt.Pick(r, `"nosuchtag"`, `true`, `0`, `65536`, `-1`, `110.5`, `"offset"`, `"size"`, `"path"`, `1`, `2`, `3`, `""`, `1e30`)
		return
	}
	if r.N(5) == 0 {
		a.tid = uint16(simrt.Pick(r, 200, 300, 40000, 65535, 16, 99))
		a.key = fmt.Sprint(a.tid)
		return
	}
	t := luaTags[r.N(len(luaTags))]
	switch r.N(4) { // the usual ones more often
	case 0, 1:
		t = simrt.Pick(r, luaTags[0], luaTags[6], luaTags[21], luaTags[23], luaTags[25], luaTags[26])
	}
	a.tid = t.tid
	a.key = lq(t.name)
	if r.N(4) == 0 {
		a.key = fmt.Sprint(t.tid)
	}
	return
}

// genLuaArg draws a tag with its value.
func genLuaArg(r *simrt.Rng, bad bool) luaArg {
	a := genLuaKey(r, bad)
	if a.badKey {
		a.val = `"x"`
		if r.N(2) == 0 {
			a.val = `5`
		}
		return a
	}
	if bad {
		a.badVal = true
		switch luaType(a.tid) {
		case ttBin:
			a.val = simrt.Pick(r, `"abc"`, `"zz"`, `true`, `{}`, `-1`, `1.5`, `print`, `1e30`)
		case ttStr:
			a.val = simrt.Pick(r, `{}`, `print`, `string.rep("x", 66000)`)
		case ttUint:
			a.val = simrt.Pick(r, `"abc"`, `-1`, `1.5`, `"-7"`, `""`, `{}`, `print`, `1e30`, `"+5"`, `"7 x"`, `"0x"`, `"1.5"`, `18446744073709551616`, `2^64`, `1/0`, `-1/0`, `0/0`, `-0.5`, `"18446744073709551616"`)
		case ttTime:
			a.val = simrt.Pick(r, `"yesterday"`, `true`, `{}`, `""`, `1e30`, `-1e300`, `0/0`, `1/0`, `9223372036854775808`)
		default:
			a.val = simrt.Pick(r, `{}`, `print`, `string.rep("y", 70000)`)
		}
		return a
	}
	n := uint64(r.N(300))
	if r.N(4) == 0 {
		n = r.U64() >> uint(r.Range(11, 60))
	}
	str := func() string {
		s := simrt.Pick(r, "", "beach;rock", "fox", "Файл", "a\x00b", "x y%d%s", "\"quoted\"\n", "http://host/путь")
		if r.N(20) == 0 {
			s = strings.Repeat("long ", r.Range(20, 900))
		}
		return s
	}
	num := func() { a.val, a.tag = fmt.Sprint(n), uintTag(n) }
	switch luaType(a.tid) {
	case ttBin:
		if r.N(4) == 0 {
			num()
			break
		}
		b := content(int64(r.N(1000)), simrt.Pick(r, 0, 4, 8, 20, 32, 64))
		a.val, a.tag = lq(hex.EncodeToString(b)), string(b)
	case ttStr:
		switch r.N(8) {
		case 0:
			k := r.N(100000)
			a.val, a.tag = fmt.Sprint(k), fmt.Sprint(k)
		case 1:
			a.val, a.tag = "0.5", "0.5"
		case 2:
			a.val, a.tag = "true", "true"
		case 3:
			a.val, a.tag = "false", "false"
		default:
			s := str()
			a.val, a.tag = lq(s), s
		}
	case ttUint:
		if a.tid == 4 {
			n = uint64(r.Range(1, 12))
		}
		switch r.N(6) {
		case 0:
			a.val, a.tag = lq(simrt.Pick(r, "", "", "0", "00")+fmt.Sprint(n)), uintTag(n)
		case 1:
			a.val, a.tag = "true", uintTag(1)
			if r.N(4) == 0 && a.tid != 4 {
				a.val, a.tag = "2^64-2048", uintTag(1<<64-2048)
			}
		case 2:
			if a.tid != 4 {
				a.val, a.tag = "false", uintTag(0)
				break
			}
			fallthrough
		default:
			num()
		}
	case ttTime:
		ms := int64(r.N(1<<30)) * 1723
		switch r.N(10) {
		case 0, 1:
			ms = -ms - int64(r.N(3))
		case 2:
			ms = simrt.Pick(r, int64(0), 1, 999, 1000, -1, -999, -1000, -1001)
		}
		if r.N(2) == 0 {
			a.val, a.tag = fmt.Sprint(ms), string(binary.LittleEndian.AppendUint64(nil, uint64(ms)))
		} else {
			a.val, a.tag = lq(time.UnixMilli(ms).UTC().Format("2006-01-02T15:04:05.999Z07:00")), timeTagOf(time.UnixMilli(ms))
		}
	default:
		switch r.N(6) {
		case 0:
			f := simrt.Pick(r, -1, -0.5, 2.25, -1e10)
			a.val, a.tag = fmt.Sprint(f), string(binary.LittleEndian.AppendUint64(nil, math.Float64bits(f)))
		case 1:
			a.val, a.tag = "true", "\x01"
		case 2:
			a.val, a.tag = "false", "\x00"
		case 3:
			num()
		default:
			s := str()
			a.val, a.tag = lq(s), s
		}
	}
	return a
}

// genLuaTable draws a table of tags; every tag appears once.
func genLuaTable(r *simrt.Rng, max int, bad bool) (expr string, args []luaArg, isbad bool) {
	n := r.N(max + 1)
	at := -1
	if bad {
		n = max1(n, 1)
		at = r.N(n)
	}
	seen := map[uint16]bool{}
	var items []string
	for i := 0; i < n; i++ {
		a := genLuaArg(r, i == at)
		if seen[a.tid] && !a.badKey {
			continue
		}
		seen[a.tid] = true
		isbad = isbad || a.bad()
		args = append(args, a)
		items = append(items, "["+a.key+"]="+a.val)
	}
	if !bad && r.N(9) == 0 { // so much that it may not fit into the package
		for i := r.Range(1, 3); i >= 0; i-- {
			tid := simrt.Pick(r, 4, 300, 111, 112, 115, 116)
			if seen[uint16(tid)] {
				continue
			}
			seen[uint16(tid)] = true
			a := luaArg{tid: uint16(tid), key: fmt.Sprint(tid)}
			if tid == 4 {
				k := r.Range(1, 12)
				a.val, a.tag = fmt.Sprint(k), uintTag(uint64(k))
			} else {
				k := simrt.Pick(r, 20000, 30000, 44000)
				a.val, a.tag = fmt.Sprintf(`string.rep("h",%d)`, k), strings.Repeat("h", k)
			}
			args = append(args, a)
			items = append(items, "["+a.key+"]="+a.val)
		}
	}
	return "{" + strings.Join(items, ",") + "}", args, isbad
}

// tagsLen is the size of a tagset.
func tagsLen(tags map[uint16]string) (n int) {
	for _, v := range tags {
		n += 4 + len(v)
	}
	return
}

// entLen is the size of the tagset of a file, up to the size of its offset.
func entLen(key string, size int, tags map[uint16]string) int {
	return 4 + 4 + 4 + len(uintTag(uint64(size))) + 4 + len(key) + tagsLen(tags)
}

func max1(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// luaDisk is what the file system holds at a package path.
type luaDisk struct {
	path, dat string
	how       int // 0 unknown, 1 readable, 2 refused
	m         *model
	state     *snap
	gen       int
	writer    *luaObj
}

// luaObj is a package object of the script with its model.
type luaObj struct {
	n         int
	pkg       *luawpk.LuaPackage
	m         *model
	disk      *luaDisk // the package that append continues
	gen       int
	open      bool
	split     bool // opened with a data file
	mismatch  bool // loaded with the wrong number of files
	known     bool // the data size is known
	size      uint64
	fids      map[string]bool
	autofid   bool
	automime  bool
	secret    string
	hash      [8]bool
	everFired bool
}

func (o *luaObj) name() string { return fmt.Sprintf("o%d", o.n) }

// blocks is how many blocks of data the files have, at least and at most.
func (o *luaObj) blocks() (lo, hi int) {
	full, offs := map[uint64]bool{}, map[uint64]bool{}
	for _, e := range o.m.ents {
		offs[e.blk.off] = true
		if e.blk.size > 0 {
			full[e.blk.off] = true
		} else {
			offs[1<<63+uint64(len(offs))] = true
		}
	}
	return len(full), len(offs)
}

// luaRun executes one script.
type luaRun struct {
	x      *Exec
	ls     *lua.LState
	objs   []*luaObj
	disks  []*luaDisk
	srcs   []string
	op     *Op
	r      *simrt.Rng
	fired  int
	code   string
	dying  bool // the process dies during the next operation
	shadow *simos.FS
	inos   map[int64]*simos.Inode
	past   int // journal entries the shadow has
}

var luaNames = []string{"a", "b.txt", "d/c.png", "D/X.JPG", "e.unk", "f/g.json", "h.tar.zzz", "d/e/noext", "Файл.md", "x y.gif", "d/b.txt", "f", "W.ZIP", "v/Z.ARC", "m.Cda", "p.eot", "k.config.jpg2000", "g/longname.extension"}

func newLuaRun(x *Exec) *luaRun {
	t := &luaRun{x: x}
	magic := []string{"\x89PNG\r\n\x1a\n", "GIF89a", "%PDF-1.4", "", ""}
	for i, m := range magic {
		data := append([]byte(m), content(int64(i)+100, 300+i*i*700)...)
		p := fmt.Sprintf("/work/src/%d.bin", i)
		in := x.FS.Put(p, data)
		in.SetTimes(timeOf(&Op{ID: i}, 1), timeOf(&Op{ID: i}, 2), timeOf(&Op{ID: i}, 3))
		t.srcs = append(t.srcs, p)
	}
	x.FS.Put("/work/src/empty", nil).SetTimes(timeOf(&Op{ID: 5}, 1), timeOf(&Op{ID: 5}, 2), timeOf(&Op{ID: 5}, 3))
	t.srcs = append(t.srcs, "/work/src/empty", "/work/src/missing", "/work/src")
	t.disks = []*luaDisk{
		{path: "/work/p0.wpk"}, {path: "/work/p1.wpt", dat: "/work/p1.wpf"}, {path: "/work/p2.wpk"}, {path: "/work/p3.wpt", dat: "/work/p3.wpf"},
	}
	for _, d := range t.disks {
		d.how = 2 // missing
	}
	t.start()
	return t
}

// start makes the interpreter of a new process.
func (t *luaRun) start() {
	t.ls = lua.NewState(lua.Options{SkipOpenLibs: true, RegistrySize: 2048, CallStackSize: 64, RegistryMaxSize: 1 << 20, RegistryGrowStep: 1 << 10})
	for _, lib := range []struct {
		n string
		f lua.LGFunction
	}{{lua.BaseLibName, lua.OpenBase}, {lua.TabLibName, lua.OpenTable}, {lua.StringLibName, lua.OpenString}} {
		t.ls.Push(t.ls.NewFunction(lib.f))
		t.ls.Push(lua.LString(lib.n))
		t.ls.Call(1, 0)
	}
	luawpk.InitLuaVM(t.ls)
	t.objs = nil
	for i := 0; i < max1(1, int(t.x.cfg("objs"))); i++ {
		t.objs = append(t.objs, &luaObj{n: i + 1})
		t.fresh(t.objs[i])
	}
	if t.x.cfg("die") != 0 {
		t.shadow, t.inos, t.past = t.x.FS.Clone(), map[int64]*simos.Inode{}, 0
		t.x.FS.Record = true
	}
}

// die takes the process away at some moment of the last operation, of which
// pre holds the state of disks before. All moments are judged, the next
// process goes on from one of them.
func (t *luaRun) die(pre []luaDisk, from int) {
	x, live := t.x, t.x.FS
	j := live.Journal
	r := simrt.NewRng(simrt.Mix(x.P.Seed, uint64(t.op.ID), 77))
	var next *simos.FS
	var disks []*luaDisk
	seen := 0
	x.Quiet(func() {
		for ; t.past < from; t.past++ {
			t.shadow.Apply(&j[t.past], t.inos, -1)
		}
		judge := func(i, keep int) {
			simos.Cur, x.FS = t.shadow, t.shadow
			x.subs++
			live.Fired["process-death"]++
			l := t.image(pre, i, keep)
			simos.Cur, x.FS = live, live
			if seen++; r.N(seen) == 0 {
				next, disks = t.shadow.Clone(), l
			}
		}
		for i := from; ; i++ {
			judge(i, -1)
			if i == len(j) {
				break
			}
			rec := &j[i]
			if rec.Kind == "write" && len(rec.Data) > 1 {
				k, n := int(512-rec.Off%512), 0
				for ; k < len(rec.Data) && n < 8; n++ {
					t.shadow.Apply(rec, t.inos, k)
					x.Hit("torn-write")
					judge(i, k)
					k += 512 * (1 + r.N(4))
				}
			}
			t.shadow.Apply(rec, t.inos, -1)
		}
	})
	x.Hit("death-" + t.op.K)
	next.Fired, next.Kinds, next.NIO, next.Inject = live.Fired, live.Kinds, live.NIO, live.Inject
	next.Limited, next.Space, next.OnFull = live.Limited, live.Space, live.OnFull
	simos.Cur, x.FS = next, next
	t.disks = disks
	t.op = &Op{ID: t.op.ID, K: "new"}
	t.start()
}

// image judges what a death after the first i journal entries leaves.
func (t *luaRun) image(pre []luaDisk, i, keep int) (disks []*luaDisk) {
	x := t.x
	for n, post := range t.disks {
		d := &luaDisk{path: post.path, dat: post.dat, gen: post.gen + 1}
		disks = append(disks, d)
		before := &pre[n]
		if before.how == 0 || post.how == 0 {
			continue
		}
		dat := d.dat
		if dat == "" {
			dat = d.path
		}
		pkg, err := openPkg(d.path, dat, i)
		if err != nil {
			if before.how == 1 && post.how == 1 && t.op.K != "begin" {
				x.Fail("crash-open", "death during %s after %d journal entries (%d bytes of the next): the package %s does not open: %v", t.code, i, keep, d.path, err)
			}
			d.how = 2
			continue
		}
		pkg.Close()
		var why []string
		for _, c := range []*luaDisk{before, post} {
			if c.how != 1 {
				continue
			}
			what, err := verify(d.path, dat, c.state, i, false)
			if err == nil {
				d.how, d.m, d.state = 1, c.m, c.state
				if c.state.base == 0 && len(c.m.ents) == 0 { // maybe no table was written yet
					n := *c.state
					n.base = 1
					d.state = &n
				}
				break
			}
			why = append(why, what+": "+err.Error())
		}
		if d.how == 0 {
			x.Fail("crash-state", "death during %s after %d journal entries (%d bytes of the next): the package %s opens with a state the script did not commit: %s", t.code, i, keep, d.path, strings.Join(why, "; "))
		}
		x.Hit("death-readable")
	}
	return
}

// exec runs a chunk and returns its values or the error it raised.
func (t *luaRun) exec(code string) ([]lua.LValue, error) {
	x := t.x
	t.code = code
	t.fired = len(x.Fired)
	simrt.SetOp(t.op.ID)
	fn, err := t.ls.LoadString(code)
	if err != nil {
		must(fmt.Errorf("chunk %q: %v", code, err))
	}
	top := t.ls.GetTop()
	t.ls.Push(fn)
	err = t.ls.PCall(0, lua.MultRet, nil)
	simrt.SetOp(-1)
	if x.V != nil || x.W.Aborted() != "" {
		simrt.Stop("violation")
	}
	var res []lua.LValue
	if err == nil {
		for i := top + 1; i <= t.ls.GetTop(); i++ {
			res = append(res, t.ls.Get(i))
		}
	} else {
		var ae *lua.ApiError
		if errors.As(err, &ae) && ae.Type == lua.ApiErrorPanic || strings.Contains(err.Error(), "runtime error:") {
			x.Fail("panic", "%s panics: %v", code, err)
		}
	}
	t.ls.SetTop(top)
	return res, err
}

// hit tells whether a fault that must be reported fired in the last step.
func (t *luaRun) hit() string {
	for _, f := range t.x.Fired[t.fired:] {
		if f.Kind == "short" {
			continue
		}
		if strings.HasPrefix(f.Call, "close ") && !t.isPkg(f.Call) {
			continue // closing a file that was only read loses nothing
		}
		return f.Call
	}
	return ""
}

func (t *luaRun) isPkg(call string) bool {
	if t.op.K == "load" {
		return false
	}
	for _, d := range t.disks {
		if strings.Contains(call, d.path) || d.dat != "" && strings.Contains(call, d.dat) {
			return true
		}
	}
	return false
}

// do runs a step; want is the reason why it must be refused, if any. It
// reports whether the step succeeded.
func (t *luaRun) do(code, want string) ([]lua.LValue, bool) {
	x := t.x
	res, err := t.exec(code)
	h := t.hit()
	switch {
	case err == nil && h != "":
		x.Fail("swallowed", "%s returns although %s failed", code, h)
	case err == nil && want != "":
		x.Fail("accepted", "%s returns, it should raise an error: %s", code, want)
	case err != nil && h == "" && want == "":
		x.Fail("spurious", "%s raises %v", code, firstLine(err))
	}
	if err != nil {
		x.Hit("raised")
		if h != "" {
			x.Hit("fault-" + t.op.K)
		}
	}
	return res, err == nil
}

func firstLine(err error) string {
	s := err.Error()
	if i := strings.Index(s, "\nstack traceback"); i >= 0 {
		s = s[:i]
	}
	return s
}

// fresh makes a new object.
func (t *luaRun) fresh(o *luaObj) {
	n := o.n
	*o = luaObj{n: n, m: &model{info: map[uint16]string{}}}
	if t.op == nil {
		t.op = &Op{K: "new"}
	}
	t.do(fmt.Sprintf("%s = wpk.new()", o.name()), "")
	ud, _ := t.ls.GetGlobal(o.name()).(*lua.LUserData)
	if ud == nil {
		t.x.Fail("new", "wpk.new gives %v", t.ls.GetGlobal(o.name()))
	}
	o.pkg = ud.Value.(*luawpk.LuaPackage)
}

// check compares the object with its model.
func (t *luaRun) check(o *luaObj) {
	x := t.x
	seen := 0
	root := &wpk.Package{FTT: o.pkg.FTT, Workspace: "."}
	root.Enum(func(k string, ts wpk.TagsetRaw) bool {
		e := o.m.find(k)
		if e == nil {
			x.Fail("table", "after %s entry %q exists, the script made %q", t.code, k, o.m.keys())
		}
		if err := sameTags(ts, e); err != nil {
			x.Fail("tags", "after %s entry %q: %v", t.code, k, err)
		}
		if n := seen; n >= len(o.m.ents) || o.m.ents[n].key != k {
			x.Fail("table", "after %s entry %d is %q, the script made %q", t.code, n, k, o.m.order())
		}
		seen++
		return true
	})
	if seen != len(o.m.ents) {
		x.Fail("table", "after %s the package has %d entries, the script made %q", t.code, seen, o.m.keys())
	}
	got, _, err := parseTags(o.pkg.GetInfo())
	if err == nil {
		err = diffTags(got, o.m.info)
	}
	if err != nil {
		x.Fail("info", "after %s package info: %v", t.code, err)
	}
}

func (m *model) order() (l []string) {
	for _, e := range m.ents {
		l = append(l, e.key)
	}
	return
}

// session asks the script whether the package is open.
func (t *luaRun) session(o *luaObj) (open bool) {
	code := t.code
	res, _ := t.do("return "+o.name()+".pkgpath, "+o.name()+".datpath", "")
	t.code = code
	if len(res) != 2 {
		t.x.Fail("session", "%s.pkgpath, datpath give %d values", o.name(), len(res))
	}
	p, d := res[0].String(), res[1].String()
	if res[0] == lua.LNil {
		if res[1] != lua.LNil {
			t.x.Fail("session", "after %s the data file %s is still open without the tags file", t.code, d)
		}
		return false
	}
	if o.disk == nil || p != o.disk.path {
		t.x.Fail("session", "after %s pkgpath is %s", t.code, p)
	}
	if o.split != (res[1] != lua.LNil) || o.split && d != o.disk.dat {
		t.x.Fail("session", "after %s datpath is %s", t.code, d)
	}
	return true
}

// commit verifies what a successful flush or finalize left on disk.
func (t *luaRun) commit(o *luaObj) {
	t.check(o)
	s := takeSnap(&wpk.Package{FTT: o.pkg.FTT, Workspace: "."}, o.m)
	s.size = uint64(o.pkg.DataSize())
	o.disk.how, o.disk.m, o.disk.state = 1, o.m.clone(), s
	t.x.Hit("commit")
	if len(o.m.ents) > 0 {
		t.x.Hit("commit-files")
	}
	t.verify(o.disk)
}

// verify reads a package from disk.
func (t *luaRun) verify(d *luaDisk) {
	x := t.x
	dat := d.dat
	if dat == "" {
		dat = d.path
	}
	x.Quiet(func() {
		switch d.how {
		case 1:
			if what, err := verify(d.path, dat, d.state, t.op.ID, d.state.base == 0); err != nil {
				x.Fail("disk-"+what, "after %s the package %s: %v", t.code, d.path, err)
			}
		case 2:
			if _, err := openPkg(d.path, dat, t.op.ID); err == nil {
				x.Fail("disk-open", "after %s the unfinished package %s opens", t.code, d.path)
			}
		}
	})
}

// arg gives a name in a script.
func (t *luaRun) arg(s string) string {
	if t.r.N(20) == 0 {
		s = strings.ReplaceAll(s, "/", "\\")
	}
	return lq(s)
}

// step executes one operation.
func (t *luaRun) step(op *Op) {
	x := t.x
	t.op = op
	t.r = simrt.NewRng(simrt.Mix(x.P.Seed, uint64(op.ID), 5))
	o := t.objs[int(op.M>>16)%len(t.objs)]
	r := t.r
	n := o.name()
	switch op.K {
	case "new":
		if !o.open {
			t.fresh(o)
		}
	case "flag":
		t.flag(o)
	case "label":
		s := fmt.Sprintf("label %d", op.ID)
		v, want := lq(s), ""
		if op.N%9 == 0 {
			k := simrt.Pick(r, 20000, 30000, 44000, 66000)
			v, s = fmt.Sprintf(`string.rep("l",%d)`, k), strings.Repeat("l", k)
		}
		info := map[uint16]string{}
		for k, v := range o.m.info {
			info[k] = v
		}
		info[uint16(wpk.TIDlabel)] = s
		if tagsLen(info) > 65535 {
			want = "too much"
			x.Hit("toomuch-label")
		}
		if _, ok := t.do(fmt.Sprintf("%s.label = %s", n, v), want); ok {
			o.m.info = info
		}
	case "setupinfo":
		expr, args, bad := genLuaTable(r, 5, op.N%5 == 0)
		want := ""
		info := map[uint16]string{}
		for _, a := range args {
			info[a.tid] = a.tag
		}
		if bad {
			want = "wrong tag"
		} else if tagsLen(info) > 65535 {
			want = "too much"
			x.Hit("toomuch-setupinfo")
		}
		if _, ok := t.do(fmt.Sprintf("%s:setupinfo(%s)", n, expr), want); ok {
			o.m.info = info
		}
	case "begin", "load", "append", "finalize", "flush":
		t.session1(o)
		for _, d := range t.disks {
			t.verify(d)
		}
	case "putdata", "putfile":
		t.put(o)
	case "rename", "putalias":
		t.rename(o)
	case "many": // many names for one file
		e := o.m.find(op.A)
		if e == nil || o.m.find("m/n1") != nil {
			break
		}
		simrt.Allow(op.N * 200000)
		if _, ok := t.do(fmt.Sprintf("for i = 1, %d do %s:putalias(%s, 'm/n'..i) end", op.N, n, t.arg(op.A)), ""); ok {
			for i := int64(1); i <= op.N; i++ {
				c := e.clone()
				c.key = fmt.Sprintf("m/n%d", i)
				o.m.add(c)
			}
			x.Hit("many")
		}
	case "renamedir":
		t.renamedir(o)
	case "delalias":
		want := o.m.find(op.A) != nil
		res, ok := t.do(fmt.Sprintf("return %s:delalias(%s)", n, t.arg(op.A)), "")
		x.Check(!ok || len(res) == 1 && res[0] == lua.LBool(want), "result", "%s gives %v", t.code, res)
		o.m.del(op.A)
	case "settag", "addtag", "deltag":
		t.tag1(o)
	case "settags", "addtags", "deltags":
		t.tags(o)
	case "query":
		t.query(o)
	}
	if x.is("handles") {
		want := 0
		for _, o := range t.objs {
			if o.open {
				want++
				if o.split {
					want++
				}
			}
		}
		n, what := x.held(nil)
		x.Check(n == want, "leak", "after %s there are %d handles and mappings, expected are %d: %s", t.code, n, want, what)
		x.misuse(t.code)
	}
	for _, o := range t.objs {
		t.check(o)
		if open := t.session(o); open != o.open {
			x.Fail("session", "after %s the package is open: %v", t.code, open)
		}
	}
	nf := 0
	for _, b := range o.hash {
		if b {
			nf++
		}
	}
	x.State(op.K, o.open, len(o.m.ents), len(o.m.info), nf > 0, o.autofid, o.automime, o.disk != nil && o.disk.how == 1, o.split)
}

func (t *luaRun) flag(o *luaObj) {
	op := t.op
	v := op.N%3 != 0
	switch k := int(op.M) % 11; k {
	case 8:
		t.do(fmt.Sprintf("%s.autofid = %v", o.name(), v), "")
		o.autofid = v
	case 9:
		t.do(fmt.Sprintf("%s.automime = %v", o.name(), v), "")
		o.automime = v
	case 10:
		o.secret = fmt.Sprintf("key%d", op.N%3)
		switch op.N % 7 {
		case 0:
			o.secret = ""
		case 1:
			o.secret += strings.Repeat("long key ", int(op.N%40))
		case 2:
			o.secret += "\x00"
		}
		t.do(fmt.Sprintf("%s.secret = %s", o.name(), lq(o.secret)), "")
	default:
		t.do(fmt.Sprintf("%s.%s = %v", o.name(), luaHashes[k].name, v), "")
		o.hash[k] = v
	}
	names := []string{"autofid", "automime", "secret"}
	var exprs []string
	var want []lua.LValue
	for i, h := range luaHashes {
		exprs = append(exprs, o.name()+"."+h.name)
		want = append(want, lua.LBool(o.hash[i]))
	}
	for i, s := range names {
		exprs = append(exprs, o.name()+"."+s)
		want = append(want, []lua.LValue{lua.LBool(o.autofid), lua.LBool(o.automime), lua.LString(o.secret)}[i])
	}
	code := t.code
	res, _ := t.do("return "+strings.Join(exprs, ","), "")
	for i := range want {
		if res[i] != want[i] {
			t.x.Fail("flag", "after %s, %s is %v", code, exprs[i], res[i])
		}
	}
}

// session1 opens, commits and closes packages.
func (t *luaRun) session1(o *luaObj) {
	x, op, n := t.x, t.op, t.op.K
	d := t.disks[int(op.N)%len(t.disks)]
	args := lq(d.path)
	if d.dat != "" {
		args += "," + lq(d.dat)
	}
	switch n {
	case "begin":
		if o.open {
			t.do(fmt.Sprintf("%s:begin(%s)", o.name(), args), "already open")
			return
		}
		if d.writer != nil {
			return
		}
		d.gen++
		d.how = 0
		if op.M&1 == 1 && op.M&2 == 2 { // a directory that is not there
			t.do(fmt.Sprintf("%s:begin(%s)", o.name(), lq("/work/nodir/x.wpk")), "no directory")
			return
		}
		if op.M&5 == 1 && d.dat != "" { // the data file can not be created
			t.do(fmt.Sprintf("%s:begin(%s,%s)", o.name(), lq(d.path), lq("/work/nodir/x.wpf")), "no directory")
			return
		}
		if _, ok := t.do(fmt.Sprintf("%s:begin(%s)", o.name(), args), ""); ok {
			info := o.m.info
			o.m = &model{info: info}
			o.disk, o.gen, o.open, o.split, o.mismatch = d, d.gen, true, d.dat != "", false
			o.known, o.size = true, 0
			d.writer = o
			if d.how = 2; o.split {
				d.how, d.m, d.state = 1, &model{info: map[uint16]string{}}, &snap{base: 1}
			}
			x.Hit("begin")
		}
	case "load":
		if o.open {
			t.do(fmt.Sprintf("%s:load(%s)", o.name(), args), "already open")
			return
		}
		mismatch := false
		if op.M&7 == 1 {
			mismatch = true
			args = lq(d.path)
			if d.dat == "" {
				args += "," + lq("/work/p1.wpf")
			}
		}
		if op.M&7 == 2 {
			t.do(fmt.Sprintf("%s:load(%s)", o.name(), lq("/work/src/0.bin")), "no package")
			return
		}
		if d.how == 0 {
			return
		}
		want := ""
		if d.how == 2 {
			want = "not finished"
		}
		if _, ok := t.do(fmt.Sprintf("%s:load(%s)", o.name(), args), want); ok {
			o.m = d.m.clone()
			o.disk, o.gen, o.split, o.mismatch = d, d.gen, d.dat != "", mismatch
			o.known, o.size = true, uint64(d.state.size)
			x.Hit("load")
		}
	case "append":
		if o.open {
			t.do(o.name()+":append()", "already open")
			return
		}
		if o.disk == nil {
			t.do(o.name()+":append()", "nothing loaded")
			return
		}
		if o.mismatch {
			if o.disk.writer == nil {
				t.do(o.name()+":append()", "data file does not fit")
				x.Hit("append-mismatch")
			}
			return
		}
		if o.gen != o.disk.gen || o.disk.writer != nil {
			return
		}
		if op.M&7 == 3 {
			file := o.disk.path
			if o.split && op.M>>3&1 == 1 {
				file = o.disk.dat
			}
			back := x.FS.Hide(file)
			t.do(o.name()+":append()", "the file is gone")
			back()
			x.Hit("append-gone")
			return
		}
		how := o.disk.how
		o.disk.how = 0
		if _, ok := t.do(o.name()+":append()", ""); ok {
			o.open = true
			o.disk.writer = o
			if o.disk.how = 2; o.split {
				o.disk.how = how
			}
			x.Hit("append")
		}
	case "flush":
		want := ""
		if !o.open {
			want = "closed"
		} else if !o.split {
			want = "single file"
		}
		if want == "" {
			o.disk.how = 0
		}
		if _, ok := t.do(o.name()+":flush()", want); ok {
			t.commit(o)
			x.Hit("flush")
		}
	case "finalize":
		want := ""
		if !o.open {
			want = "closed"
		} else {
			o.disk.how = 0
		}
		if _, ok := t.do(o.name()+":finalize()", want); ok {
			o.open = false
			o.disk.writer = nil
			o.disk.gen++
			o.gen = o.disk.gen
			t.commit(o)
			x.Hit("finalize")
		} else if want == "" {
			x.Hit("finalize-failed")
			if o.open = t.session(o); !o.open {
				o.disk.writer = nil
			}
		}
	}
}

func (t *luaRun) put(o *luaObj) {
	x, op, r := t.x, t.op, t.r
	key := op.A
	var data []byte
	src, tags := "", map[uint16]string{}
	want := ""
	if op.K == "putdata" {
		data = content(int64(x.P.Seed>>1)^int64(op.ID)<<20, int(op.N))
		if op.M&3 == 0 && len(data) > 16 {
			copy(data, "\x89PNG\r\n\x1a\n")
		}
		t.ls.SetGlobal("D", lua.LString(data))
	} else {
		src = t.srcs[int(op.N)%len(t.srcs)]
		data, _ = x.FS.Get(src)
		if in := x.FS.Look(src); in != nil && !in.IsDir() {
			at, mt := in.Times()
			i := 5
			fmt.Sscanf(src, "/work/src/%d.bin", &i)
			tags[uint16(wpk.TIDatime)], tags[uint16(wpk.TIDmtime)], tags[uint16(wpk.TIDctime)] = timeTag(at), timeTag(mt), timeTag(timeOf(&Op{ID: i}, 3))
		} else {
			want = "no source file"
		}
	}
	expr, args, bad := genLuaTable(r, int(op.M>>4)%6, op.M>>8&7 == 0)
	switch {
	case !o.open:
		want = "closed"
	case o.m.find(key) != nil:
		want = "exists"
	case bad:
		want = "wrong tag"
	}
	if o.automime {
		tags[uint16(wpk.TIDmime)] = luaMime(key, data)
	}
	for i, h := range luaHashes {
		if o.hash[i] {
			tags[h.tid] = luaHash(i, data, o.secret)
			x.Hit("hash")
		}
	}
	explicit := false
	for _, a := range args {
		tags[a.tid] = a.tag
		explicit = explicit || a.tid == 4
	}
	switch n := entLen(key, len(data), tags); {
	case n > 65535-32 && n < 65535+32:
		return // depends on the offset
	case n > 65535 && want == "":
		want = "too much"
		x.Hit("toomuch-" + op.K)
	}
	tail := "," + expr
	if len(args) == 0 && r.N(2) == 0 {
		tail = ""
	}
	code := fmt.Sprintf("%s:putdata(%s,D%s)", o.name(), t.arg(key), tail)
	if op.K == "putfile" {
		code = fmt.Sprintf("%s:putfile(%s,%s%s)", o.name(), t.arg(key), lq(src), tail)
	}
	if _, ok := t.do(code, want); !ok {
		if o.open {
			o.known = false
		}
		return
	}
	ts, ok := o.pkg.GetTagset(key)
	if !ok {
		x.Fail("table", "after %s there is no entry %q", t.code, key)
	}
	got, _, err := parseTags(ts)
	if err != nil {
		x.Fail("tags", "after %s: %v", t.code, err)
	}
	if o.autofid && !explicit {
		fid, ok := got[4]
		if !ok {
			x.Fail("fid", "after %s the file has no number", t.code)
		}
		for _, e := range o.m.ents {
			if f, ok := e.tags[4]; ok && uintOf(f) == uintOf(fid) {
				x.Fail("fid", "after %s the file has the number %d, as %q has", t.code, uintOf(fid), e.key)
			}
		}
		tags[4] = fid
		x.Hit("autofid")
	}
	o.m.add(&ment{key: key, tags: tags, blk: &block{size: len(data), data: data, off: uintOf(got[uint16(wpk.TIDoffset)])}})
	o.size += uint64(len(data))
	x.Hit(op.K)
}

func (t *luaRun) rename(o *luaObj) {
	x, op := t.x, t.op
	e, c := o.m.find(op.A), o.m.find(op.B)
	want := ""
	if e == nil {
		want = "missing"
	} else if c != nil {
		want = "exists"
	}
	if _, ok := t.do(fmt.Sprintf("%s:%s(%s,%s)", o.name(), op.K, t.arg(op.A), t.arg(op.B)), want); ok {
		n := e.clone()
		n.key = op.B
		if op.K == "rename" {
			o.m.del(op.A)
		}
		o.m.add(n)
		x.Hit(op.K)
	}
}

func (t *luaRun) renamedir(o *luaObj) {
	x, op := t.x, t.op
	old, neu := op.A+"/", op.B+"/"
	tail, skip := "", true
	switch op.N % 3 {
	case 1:
		tail = ",true"
	case 2:
		tail, skip = ",false", false
	}
	n := o.m.clone()
	cnt, conflict := 0, false
	for _, k := range o.m.order() {
		if !strings.HasPrefix(k, old) {
			continue
		}
		to := neu + k[len(old):]
		if n.find(to) != nil {
			conflict = true
			if !skip {
				break
			}
			continue
		}
		e := n.find(k).clone()
		n.del(k)
		e.key = to
		n.add(e)
		cnt++
	}
	want := ""
	if conflict && !skip {
		want = "exists"
	}
	res, ok := t.do(fmt.Sprintf("return %s:renamedir(%s,%s%s)", o.name(), lq(op.A), lq(op.B), tail), want)
	if ok {
		o.m = n
		if len(res) != 1 || res[0] != lua.LNumber(cnt) {
			x.Fail("result", "%s gives %v, %d files were renamed", t.code, res, cnt)
		}
		return
	}
	// nothing is renamed, or what precedes the conflict
	if cnt > 0 && o.pkg.HasTagset(n.ents[len(n.ents)-1].key) {
		o.m = n
	}
}

// toomuch tells that the file does not fit into the table with these tags.
func (t *luaRun) toomuch(o *luaObj, key string, args []luaArg) bool {
	e := o.m.find(key)
	ts, ok := o.pkg.GetTagset(key)
	if e == nil || !ok || strings.HasPrefix(t.op.K, "del") {
		return false
	}
	n := len(ts)
	for _, a := range args {
		old, had := e.tags[a.tid]
		switch {
		case !had:
			n += 4 + len(a.tag)
		case strings.HasPrefix(t.op.K, "set"):
			n += len(a.tag) - len(old)
		}
	}
	if n > 65535 {
		t.x.Hit("toomuch-" + t.op.K)
	}
	return n > 65535
}

func (t *luaRun) tag1(o *luaObj) {
	x, op, r := t.x, t.op, t.r
	e := o.m.find(op.A)
	bad := op.N%6 == 0
	a := genLuaArg(r, bad)
	if op.K == "deltag" {
		a = genLuaKey(r, bad)
	}
	want := ""
	if !a.bad() && op.K != "deltag" && luaType(a.tid) == ttStr && r.N(8) == 0 {
		k := simrt.Pick(r, 20000, 30000, 44000, 65400)
		a.val, a.tag = fmt.Sprintf(`string.rep("t",%d)`, k), strings.Repeat("t", k)
	}
	if a.bad() {
		want = "wrong tag"
	} else if e == nil {
		want = "missing"
	} else if t.toomuch(o, op.A, []luaArg{a}) {
		want = "too much"
	}
	code := fmt.Sprintf("return %s:%s(%s,%s", o.name(), op.K, t.arg(op.A), a.key)
	if op.K != "deltag" {
		code += "," + a.val
	}
	res, ok := t.do(code+")", want)
	if !ok {
		return
	}
	_, had := e.tags[a.tid]
	exp := !had
	switch op.K {
	case "settag":
		e.tags[a.tid] = a.tag
	case "addtag":
		if !had {
			e.tags[a.tid] = a.tag
		}
	case "deltag":
		exp = had
		delete(e.tags, a.tid)
	}
	if len(res) != 1 || res[0] != lua.LBool(exp) {
		x.Fail("result", "%s gives %v, expected %v", t.code, res, exp)
	}
	x.Hit(op.K)
}

func (t *luaRun) tags(o *luaObj) {
	x, op, r := t.x, t.op, t.r
	e := o.m.find(op.A)
	expr, args, bad := genLuaTable(r, 5, op.N%6 == 0)
	want := ""
	if op.K == "deltags" { // values do not matter
		bad = false
		for _, a := range args {
			bad = bad || a.badKey
		}
	}
	if bad {
		want = "wrong tag"
	} else if e == nil {
		want = "missing"
	} else if t.toomuch(o, op.A, args) {
		want = "too much"
	}
	res, ok := t.do(fmt.Sprintf("return %s:%s(%s,%s)", o.name(), op.K, t.arg(op.A), expr), want)
	if !ok {
		return
	}
	n := 0
	for _, a := range args {
		_, had := e.tags[a.tid]
		switch op.K {
		case "settags":
			e.tags[a.tid] = a.tag
		case "addtags":
			if !had {
				e.tags[a.tid] = a.tag
				n++
			}
		case "deltags":
			if had {
				delete(e.tags, a.tid)
				n++
			}
		}
	}
	if op.K == "settags" {
		x.Check(len(res) == 0, "result", "%s gives %v", t.code, res)
	} else if len(res) != 1 || res[0] != lua.LNumber(n) {
		x.Fail("result", "%s gives %v, expected %d", t.code, res, n)
	}
	x.Hit(op.K)
}

// luaValue is a tag as the script sees it.
func luaValue(tid uint16, tag string) (lua.LValue, bool) {
	switch luaType(tid) {
	case ttBin:
		return lua.LString(hex.EncodeToString([]byte(tag))), true
	case ttUint:
		switch len(tag) {
		case 1, 2, 4, 8:
			return lua.LNumber(uintOf(tag)), true
		}
		return nil, false
	case ttTime:
		var at time.Time
		switch len(tag) {
		case 8:
			at = time.UnixMilli(int64(uintOf(tag)))
		case 12:
			at = time.Unix(int64(uintOf(tag[:8])), int64(uintOf(tag[8:])))
		default:
			return nil, false
		}
		return lua.LString(at.UTC().Format("2006-01-02T15:04:05.999Z07:00")), true
	}
	return lua.LString(tag), true
}

func (t *luaRun) query(o *luaObj) {
	x, op, r := t.x, t.op, t.r
	e := o.m.find(op.A)
	want := ""
	if e == nil {
		want = "missing"
	}
	one := func(code, want string, v lua.LValue) {
		res, ok := t.do("return "+o.name()+code, want)
		if ok && (len(res) != 1 || res[0] != v) {
			x.Fail("result", "%s gives %v, expected %v", t.code, res, v)
		}
	}
	switch op.N % 17 {
	case 0:
		one(fmt.Sprintf(":hasfile(%s)", t.arg(op.A)), "", lua.LBool(e != nil))
	case 1:
		n := 0
		if e != nil {
			n = e.blk.size
		}
		one(fmt.Sprintf(":filesize(%s)", t.arg(op.A)), want, lua.LNumber(n))
	case 2:
		n := 0
		for _, e := range o.m.ents {
			n += e.blk.size
		}
		one(":sumsize()", "", lua.LNumber(n))
	case 3:
		one(".tagnum", "", lua.LNumber(len(o.m.ents)))
	case 4:
		if o.known && o.disk != nil {
			one(".datasize", "", lua.LNumber(o.size))
		}
	case 5:
		pat := simrt.Pick(r, "*", "*/*", "d/*", "[", "?", "*.txt", "d/e/*", "[a-f]*", "D/*.JPG", "\\")
		if o.m.find("m/n1") != nil && r.N(2) == 0 {
			pat = simrt.Pick(r, "m/*", "*/*", "m/n?*", "m/n*[0-7]")
		}
		var exp []string
		w := ""
		if _, err := path.Match(pat, ""); err != nil {
			w = "bad pattern"
		}
		for _, e := range o.m.ents {
			if ok, _ := path.Match(pat, e.key); ok {
				exp = append(exp, e.key)
			}
		}
		res, ok := t.do(fmt.Sprintf("return %s:glob(%s)", o.name(), lq(pat)), w)
		if ok && fmt.Sprint(res) != fmt.Sprint(exp) {
			x.Fail("result", "%s gives %v, expected %v", t.code, res, exp)
		}
	case 6:
		k := genLuaKey(r, op.M&7 == 0)
		if e != nil && len(e.tags) > 0 && r.N(2) == 0 && !k.badKey {
			for _, tg := range luaTags {
				if _, ok := e.tags[tg.tid]; ok {
					k = luaArg{key: lq(tg.name), tid: tg.tid}
					if r.N(3) == 0 {
						break
					}
				}
			}
		}
		w := want
		if k.badKey && k.key != "1" && k.key != "2" && k.key != "3" && k.key != `"offset"` && k.key != `"size"` && k.key != `"path"` {
			w = "wrong tag"
		} else if k.badKey {
			return
		}
		fn := "gettag"
		if op.M&8 != 0 {
			fn = "hastag"
		}
		var v lua.LValue = lua.LBool(false)
		has := false
		if e != nil && !k.badKey {
			var tag string
			if tag, has = e.tags[k.tid]; has {
				v = lua.LBool(true)
				if fn == "gettag" {
					ok := false
					if v, ok = luaValue(k.tid, tag); !ok {
						w = "value"
					}
				}
			}
		}
		res, ok := t.do(fmt.Sprintf("return %s:%s(%s,%s)", o.name(), fn, t.arg(op.A), k.key), w)
		if !ok {
			return
		}
		if fn == "gettag" && !has {
			x.Check(len(res) == 0 || len(res) == 1 && res[0] == lua.LNil, "result", "%s gives %v for a tag that the file does not have", t.code, res)
		} else if len(res) != 1 || res[0] != v {
			x.Fail("result", "%s gives %v, expected %v", t.code, res, v)
		}
	case 7, 8:
		code, tags := fmt.Sprintf(":gettags(%s)", t.arg(op.A)), map[uint16]string{}
		if op.N%17 == 8 {
			code, want = ":getinfo()", ""
			tags = o.m.info
		} else if e != nil {
			for k, v := range e.tags {
				tags[k] = v
			}
			tags[1], tags[2], tags[3] = uintTag(e.blk.off), uintTag(uint64(e.blk.size)), e.key
		}
		exp := map[uint16]lua.LValue{}
		for tid, tag := range tags {
			if op.N%17 == 8 && tid == 4 {
				continue
			}
			v, ok := luaValue(tid, tag)
			if !ok {
				want = "value"
			}
			exp[tid] = v
		}
		res, ok := t.do("return "+o.name()+code, want)
		if !ok {
			return
		}
		tb, _ := res[0].(*lua.LTable)
		if len(res) != 1 || tb == nil {
			x.Fail("result", "%s gives %v", t.code, res)
		}
		bad := ""
		tb.ForEach(func(k, v lua.LValue) {
			tid := uint16(0)
			if n, ok := k.(lua.LNumber); ok {
				tid = uint16(n)
			}
			for _, tg := range luaTags {
				if tg.name == k.String() {
					tid = tg.tid
				}
			}
			for i, s := range []string{"offset", "size", "path"} {
				if s == k.String() {
					tid = uint16(i + 1)
				}
			}
			if w, ok := exp[tid]; !ok || w != v {
				bad = fmt.Sprintf("%v = %v, expected %v", k, v, w)
			}
			delete(exp, tid)
		})
		if bad == "" && len(exp) > 0 {
			bad = fmt.Sprintf("%v is missing", exp)
		}
		x.Check(bad == "", "result", "%s: %s", t.code, bad)
	case 9:
		var v lua.LValue = lua.LNil
		if s, ok := o.m.info[uint16(wpk.TIDlabel)]; ok {
			v = lua.LString(s)
		}
		one(".label", "", v)
	case 10:
		src := t.srcs[int(op.M)%len(t.srcs)]
		in := x.FS.Look(src)
		res, err := t.exec(fmt.Sprintf("return checkfile(%s)", lq(src)))
		x.Check(err == nil, "spurious", "%s raises %v", t.code, err)
		switch {
		case t.hit() != "":
			x.Check(len(res) > 0 && res[0] == lua.LFalse, "result", "%s gives %v although %s failed", t.code, res, t.hit())
		case in == nil:
			x.Check(len(res) > 0 && res[0] == lua.LFalse, "result", "%s gives %v for a missing file", t.code, res)
		default:
			x.Check(len(res) == 2 && res[0] == lua.LTrue && res[1] == lua.LBool(!in.IsDir()), "result", "%s gives %v", t.code, res)
		}
	case 12: // the table of files, the package info and the end may be counted in
		n := 0
		(&wpk.Package{FTT: o.pkg.FTT, Workspace: "."}).Enum(func(_ string, ts wpk.TagsetRaw) bool {
			n += len(ts) + 2
			return true
		})
		res, ok := t.do("return "+o.name()+".fftsize", "")
		if ok {
			v, is := res[0].(lua.LNumber)
			x.Check(is && int(v) >= n && int(v) <= n+4+len(o.pkg.GetInfo()), "result", "%s gives %v, the table has %d bytes", t.code, res, n)
		}
	case 14: // as text
		res, ok := t.do("return tostring("+o.name()+")", "")
		if !ok {
			return
		}
		var files, links, size int
		fmt.Sscanf(res[0].String(), "files: %d, aliases: %d, datasize: %d", &files, &links, &size)
		lo, hi := o.blocks()
		exp := fmt.Sprintf("files: %d, aliases: %d, datasize: %d", files, len(o.m.ents)-files, o.pkg.DataSize())
		for _, l := range []struct {
			name string
			tid  wpk.TID
		}{{"label", wpk.TIDlabel}, {"link", wpk.TIDlink}, {"version", wpk.TIDversion}, {"author", wpk.TIDauthor}, {"comment", wpk.TIDcomment}} {
			if v, ok := o.m.info[uint16(l.tid)]; ok {
				exp += ", " + l.name + ": " + v
			}
		}
		x.Check(files >= lo && files <= hi && res[0] == lua.LString(exp), "result", "%s gives %v, expected %s with %d to %d files", t.code, res, exp, lo, hi)
		x.Hit("tostring")
	case 15: // what can not be set or called
		bad := simrt.Pick(r, "%s.datasize = 1", "%s.pkgpath = 'a'", "%s.recnum = 2", "%s.nosuch = 3", "%s.md5 = 'yes'", "%s.autofid = 1", "%s.autofid = nil", "%s.label = {}", "%s.label = nil", "%s.secret = {}",
			"%[1]s.gettag('a', 'mime', %[1]s)", "%s.sumsize(5)", "%s:hasfile({})", "%s:nosuch()", "%s:filesize()", "%s:settag('a')", "%s:putfile('a')", "%s:putdata('a')", "%s:rename('a')", "%s:settags('a', 5)", "%s:begin()", "%s:setupinfo('x')")
		t.do(fmt.Sprintf(bad, o.name()), "wrong argument")
		x.Hit("misuse")
	case 16:
		one(".nosuch", "", lua.LNil)
	case 13: // empty files may count as one with each other and with the next one
		lo, hi := o.blocks()
		res, ok := t.do("return "+o.name()+".recnum", "")
		if ok {
			v, is := res[0].(lua.LNumber)
			x.Check(is && int(v) >= lo && int(v) <= hi, "result", "%s gives %v, there are %d blocks", t.code, res, lo)
		}
	case 11:
		res, ok := t.do(`local l = path.enum("/work/src"); table.sort(l); return table.concat(l, " ")`, "")
		exp := "0.bin 1.bin 2.bin 3.bin 4.bin empty"
		x.Check(!ok || len(res) == 1 && res[0] == lua.LString(exp), "result", "%s gives %v", t.code, res)
	}
}

// finish lets the script end: everything that is open is finalized, and what
// was changed since is appended.
func (t *luaRun) finish() {
	x := t.x
	x.quiet++
	x.FS.Limited = false
	for i, o := range t.objs {
		t.r = simrt.NewRng(1)
		t.op = &Op{ID: 9000 + i, K: "finalize"}
		if !o.open && o.disk != nil && o.gen == o.disk.gen && !o.mismatch && o.disk.writer == nil {
			t.op = &Op{ID: 9100 + i, K: "append"}
			t.session1(o)
			t.op = &Op{ID: 9000 + i, K: "finalize"}
		}
		if !o.open {
			for j, d := range t.disks {
				if d.writer == nil {
					t.op = &Op{ID: 9200 + i, K: "begin", N: int64(j)}
					t.session1(o)
					t.op = &Op{ID: 9000 + i, K: "finalize"}
					break
				}
			}
		}
		if !o.open {
			x.Fail("stuck", "the script can not go on after %s", t.code)
		}
		t.session1(o)
		if o.open {
			x.Fail("stuck", "the final finalize leaves the package open")
		}
	}
	x.quiet--
}

func (t *luaRun) run() {
	for i := range t.x.P.Tasks[0] {
		op := &t.x.P.Tasks[0][i]
		if op.K == "die" {
			t.dying = t.shadow != nil
			continue
		}
		var pre []luaDisk
		from := len(t.x.FS.Journal)
		for _, d := range t.disks {
			pre = append(pre, *d)
		}
		t.step(op)
		if t.dying {
			t.dying = false
			t.die(pre, from)
		}
	}
	t.finish()
}

func luaOps(r *simrt.Rng, n int) (ops []Op) {
	w := weights("putdata", 8, "putfile", 6, "rename", 3, "putalias", 3, "renamedir", 2, "delalias", 2, "settag", 3, "addtag", 2, "deltag", 2, "settags", 2, "addtags", 2, "deltags", 2, "query", 5, "flag", 3, "label", 1, "setupinfo", 1, "flush", 2, "finalize", 2, "load", 1, "append", 1, "begin", 1, "new", 1)
	kinds := []string{"putdata", "putfile", "rename", "putalias", "renamedir", "delalias", "settag", "addtag", "deltag", "settags", "addtags", "deltags", "query", "flag", "label", "setupinfo", "flush", "finalize", "load", "append", "begin", "new"}
	var bag []string
	for _, k := range kinds {
		for i := w[k] * simrt.Pick(r, 0, 1, 1, 2); i > 0; i-- {
			bag = append(bag, k)
		}
	}
	bag = append(bag, "putdata", "putfile", "finalize")
	few := r.N(2) == 0
	var used []string
	name := func() string {
		if len(used) > 0 && r.N(2) == 0 {
			return used[r.N(len(used))]
		}
		if few {
			return luaNames[r.N(5)]
		}
		return luaNames[r.N(len(luaNames))]
	}
	pk := int64(r.N(4))
	mk := func(k string) Op {
		op := Op{K: k, N: int64(r.N(5040)), M: int64(r.N(1 << 17))}
		switch k {
		case "putdata":
			op.A, op.N = name(), pickSize(r)
			used = append(used, op.A)
		case "rename", "putalias":
			op.A, op.B = name(), name()
		case "renamedir":
			op.A, op.B = simrt.Pick(r, "d", "D", "f", "d/e"), simrt.Pick(r, "d", "D", "f", "g/h")
		case "begin", "load":
			if r.N(4) > 0 {
				op.N = pk
			}
			if r.N(4) > 0 {
				op.M &^= 7
			}
		case "query", "putfile", "delalias", "settag", "addtag", "deltag", "settags", "addtags", "deltags":
			op.A = name()
		}
		return op
	}
	for r.N(3) > 0 {
		ops = append(ops, mk("flag"))
	}
	ops = append(ops, mk("begin"))
	if r.N(4) == 0 { // a package with all the files
		few, n = false, n+8
		for _, k := range luaNames {
			if r.N(4) > 0 {
				op := mk("putdata")
				op.A, op.M = k, op.M&^0xfff|1<<8
				ops = append(ops, op)
				used = append(used, k)
			}
		}
	}
	if r.N(20) == 0 { // numbered files, written by one object and continued by another
		auto := Op{K: "flag", N: 1, M: 8}
		first := &ops[len(ops)-1]
		for i := range ops {
			if ops[i].K == "begin" {
				first = &ops[i]
			}
		}
		if first.K == "begin" {
			first.M &^= 7
		}
		ops = append(ops, auto)
		put := func(n int) {
			for ; n > 0; n-- {
				op := mk("putdata")
				op.A, op.M = luaNames[r.N(len(luaNames))], op.M&^0xfff|1<<8
				ops = append(ops, op)
			}
		}
		put(r.Range(2, 8))
		ops = append(ops, Op{K: "finalize"}, mk("new"), auto, Op{K: "load", N: first.N, M: first.M})
		if r.N(2) == 0 {
			ops[len(ops)-1], ops[len(ops)-2] = ops[len(ops)-2], ops[len(ops)-1]
		}
		ops = append(ops, Op{K: "append"})
		put(r.Range(1, 4))
	}
	for len(ops) < n {
		k := bag[r.N(len(bag))]
		ops = append(ops, mk(k))
		if k == "finalize" || k == "load" {
			if k == "finalize" && r.N(2) == 0 {
				if r.N(2) == 0 {
					ops = append(ops, mk("new"))
				}
				ops = append(ops, mk("load"))
			}
			if r.N(4) > 0 {
				ops = append(ops, mk(simrt.Pick(r, "append", "append", "append", "begin")))
			}
		}
	}
	return
}

// luaDeaths puts process deaths before operations that write.
func luaDeaths(r *simrt.Rng, ops []Op) (l []Op) {
	for left := r.Range(1, 3); len(ops) > 0; ops = ops[1:] {
		op := ops[0]
		p := 0
		switch op.K {
		case "flush", "finalize":
			p = 3
		case "append", "begin":
			p = 6
		case "putdata", "putfile":
			p = 12
		}
		if p == 0 || left == 0 || r.N(p) > 0 {
			l = append(l, op)
			continue
		}
		left--
		l = append(l, Op{K: "die"}, op)
		for _, k := range []string{"load", "append"} {
			n := Op{K: k, N: int64(r.N(4)), M: op.M &^ 7}
			for i := range l { // mostly the package that was written
				if l[i].K == "begin" && r.N(4) > 0 {
					n.N = l[i].N
				}
			}
			if k == "append" && r.N(6) == 0 {
				n.K = "begin"
			}
			l = append(l, n)
		}
	}
	return
}

func luaFaults(r *simrt.Rng) *FaultGen {
	g := &FaultGen{P: map[string]float64{}, Max: r.Range(1, 8), Short: simrt.Pick(r, 0, 0.3, 0.8)}
	for _, k := range []string{"open", "create", "read", "write", "seek", "stat", "close"} {
		g.P[k] = simrt.Pick(r, 0, 0.01, 0.05, 0.2)
	}
	return g
}

const realLua = "luawpk with the real Lua interpreter, wpk, util: all real code; the oracle computes tags, checksums and MIME types on its own"

func init() {
	register(&Prop{ID: "P17", Quick: 60000, Deep: 2400000, Real: realLua,
		Rule:    "one seeded Lua script of 4-50 steps over one or two package objects and four package paths in both layouts, each step protected, two of three with I/O faults (open, create, read, write, seek, stat, close failing or cut short); after every step table, info, session and results are compared with a model of the script, after every flush and finalize the package is read from disk; at the end the script finalizes without faults; non-trivial: at least one commit of a package with files",
		Trivial: func(x *Exec) bool { return x.Probes["commit-files"] == 0 },
		Gen: func(r *simrt.Rng, deep bool) *Plan {
			p := &Plan{Cfg: map[string]int64{"objs": 1}, Sched: seqSched(r)}
			if r.N(4) == 0 {
				p.Cfg["objs"] = 2
			}
			p.Cfg["die"] = int64(r.N(3) / 2)
			n := r.Range(4, 36)
			if deep && r.N(4) == 0 {
				n = r.Range(30, 90)
			}
			p.Tasks = [][]Op{luaOps(r, n)}
			if r.N(1500) == 0 {
				l := p.Tasks[0]
				k := r.N(len(l)/2 + 1)
				op := []Op{{K: "putdata", A: luaNames[0], N: 5, M: 1 << 8}, {K: "many", A: luaNames[0], N: int64(r.Range(100, 1200))}}
				for i := r.Range(1, 3); i > 0; i-- {
					op = append(op, Op{K: "query", A: luaNames[0], N: 5 + 17*int64(r.N(300)), M: int64(r.N(1 << 17))})
				}
				if len(l) > k+8 {
					l = l[:k+8]
				}
				p.Tasks[0] = append(append(append([]Op{}, l[:k]...), op...), l[k:]...)
			}
			if p.Cfg["die"] != 0 {
				p.Tasks[0] = luaDeaths(r, p.Tasks[0])
			}
			if r.N(3) > 0 {
				p.Gen = luaFaults(r)
				pickSpace(r, p)
			}
			return p
		},
		Run: func(x *Exec) { newLuaRun(x).run() },
	})
}
