// Command wpkinstr rewrites the Go sources of a module so that every source of
// nondeterminism goes through the simulator's packages, and writes an overlay
// file for "go build -overlay". The sources themselves are left untouched.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

const kit = "wpkverif/"

// packages replaced by the simulator's own.
var importMap = map[string]string{
	"os":                        kit + "simos",
	"sync":                      kit + "simsync",
	"sync/atomic":               kit + "simatomic",
	"path/filepath":             kit + "simfilepath",
	"io/ioutil":                 kit + "simioutil",
	"log":                       kit + "simlog",
	"github.com/edsrzf/mmap-go": kit + "simmmap",
}

var pkgName = map[string]string{
	"os": "os", "sync": "sync", "sync/atomic": "atomic", "path/filepath": "filepath",
	"io/ioutil": "ioutil", "log": "log", "github.com/edsrzf/mmap-go": "mmap",
}

type edit struct {
	pos, end int
	text     string
	seq      int
}

type site struct {
	File string `json:"f"`
	Line int    `json:"l"`
	Func string `json:"fn"`
}

var sites []site

type rewriter struct {
	fset   *token.FileSet
	info   *types.Info
	sizes  types.Sizes
	src    []byte
	file   *token.File
	edits  []edit
	rel    string
	fn     string
	module string
	light  bool              // only imports and map iteration
	rt     bool              // the simrt import is needed
	comm   map[ast.Node]bool // operations of select statements
}

func (w *rewriter) off(p token.Pos) int { return w.file.Offset(p) }
func (w *rewriter) text(n ast.Node) string {
	return string(w.src[w.off(n.Pos()):w.off(n.End())])
}

// edited gives the text of a node with the edits made to it.
func (w *rewriter) edited(n ast.Node) string {
	a, b := w.off(n.Pos()), w.off(n.End())
	var l []edit
	for _, e := range w.edits {
		if e.pos >= a && e.end <= b {
			e.pos -= a
			e.end -= a
			l = append(l, e)
		}
	}
	return string(apply(w.src[a:b], l))
}

func (w *rewriter) ins(p token.Pos, s string) { w.repl(p, p, s) }
func (w *rewriter) repl(a, b token.Pos, s string) {
	w.edits = append(w.edits, edit{w.off(a), w.off(b), s, len(w.edits)})
}

func (w *rewriter) site(p token.Pos) int {
	sites = append(sites, site{w.rel, w.file.Line(p), w.fn})
	return len(sites) - 1
}

func (w *rewriter) yield(p token.Pos) {
	w.rt = true
	w.ins(p, fmt.Sprintf("simrt.Y(%d); ", w.site(p)))
}

func (w *rewriter) list(l []ast.Stmt) {
	for _, s := range l {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		w.yield(s.Pos())
		w.accesses(s)
	}
}

// accesses notes the memory a statement reads and writes, as far as other
// tasks can reach it and the access is certain to be made.
func (w *rewriter) accesses(s ast.Stmt) {
	site := len(sites) - 1
	var out []string
	seen := map[string]bool{}
	emit := func(fn string, e ast.Expr, addr string) {
		own := false // uses a variable the statement itself declares
		ast.Inspect(e, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if o := w.info.ObjectOf(id); o != nil && o.Pos() >= s.Pos() && o.Pos() < s.End() {
					own = true
				}
			}
			return true
		})
		t := fmt.Sprintf("simrt.%s(%d, %s%s)", fn, site, addr, w.text(e))
		if own || seen[t] {
			return
		}
		seen[t] = true
		out = append(out, t)
	}
	var read, parts func(e ast.Expr)
	write := func(e ast.Expr) {
		for {
			p, ok := e.(*ast.ParenExpr)
			if !ok {
				break
			}
			e = p.X
		}
		if ix, ok := e.(*ast.IndexExpr); ok {
			if _, ok := w.under(ix.X).(*types.Map); ok {
				read(ix.X)
				read(ix.Index)
				if w.plain(ix.X) {
					emit("WrM", ix.X, "")
				}
				return
			}
		}
		parts(e)
		if w.reachable(e) {
			emit("Wr", e, "&")
		}
	}
	// parts reads what is needed to find the variable e
	parts = func(e ast.Expr) {
		switch x := e.(type) {
		case *ast.SelectorExpr:
			if sel := w.info.Selections[x]; sel == nil {
				return // qualified name
			}
			if _, ok := w.under(x.X).(*types.Pointer); ok {
				read(x.X)
			} else {
				parts(x.X)
			}
		case *ast.IndexExpr:
			if w.under(x.X) == nil {
				return
			}
			if _, ok := w.under(x.X).(*types.Array); ok {
				parts(x.X)
			} else {
				read(x.X)
			}
			read(x.Index)
		case *ast.StarExpr:
			read(x.X)
		case *ast.ParenExpr:
			parts(x.X)
		case *ast.Ident:
		default:
			read(e)
		}
	}
	read = func(e ast.Expr) {
		if e == nil {
			return
		}
		if tv, ok := w.info.Types[e]; ok && (tv.IsType() || tv.IsNil() || tv.Value != nil) {
			return
		}
		switch x := e.(type) {
		case *ast.ParenExpr:
			read(x.X)
		case *ast.BinaryExpr:
			read(x.X)
			if x.Op != token.LAND && x.Op != token.LOR {
				read(x.Y)
			}
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				parts(x.X)
			} else {
				read(x.X)
			}
		case *ast.KeyValueExpr:
			read(x.Value)
		case *ast.CompositeLit:
			for _, el := range x.Elts {
				read(el)
			}
		case *ast.TypeAssertExpr:
			read(x.X)
		case *ast.SliceExpr:
			if _, ok := w.under(x.X).(*types.Array); ok {
				parts(x.X)
			} else {
				read(x.X)
			}
			for _, i := range []ast.Expr{x.Low, x.High, x.Max} {
				if i != nil {
					read(i)
				}
			}
		case *ast.CallExpr:
			w.callee(x, read, parts)
			if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) > 0 {
				if _, ok := w.info.Uses[id].(*types.Builtin); ok && (id.Name == "delete" || id.Name == "clear") {
					if _, ok := w.under(x.Args[0]).(*types.Map); ok && w.plain(x.Args[0]) {
						emit("WrM", x.Args[0], "")
					}
				}
			}
			for _, a := range x.Args {
				read(a)
			}
		case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr, *ast.Ident:
			if ix, ok := e.(*ast.IndexExpr); ok {
				if _, ok := w.under(ix.X).(*types.Map); ok {
					read(ix.X)
					read(ix.Index)
					if w.plain(ix.X) {
						emit("RdM", ix.X, "")
					}
					return
				}
			}
			parts(e)
			if w.reachable(e) {
				emit("Rd", e, "&")
			}
		}
	}
	var stmt func(s ast.Stmt)
	stmt = func(s ast.Stmt) {
		switch x := s.(type) {
		case *ast.ExprStmt:
			read(x.X)
		case *ast.AssignStmt:
			for _, r := range x.Rhs {
				read(r)
			}
			for _, l := range x.Lhs {
				if x.Tok == token.DEFINE {
					break
				}
				if x.Tok != token.ASSIGN {
					read(l)
				}
				write(l)
			}
		case *ast.IncDecStmt:
			read(x.X)
			write(x.X)
		case *ast.DeclStmt:
			if d, ok := x.Decl.(*ast.GenDecl); ok && d.Tok == token.VAR {
				for _, sp := range d.Specs {
					for _, v := range sp.(*ast.ValueSpec).Values {
						read(v)
					}
				}
			}
		case *ast.ReturnStmt:
			for _, r := range x.Results {
				read(r)
			}
		case *ast.IfStmt:
			if x.Init != nil {
				stmt(x.Init)
			}
			read(x.Cond)
		case *ast.ForStmt:
			if x.Init != nil {
				stmt(x.Init)
			}
			if x.Cond != nil {
				read(x.Cond)
			}
		case *ast.RangeStmt:
			read(x.X)
			if _, ok := w.under(x.X).(*types.Map); ok && w.plain(x.X) {
				emit("RdM", x.X, "")
			}
		case *ast.SwitchStmt:
			if x.Init != nil {
				stmt(x.Init)
			}
			if x.Tag != nil {
				read(x.Tag)
			}
		case *ast.TypeSwitchStmt:
			if x.Init != nil {
				stmt(x.Init)
			}
			stmt(x.Assign)
		case *ast.DeferStmt:
			read(x.Call)
		case *ast.GoStmt:
			read(x.Call)
		case *ast.LabeledStmt:
			stmt(x.Stmt)
		}
	}
	stmt(s)
	if len(out) > 0 {
		w.ins(s.Pos(), "if simrt.RaceOn { simrt.Look(func() { "+strings.Join(out, "; ")+" }) }; ")
	}
}

// callee notes what finding the function of a call reads.
func (w *rewriter) callee(x *ast.CallExpr, read, parts func(ast.Expr)) {
	switch f := x.Fun.(type) {
	case *ast.SelectorExpr:
		sel := w.info.Selections[f]
		if sel == nil {
			return
		}
		if sel.Kind() == types.FieldVal {
			read(f)
			return
		}
		fn, ok := sel.Obj().(*types.Func)
		if !ok {
			return
		}
		recv := fn.Type().(*types.Signature).Recv()
		_, viaPtr := w.under(f.X).(*types.Pointer)
		if _, ptr := recv.Type().Underlying().(*types.Pointer); ptr && !viaPtr {
			parts(f.X) // the address of the variable is taken
		} else if ptr || viaPtr || len(sel.Index()) == 1 {
			read(f.X)
		} else {
			parts(f.X) // method of an embedded field
		}
	case *ast.CallExpr, *ast.ParenExpr, *ast.IndexExpr:
		read(f)
	}
}

func (w *rewriter) under(e ast.Expr) types.Type {
	t := w.info.TypeOf(e)
	if t == nil {
		return nil
	}
	return t.Underlying()
}

// plain tells whether evaluating e once more has no effect and can not fail
// when the statement that contains it does not fail.
func (w *rewriter) plain(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case nil:
		case *ast.Ident, *ast.BasicLit, *ast.SelectorExpr, *ast.StarExpr, *ast.ParenExpr:
		case *ast.BinaryExpr:
			if x.Op == token.LAND || x.Op == token.LOR || x.Op == token.QUO || x.Op == token.REM {
				ok = false
			}
		case *ast.IndexExpr:
			switch w.under(x.X).(type) {
			case *types.Slice, *types.Array, *types.Pointer:
			default:
				ok = false
			}
		case *ast.CallExpr:
			id, is := x.Fun.(*ast.Ident)
			if !is || id.Name != "len" {
				ok = false
			} else if _, is := w.info.Uses[id].(*types.Builtin); !is {
				ok = false
			}
		default:
			ok = false
		}
		return ok
	})
	return ok
}

// reachable tells whether e is a variable that other tasks may know.
func (w *rewriter) reachable(e ast.Expr) bool {
	if !w.plain(e) {
		return false
	}
	t := w.info.TypeOf(e)
	if t == nil {
		return false
	}
	if _, ok := t.Underlying().(*types.Signature); ok {
		if _, ok := e.(*ast.SelectorExpr); ok && w.info.Selections[e.(*ast.SelectorExpr)] != nil && w.info.Selections[e.(*ast.SelectorExpr)].Kind() != types.FieldVal {
			return false
		}
	}
	for p := t; p != nil; {
		if n, ok := p.(*types.Named); ok && n.Obj().Pkg() != nil {
			switch n.Obj().Pkg().Path() {
			case "sync", "sync/atomic":
				return false
			}
		}
		break
	}
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
		case *ast.StarExpr:
			return true
		case *ast.SelectorExpr:
			sel := w.info.Selections[x]
			if sel == nil { // variable of another package
				_, ok := w.info.Uses[x.Sel].(*types.Var)
				return ok && w.mine(w.info.Uses[x.Sel])
			}
			if sel.Kind() != types.FieldVal {
				return false
			}
			if _, ok := w.under(x.X).(*types.Pointer); ok || sel.Indirect() {
				return true
			}
			e = x.X
		case *ast.IndexExpr:
			switch w.under(x.X).(type) {
			case *types.Slice, *types.Pointer:
				return true
			case *types.Array:
				e = x.X
			default:
				return false
			}
		case *ast.Ident:
			v, ok := w.info.Uses[x].(*types.Var)
			return ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
		default:
			return false
		}
	}
}

// mine tells whether an object belongs to the instrumented module.
func (w *rewriter) mine(o types.Object) bool {
	return o.Pkg() != nil && strings.HasPrefix(o.Pkg().Path(), w.module)
}

func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.UnaryExpr:
			ok = false
		}
		return ok
	})
	return ok
}

func (w *rewriter) shared(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return w.shared(x.X)
	case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
		return pure(e)
	case *ast.Ident: // package level variables
		o := w.info.Uses[x]
		return o != nil && o.Pkg() != nil && o.Parent() == o.Pkg().Scope()
	}
	return false
}

func (w *rewriter) node(n ast.Node) bool {
	switch x := n.(type) {
	case *ast.FuncDecl:
		w.fn = x.Name.Name
	case *ast.BlockStmt:
		if !w.light {
			w.list(x.List)
		}
	case *ast.CaseClause:
		if !w.light {
			w.list(x.Body)
		}
	case *ast.CommClause:
		if !w.light {
			w.list(x.Body)
		}
	case *ast.ForStmt:
		if !w.light && len(x.Body.List) == 0 {
			w.yield(x.Body.Rbrace)
		}
	case *ast.RangeStmt:
		w.rangeStmt(x)
	case *ast.AssignStmt:
		if w.light {
			break
		}
		if x.Tok != token.ASSIGN && x.Tok != token.DEFINE && len(x.Lhs) == 1 && w.shared(x.Lhs[0]) {
			op := strings.TrimSuffix(x.Tok.String(), "=")
			w.rt = true
			l := w.text(x.Lhs[0])
			// keep the right side where it is so that edits inside it still apply
			w.repl(x.TokPos, x.TokPos+token.Pos(len(x.Tok.String())), "= simrt.Split("+l+") "+op+" (")
			w.ins(x.End(), ")")
		}
	case *ast.IncDecStmt:
		if w.light {
			break
		}
		if w.shared(x.X) {
			w.rt = true
			op := "+"
			if x.Tok == token.DEC {
				op = "-"
			}
			w.repl(x.TokPos, x.TokPos+2, "= simrt.Split("+w.text(x.X)+") "+op+" 1")
		}
	case *ast.GoStmt:
		w.goStmt(x)
	case *ast.CallExpr:
		w.call(x)
	case *ast.SendStmt:
		if w.comm[x] || w.light {
			break
		}
		w.rt = true
		w.ins(x.Pos(), "simrt.Send(")
		w.repl(x.Arrow, x.Arrow+2, ",")
		w.ins(x.End(), ")")
	case *ast.UnaryExpr:
		if x.Op != token.ARROW || w.comm[x] || w.light {
			break
		}
		w.rt = true
		fn := "Recv"
		if t, ok := w.info.TypeOf(x).(*types.Tuple); ok && t.Len() == 2 {
			fn = "Recv2"
		}
		w.repl(x.OpPos, x.OpPos+2, "simrt."+fn+"(")
		w.ins(x.End(), ")")
	case *ast.SelectStmt:
		w.selectStmt(x)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if pn, ok := w.info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "runtime" && x.Sel.Name == "Gosched" {
				w.rt = true
				w.repl(id.Pos(), id.End(), "simrt")
			} else if ok && pn.Imported().Path() == "math/rand" {
				if f, ok := w.info.Uses[x.Sel].(*types.Func); ok && !strings.HasPrefix(f.Name(), "New") {
					w.rt = true
					w.repl(id.Pos(), id.End(), "simrt.Rand()")
				}
			} else if ok && pn.Imported().Path() == "time" {
				switch x.Sel.Name {
				case "Now", "Sleep", "Since", "Until", "After":
					w.rt = true
					w.repl(id.Pos(), id.End(), "simrt")
				}
			}
		}
	}
	return true
}

func (w *rewriter) rangeStmt(x *ast.RangeStmt) {
	t := w.info.TypeOf(x.X)
	if t == nil {
		return
	}
	if !w.light && len(x.Body.List) == 0 {
		w.yield(x.Body.Rbrace)
	}
	if _, ok := t.Underlying().(*types.Chan); ok && !w.light {
		w.rt = true
		w.repl(x.For, x.X.Pos(), "for simCh := ")
		w.ins(x.X.End(), "; ; ")
		key := "_"
		if id, ok := x.Key.(*ast.Ident); x.Key != nil && (!ok || id.Name != "_") {
			key = w.text(x.Key)
		}
		if x.Tok == token.ASSIGN && key != "_" {
			w.ins(x.Body.Lbrace+1, " simV, simOk := simrt.Recv2(simCh); if !simOk { break }; "+key+" = simV; ")
		} else {
			w.ins(x.Body.Lbrace+1, " "+key+", simOk := simrt.Recv2(simCh); if !simOk { break }; ")
		}
		return
	}
	if _, ok := t.Underlying().(*types.Map); !ok {
		return
	}
	w.rt = true
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	head := "for _, simIt := range simrt.Map("
	w.repl(x.For, x.X.Pos(), head)
	w.ins(x.X.End(), ")")
	body := " if !simIt.Has() { continue }; "
	tok := x.Tok.String()
	if !blank(x.Key) {
		body += w.text(x.Key) + " " + tok + " simIt.K; "
	}
	if !blank(x.Value) {
		body += w.text(x.Value) + " " + tok + " simIt.Val(); "
	}
	w.ins(x.Body.Lbrace+1, body)
}

// selectStmt makes a switch over the outcome of simrt.Select.
func (w *rewriter) selectStmt(x *ast.SelectStmt) {
	if w.light {
		return
	}
	w.rt = true
	block := true
	var cases []string
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		colon := cc.Colon
		at := len(cases)
		unarrow := func(e ast.Expr) *ast.UnaryExpr {
			for {
				p, ok := e.(*ast.ParenExpr)
				if !ok {
					return e.(*ast.UnaryExpr)
				}
				e = p.X
			}
		}
		switch s := cc.Comm.(type) {
		case nil:
			block = false
		case *ast.SendStmt:
			w.comm[s] = true
			cases = append(cases, "simrt.SendCase("+w.text(s.Chan)+", "+w.text(s.Value)+")")
			w.repl(cc.Case, colon, fmt.Sprintf("case %d", at))
		case *ast.ExprStmt:
			u := unarrow(s.X)
			w.comm[u] = true
			cases = append(cases, "simrt.RecvCase("+w.text(u.X)+")")
			w.repl(cc.Case, colon, fmt.Sprintf("case %d", at))
		case *ast.AssignStmt:
			u := unarrow(s.Rhs[0])
			w.comm[u] = true
			cases = append(cases, "simrt.RecvCase("+w.text(u.X)+")")
			w.repl(cc.Case, colon, fmt.Sprintf("case %d", at))
			fn, l := "Got1", w.text(s.Lhs[0])
			if len(s.Lhs) == 2 {
				fn, l = "Got", l+", "+w.text(s.Lhs[1])
			}
			w.ins(colon+1, " "+l+" "+s.Tok.String()+" simrt."+fn+"("+w.text(u.X)+", simS); ")
		}
	}
	if block {
		w.ins(x.Body.Rbrace, "default: panic(\"select\") ")
	}
	list := ""
	for _, c := range cases {
		list += ", " + c
	}
	w.repl(x.Select, x.Body.Lbrace, fmt.Sprintf("switch simS := simrt.Select(%v%s); simS.I ", block, list))
}

func (w *rewriter) goStmt(x *ast.GoStmt) {
	if w.light {
		return
	}
	w.rt = true
	if len(x.Call.Args) == 0 {
		w.repl(x.Go, x.Call.Pos(), "simrt.GoApp(func() { ")
		w.ins(x.Call.End(), " })")
		return
	}
	// evaluate the arguments now, run the call later
	pre := "{ "
	var names []string
	for i, a := range x.Call.Args {
		if tv, ok := w.info.Types[a]; ok && (tv.IsNil() || tv.Value != nil) {
			names = append(names, w.text(a))
			continue
		}
		nm := fmt.Sprintf("simA%d", i)
		pre += nm + " := " + w.text(a) + "; "
		names = append(names, nm)
	}
	if _, lit := x.Call.Fun.(*ast.FuncLit); lit {
		w.repl(x.Go, x.Call.Pos(), pre+"simrt.GoApp(func() { ")
	} else {
		pre += "simF := " + w.text(x.Call.Fun) + "; "
		w.repl(x.Go, x.Call.Fun.End(), pre+"simrt.GoApp(func() { simF")
	}
	ell := ""
	if x.Call.Ellipsis.IsValid() {
		ell = "..."
	}
	w.repl(x.Call.Lparen, x.Call.End(), "("+strings.Join(names, ", ")+ell+") }) }")
}

func (w *rewriter) call(x *ast.CallExpr) {
	if w.light {
		return
	}
	id, ok := x.Fun.(*ast.Ident)
	if !ok {
		return
	}
	if _, ok := w.info.Uses[id].(*types.Builtin); !ok {
		return
	}
	isChan := func() bool {
		_, ok := w.under(x.Args[0]).(*types.Chan)
		return ok
	}
	switch {
	case id.Name == "close":
		w.rt = true
		w.repl(id.Pos(), id.End(), "simrt.Close")
		return
	case id.Name == "len" && isChan():
		w.rt = true
		w.repl(id.Pos(), id.End(), "simrt.ChanLen")
		return
	case id.Name == "make" && isChan():
		w.rt = true
		w.ins(x.Pos(), "simrt.MakeChan(")
		w.ins(x.End(), ")")
		return
	case id.Name != "make" || len(x.Args) < 2:
		return
	}
	t := w.info.TypeOf(x.Args[0])
	if t == nil {
		return
	}
	var sz int64 = 8
	switch u := t.Underlying().(type) {
	case *types.Slice:
		sz = w.sizeof(u.Elem())
	case *types.Map:
		sz = w.sizeof(u.Key()) + w.sizeof(u.Elem())
	default:
		return
	}
	for _, a := range x.Args[1:] {
		if tv, ok := w.info.Types[a]; ok && tv.Value != nil && tv.Value.Kind() == constant.Int {
			continue
		}
		w.rt = true
		w.ins(a.Pos(), "simrt.AL(")
		w.ins(a.End(), fmt.Sprintf(", %d)", sz))
	}
}

func (w *rewriter) sizeof(t types.Type) (n int64) {
	defer func() {
		if recover() != nil {
			n = 8
		}
	}()
	if _, ok := t.(*types.TypeParam); ok {
		return 8
	}
	n = w.sizes.Sizeof(t)
	if n < 1 {
		n = 1
	}
	return
}

func apply(src []byte, edits []edit) []byte {
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].pos != edits[j].pos {
			return edits[i].pos < edits[j].pos
		}
		// insertions before replacements at the same place; outer insertions first
		ri, rj := edits[i].end > edits[i].pos, edits[j].end > edits[j].pos
		if ri != rj {
			return !ri
		}
		return edits[i].seq < edits[j].seq
	})
	var out bytes.Buffer
	at := 0
	for _, e := range edits {
		if e.pos < at {
			continue // inside a region that was replaced as a whole
		}
		out.Write(src[at:e.pos])
		out.WriteString(e.text)
		at = e.end
	}
	out.Write(src[at:])
	return out.Bytes()
}

func fatal(a ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"wpkinstr:"}, a...)...)
	os.Exit(3)
}

func (w *rewriter) run(f *ast.File, imports map[string]string, mainPkg string, pkg *types.Package, ri *resetInfo) []byte {
	for _, d := range f.Decls {
		w.fn = ""
		ast.Inspect(d, w.node)
	}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if np, ok := imports[p]; ok {
			name := pkgName[p] + " "
			if im.Name != nil {
				name = ""
			}
			w.repl(im.Path.Pos(), im.Path.End(), name+strconv.Quote(np))
		}
	}
	tail := ""
	if mainPkg != "" {
		w.repl(f.Name.Pos(), f.Name.End(), mainPkg)
		reset := ""
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name == "main" {
					w.repl(d.Name.Pos(), d.Name.End(), "SimMain")
				}
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, sp := range d.Specs {
					vs := sp.(*ast.ValueSpec)
					var names []string
					for _, n := range vs.Names {
						names = append(names, n.Name)
					}
					if len(vs.Values) > 0 {
						reset += strings.Join(names, ", ") + " = "
						for i, v := range vs.Values {
							if i > 0 {
								reset += ", "
							}
							reset += w.edited(v)
						}
						reset += "; "
					} else {
						for _, n := range names {
							if n != "_" {
								reset += "{ var z " + w.text(vs.Type) + "; " + n + " = z }; "
							}
						}
					}
				}
			}
		}
		tail += fmt.Sprintf("\nfunc init() { simrt.OnReset(%q, func() { %s }) }\n", mainPkg, reset)
		w.rt = true
	} else {
		tail += w.resets(f, pkg, ri)
	}
	if w.rt {
		w.ins(f.Name.End(), "; import simrt \""+kit+"simrt\"")
	}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if use := map[string]string{"time": "Unix", "runtime": "Gosched", "math/rand": "New"}[p]; use != "" && (im.Name == nil || im.Name.Name != "_") {
			n := p[strings.LastIndexByte(p, '/')+1:]
			if im.Name != nil {
				n = im.Name.Name
			}
			if n != "." {
				tail += "\nvar _ = " + n + "." + use + "\n"
			}
		}
	}
	out := apply(w.src, w.edits)
	return append(out, tail...)
}

func main() {
	repo := flag.String("repo", "/repo", "module to instrument")
	out := flag.String("out", "", "output directory")
	luaSrc := flag.String("lua", "", "directory of the gopher-lua module")
	flag.Parse()

	gen := filepath.Join(*out, "gen")
	os.RemoveAll(gen)
	overlay := map[string]string{}

	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedSyntax |
			packages.NeedTypes | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedImports | packages.NeedModule,
		Dir:  *repo,
		Fset: token.NewFileSet(),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		fatal(err)
	}
	bad := false
	for _, p := range pkgs {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, "wpkinstr:", e)
			bad = true
		}
	}
	if bad {
		os.Exit(3)
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	ri := findResets(pkgs)
	for _, p := range pkgs {
		for i, f := range p.Syntax {
			path := p.CompiledGoFiles[i]
			rel, err := filepath.Rel(*repo, path)
			if err != nil || strings.HasPrefix(rel, "..") {
				fatal("file outside the module:", path)
			}
			src, err := os.ReadFile(path)
			if err != nil {
				fatal(err)
			}
			w := &rewriter{fset: p.Fset, info: p.TypesInfo, sizes: p.TypesSizes, src: src, file: p.Fset.File(f.Pos()), rel: rel, module: p.Module.Path, comm: map[ast.Node]bool{}}
			mainPkg := ""
			if p.Name == "main" {
				mainPkg = "cmd" + filepath.Base(filepath.Dir(path))
			}
			res := w.run(f, importMap, mainPkg, p.Types, ri)
			dst := filepath.Join(gen, rel)
			if err := os.MkdirAll(filepath.Dir(dst), 0755); err != nil {
				fatal(err)
			}
			if _, err := parser.ParseFile(token.NewFileSet(), dst, res, 0); err != nil {
				os.WriteFile(dst, res, 0644)
				fatal("rewritten source does not parse:", err)
			}
			if err := os.WriteFile(dst, res, 0644); err != nil {
				fatal(err)
			}
			overlay[path] = dst
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0644); err != nil {
		fatal(err)
	}
	b, _ = json.Marshal(sites)
	if err := os.WriteFile(filepath.Join(*out, "sites.json"), b, 0644); err != nil {
		fatal(err)
	}

	if *luaSrc != "" {
		lua(*luaSrc, filepath.Join(*out, "gopher-lua"))
	}
}

// lua copies gopher-lua and puts its file access and map iteration behind the
// simulator (the Lua interpreter itself stays as it is).
func lua(src, dst string) {
	os.RemoveAll(dst)
	files, err := filepath.Glob(filepath.Join(src, "*.go"))
	if err != nil {
		fatal(err)
	}
	more, _ := filepath.Glob(filepath.Join(src, "*", "*.go"))
	files = append(files, more...)
	files = append(files, filepath.Join(src, "go.mod"))
	for _, f := range files {
		rel, _ := filepath.Rel(src, f)
		if strings.HasSuffix(f, "_test.go") || strings.HasPrefix(rel, "cmd") || strings.HasPrefix(rel, "_") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			fatal(err)
		}
		switch rel {
		case "go.mod":
			b = bytes.Replace(b, []byte("\ngo 1.17\n"), []byte("\ngo 1.20\n"), 1)
		case "auxlib.go":
			n := bytes.Replace(b, []byte("\t\"os\"\n"), []byte("\tos \""+kit+"simos\"\n"), 1)
			if bytes.Equal(n, b) {
				fatal("gopher-lua auxlib.go has an unexpected form")
			}
			b = n
		case "table.go":
			s := string(b)
			for _, m := range []string{"tb.strdict", "tb.dict"} {
				old := "for k, v := range " + m + " {"
				if !strings.Contains(s, old) {
					fatal("gopher-lua table.go has an unexpected form")
				}
				s = strings.ReplaceAll(s, old, "for _, simIt := range simrt.Map("+m+") { k, v := simIt.K, simIt.Val()")
			}
			s = strings.Replace(s, "package lua\n", "package lua\n\nimport simrt \""+kit+"simrt\"\n", 1)
			b = []byte(s)
		}
		to := filepath.Join(dst, rel)
		os.MkdirAll(filepath.Dir(to), 0755)
		if err := os.WriteFile(to, b, 0644); err != nil {
			fatal(err)
		}
	}
}
