package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/packages"
)

// Package variables that the module changes after its initialisation carry
// state from one simulated execution to the next one, which a process that
// starts anew does not have. Such variables get their initial values back
// before each execution.

func varKey(v *types.Var) string { return v.Pkg().Path() + "." + v.Name() }

func pkgVar(o types.Object) *types.Var {
	if v, ok := o.(*types.Var); ok && !v.IsField() && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
		return v
	}
	return nil
}

// fixedType reports that values of a type can not be changed in place.
func fixedType(t types.Type, depth int) bool {
	if depth > 4 {
		return false
	}
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		return true
	}
	if tu, ok := t.(*types.Tuple); ok { // with the comma-ok form
		return tu.Len() > 0 && fixedType(tu.At(0).Type(), depth)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic, *types.Signature:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !fixedType(u.Field(i).Type(), depth+1) {
				return false
			}
		}
		return true
	case *types.Array:
		return fixedType(u.Elem(), depth+1)
	}
	return false
}

func isRef(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Slice, *types.Chan:
		return true
	}
	return false
}

// changed reports whether the use of a package variable at the end of the
// stack of nodes may change it.
func changed(info *types.Info, stack []ast.Node) bool {
	i := len(stack) - 1
	e := stack[i].(ast.Expr)
	if i > 0 { // qualified by a package name
		if sel, ok := stack[i-1].(*ast.SelectorExpr); ok && sel.Sel == e {
			if _, ok := info.Selections[sel]; !ok {
				i--
				e = sel
			}
		}
	}
	for i > 0 {
		i--
		switch p := stack[i].(type) {
		case *ast.ParenExpr:
			e = p
			continue
		case *ast.StarExpr:
			e = p
			continue
		case *ast.IndexExpr:
			if p.X == e {
				e = p
				continue
			}
			return !fixedType(info.TypeOf(e), 0)
		case *ast.SliceExpr:
			if p.X == e {
				return true
			}
			return false
		case *ast.SelectorExpr:
			s := info.Selections[p]
			if s == nil {
				return true
			}
			if s.Kind() == types.FieldVal {
				e = p
				continue
			}
			f, ok := s.Obj().(*types.Func)
			if !ok {
				return true
			}
			recv := f.Type().(*types.Signature).Recv().Type()
			if fixedType(info.TypeOf(e), 0) {
				_, ptr := recv.Underlying().(*types.Pointer)
				return ptr
			}
			return true
		case *ast.AssignStmt:
			for _, l := range p.Lhs {
				if l == e {
					return true
				}
			}
			return !fixedType(info.TypeOf(e), 0)
		case *ast.IncDecStmt:
			return true
		case *ast.UnaryExpr:
			return p.Op == token.AND || p.Op == token.ARROW
		case *ast.RangeStmt:
			return p.X != e || isRefElem(info.TypeOf(e))
		case *ast.BinaryExpr:
			return false
		case *ast.CallExpr:
			if id, ok := p.Fun.(*ast.Ident); ok {
				if _, ok := info.Uses[id].(*types.Builtin); ok && (id.Name == "len" || id.Name == "cap") {
					return false
				}
			}
			if tv, ok := info.Types[p.Fun]; ok && tv.IsType() {
				return !fixedType(info.TypeOf(e), 0)
			}
			return p.Fun != e && !fixedType(info.TypeOf(e), 0)
		default:
			return !fixedType(info.TypeOf(e), 0)
		}
	}
	return true
}

func isRefElem(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return !fixedType(u.Elem(), 0)
	case *types.Array:
		return !fixedType(u.Elem(), 0)
	case *types.Map:
		return !fixedType(u.Elem(), 0)
	case *types.Pointer, *types.Chan:
		return true
	}
	return false
}

func walkUses(info *types.Info, root ast.Node, f func(v *types.Var, stack []ast.Node)) {
	var stack []ast.Node
	ast.Inspect(root, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		stack = append(stack, n)
		if id, ok := n.(*ast.Ident); ok {
			if v := pkgVar(info.Uses[id]); v != nil {
				f(v, stack)
			}
		}
		return true
	})
}

func isInit(d ast.Decl) *ast.FuncDecl {
	if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" && fd.Body != nil {
		return fd
	}
	return nil
}

type resetInfo struct {
	changed map[string]bool
	order   map[string]int // position in the initialisation of the package
}

func findResets(pkgs []*packages.Package) *resetInfo {
	r := &resetInfo{changed: map[string]bool{}, order: map[string]int{}}
	for _, p := range pkgs {
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				if isInit(d) != nil {
					continue
				}
				walkUses(p.TypesInfo, d, func(v *types.Var, stack []ast.Node) {
					if changed(p.TypesInfo, stack) {
						r.changed[varKey(v)] = true
					}
				})
			}
		}
		for i, in := range p.TypesInfo.InitOrder {
			for _, v := range in.Lhs {
				if pkgVar(v) != nil {
					r.order[varKey(v)] = i + 1
				}
			}
		}
	}
	return r
}

// resets returns the text that registers the resets of one file, and gives
// the init functions that have to run again names of their own.
func (w *rewriter) resets(f *ast.File, pkg *types.Package, ri *resetInfo) (tail string) {
	reg := func(order int, body string) {
		tail += fmt.Sprintf("\nfunc init() { simrt.OnStart(%q, %d, func() { %s }) }\n", pkg.Path(), order, body)
		w.rt = true
	}
	inits := 0
	for _, d := range f.Decls {
		if fd := isInit(d); fd != nil {
			again := false
			walkUses(w.info, fd, func(v *types.Var, _ []ast.Node) {
				again = again || ri.changed[varKey(v)]
			})
			if again {
				inits++
				name := fmt.Sprintf("simInit%d_%d", w.file.Base(), inits)
				w.repl(fd.Name.Pos(), fd.Name.End(), name)
				tail += fmt.Sprintf("\nfunc init() { %s() }\n", name)
				reg(1<<20+w.file.Base(), name+"()")
			}
			continue
		}
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR {
			continue
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			some := false
			for _, n := range vs.Names {
				some = some || n.Name != "_" && ri.changed[pkg.Path()+"."+n.Name]
			}
			if !some {
				continue
			}
			switch {
			case len(vs.Values) == 0:
				for _, n := range vs.Names {
					if n.Name != "_" {
						reg(0, "var z "+w.text(vs.Type)+"; "+n.Name+" = z")
					}
				}
			case len(vs.Values) == len(vs.Names):
				for i, n := range vs.Names {
					if k := pkg.Path() + "." + n.Name; ri.changed[k] {
						reg(ri.order[k], n.Name+" = "+w.edited(vs.Values[i]))
					}
				}
			default:
				var names []string
				order := 0
				for _, n := range vs.Names {
					names = append(names, n.Name)
					order = max(order, ri.order[pkg.Path()+"."+n.Name])
				}
				reg(order, strings.Join(names, ", ")+" = "+w.edited(vs.Values[0]))
			}
		}
	}
	return
}
