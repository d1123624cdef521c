package main

import (
	"go/ast"
	"go/token"
	"go/types"
)

// Accesses to memory that tasks can share.
//
// A place is an addressable expression: a variable, a field of one, an
// element of a slice or array, what a pointer points to.  The largest place
// expression is wrapped, as (*simrt.R(&place)) where it is read and as
// (*simrt.W(&place)) where it is assigned.

const (
	ctxRead = iota
	ctxWrite
	ctxNone // part of a larger place, or only its address is taken
)

// mutable holds the package-level variables that change after start-up.
var mutable = map[types.Object]bool{}

func (p *pkg) pkgVar(x ast.Expr) types.Object {
	var id *ast.Ident
	switch e := ast.Unparen(x).(type) {
	case *ast.Ident:
		id = e
	case *ast.SelectorExpr:
		if q, ok := e.X.(*ast.Ident); ok {
			if _, ok := p.info.Uses[q].(*types.PkgName); ok {
				id = e.Sel
			}
		}
	}
	if id == nil {
		return nil
	}
	v, ok := p.info.Uses[id].(*types.Var)
	if !ok || v.IsField() || v.Pkg() == nil || v.Parent() != v.Pkg().Scope() {
		return nil
	}
	if len(v.Pkg().Path()) < len(modPath) || v.Pkg().Path()[:len(modPath)] != modPath {
		return nil
	}
	return v
}

// root is the package-level variable a place starts from, if it does.
func (p *pkg) root(x ast.Expr) types.Object {
	for {
		x = ast.Unparen(x)
		if v := p.pkgVar(x); v != nil {
			return v
		}
		switch e := x.(type) {
		case *ast.SelectorExpr:
			x = e.X
		case *ast.IndexExpr:
			x = e.X
		case *ast.SliceExpr:
			x = e.X
		case *ast.StarExpr:
			x = e.X
		case *ast.TypeAssertExpr:
			x = e.X
		default:
			return nil
		}
	}
}

func findMutable(p *pkg) {
	mark := func(x ast.Expr) {
		if v := p.root(x); v != nil {
			mutable[v] = true
		}
	}
	for _, f := range p.files {
		for _, d := range f.ast.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Recv == nil && fd.Name.Name == "init" {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.AssignStmt:
					for _, l := range x.Lhs {
						mark(l)
					}
				case *ast.IncDecStmt:
					mark(x.X)
				case *ast.RangeStmt:
					if x.Tok == token.ASSIGN {
						if x.Key != nil {
							mark(x.Key)
						}
						if x.Value != nil {
							mark(x.Value)
						}
					}
				case *ast.UnaryExpr:
					if x.Op == token.AND {
						mark(x.X)
					}
				case *ast.SliceExpr:
					mark(x.X)
				}
				return true
			})
		}
	}
}

func (in *inst) typ(x ast.Expr) types.Type {
	t := in.p.info.TypeOf(x)
	if t == nil {
		return types.Typ[types.Invalid]
	}
	return t.Underlying()
}

// contexts notes how expressions are used.
func (in *inst) contexts() {
	none := func(x ast.Expr) {
		for {
			in.ctx[x] = ctxNone
			p, ok := x.(*ast.ParenExpr)
			if !ok {
				return
			}
			x = p.X
		}
	}
	write := func(x ast.Expr) {
		x = ast.Unparen(x)
		in.ctx[x] = ctxWrite
	}
	ast.Inspect(in.f.ast, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				if x.Tok == token.DEFINE {
					none(l)
				} else {
					write(l)
				}
			}
		case *ast.IncDecStmt:
			write(x.X)
		case *ast.RangeStmt:
			if x.Key != nil {
				none(x.Key)
			}
			if x.Value != nil {
				none(x.Value)
			}
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				none(x.X)
			}
		case *ast.SliceExpr:
			if _, ok := in.typ(x.X).(*types.Array); ok {
				none(x.X)
			}
		case *ast.IndexExpr:
			if _, ok := in.typ(x.X).(*types.Array); ok {
				none(x.X)
			}
		case *ast.SelectorExpr:
			none(x.Sel)
			sel := in.p.info.Selections[x]
			if sel == nil {
				if q, ok := x.X.(*ast.Ident); ok {
					none(q) // a package
				}
				break
			}
			switch sel.Kind() {
			case types.FieldVal:
				if _, ok := in.typ(x.X).(*types.Struct); ok {
					none(x.X)
				}
			case types.MethodVal:
				// the method may take the receiver's address
				if f, ok := sel.Obj().(*types.Func); ok {
					if r := f.Signature().Recv(); r != nil {
						_, ptr := r.Type().Underlying().(*types.Pointer)
						_, isPtr := in.typ(x.X).(*types.Pointer)
						if ptr && !isPtr {
							none(x.X)
						}
					}
				}
			}
		case *ast.KeyValueExpr:
			if id, ok := x.Key.(*ast.Ident); ok {
				if v, ok := in.p.info.Uses[id].(*types.Var); ok && v.IsField() {
					none(id)
				}
			}
		case *ast.CallExpr:
			if tv := in.p.info.Types[x]; tv.Value != nil {
				for _, a := range x.Args {
					none(a)
				}
			}
		case *ast.DeferStmt:
			if in.isAtomic(x.Call) {
				in.norace = true
			}
		case *ast.GoStmt:
			if in.isAtomic(x.Call) {
				in.norace = true
			}
		}
		return true
	})
	// a place inside one that must be left alone is left alone as well
	// (values only: what a pointer or slice leads to is another place)
	var leave func(x ast.Expr)
	leave = func(x ast.Expr) {
		switch e := ast.Unparen(x).(type) {
		case *ast.SelectorExpr:
			if _, ok := in.typ(e.X).(*types.Struct); ok {
				in.ctx[e.X] = ctxNone
				leave(e.X)
			}
		case *ast.IndexExpr:
			if _, ok := in.typ(e.X).(*types.Array); ok {
				in.ctx[e.X] = ctxNone
				leave(e.X)
			}
		}
	}
	var all []ast.Expr
	for x, c := range in.ctx {
		if c == ctxNone {
			all = append(all, x)
		}
	}
	for _, x := range all {
		leave(x)
	}
}

// place wraps x if it is a place worth following.
func (in *inst) place(x ast.Expr) {
	c := in.ctx[x]
	if c == ctxNone {
		return
	}
	tv, ok := in.p.info.Types[x]
	if id, isID := x.(*ast.Ident); isID {
		if in.p.pkgVar(id) == nil {
			return
		}
	} else if !ok || !tv.Addressable() {
		return
	}
	if se, isSel := x.(*ast.SelectorExpr); isSel && in.p.info.Selections[se] == nil && in.p.pkgVar(x) == nil {
		return
	}
	v := in.p.root(x)
	want := v != nil && mutable[v]
	if !want && v == nil {
		switch e := x.(type) {
		case *ast.IndexExpr:
			_, isSlice := in.typ(e.X).(*types.Slice)
			want = c == ctxWrite && isSlice
		case *ast.SelectorExpr:
			want = in.private(e)
		}
	}
	if !want {
		return
	}
	fn := "R"
	if c == ctxWrite {
		fn = "W"
	}
	in.e.open(off(x.Pos()), "(*"+rt+"."+fn+"(&")
	in.e.close(off(x.End()), "))")
}

// private says whether x is a field, reached through a pointer, of a struct
// type that the package keeps to itself.
func (in *inst) private(x *ast.SelectorExpr) bool {
	sel := in.p.info.Selections[x]
	if sel == nil || sel.Kind() != types.FieldVal || len(sel.Index()) != 1 {
		return false
	}
	t := in.p.info.TypeOf(x.X)
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(pt.Elem()).(*types.Named)
	if !ok || n.Obj().Exported() || n.Obj().Pkg() != in.p.tpkg {
		return false
	}
	sc := in.p.tpkg.Scope()
	for _, name := range sc.Names() {
		tn, ok := sc.Lookup(name).(*types.TypeName)
		if !ok || !tn.Exported() {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			if p, ok := ft.Underlying().(*types.Pointer); ok {
				ft = p.Elem()
			}
			if st.Field(i).Embedded() && types.Identical(ft, n) {
				return false
			}
		}
	}
	return true
}

// index wraps a map that is looked at or changed.
func (in *inst) index(x *ast.IndexExpr) {
	if _, ok := in.typ(x.X).(*types.Map); !ok {
		return
	}
	fn := "MapR"
	if in.ctx[x] == ctxWrite {
		fn = "MapW"
	}
	in.e.open(off(x.X.Pos()), rt+"."+fn+"(")
	in.e.close(off(x.X.End()), ")")
}

func (in *inst) call(x *ast.CallExpr, parent ast.Node) {
	wrap := func(i int, fn string) {
		a := x.Args[i]
		if _, ok := in.typ(a).(*types.Slice); !ok && fn != "MapR" && fn != "MapW" {
			return
		}
		if tv := in.p.info.Types[a]; tv.IsNil() {
			return
		}
		in.e.open(off(a.Pos()), rt+"."+fn+"(")
		in.e.close(off(a.End()), ")")
	}
	isMap := len(x.Args) > 0
	if isMap {
		_, isMap = in.typ(x.Args[0]).(*types.Map)
	}
	switch {
	case in.isBuiltin(x.Fun, "append") && len(x.Args) > 1:
		wrap(0, "AP")
	case in.isBuiltin(x.Fun, "copy"):
		wrap(0, "CW")
		wrap(1, "CR")
	case in.isBuiltin(x.Fun, "delete"), in.isBuiltin(x.Fun, "clear") && isMap:
		wrap(0, "MapW")
	case in.isBuiltin(x.Fun, "len") && isMap:
		wrap(0, "MapR")
	}
	if in.isAtomic(x) {
		if t := in.p.info.TypeOf(x); t != nil {
			if tu, ok := t.(*types.Tuple); ok && tu.Len() == 0 {
				return
			}
		}
		if tv := in.p.info.Types[x]; tv.IsVoid() {
			return
		}
		in.e.open(off(x.Pos()), rt+".Sy(")
		in.e.close(off(x.End()), ")")
	}
}

// isAtomic says whether x is a call into sync/atomic.
func (in *inst) isAtomic(x *ast.CallExpr) bool {
	se, ok := ast.Unparen(x.Fun).(*ast.SelectorExpr)
	if !ok {
		return false
	}
	o := in.p.info.Uses[se.Sel]
	return o != nil && o.Pkg() != nil && o.Pkg().Path() == "sync/atomic" && isFunc(o)
}

func isFunc(o types.Object) bool { _, ok := o.(*types.Func); return ok }

func (in *inst) hasAtomic(n ast.Node) (found bool) {
	ast.Inspect(n, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok && in.isAtomic(c) {
			found = true
		}
		return !found
	})
	return
}
