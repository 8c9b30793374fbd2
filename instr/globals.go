package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// usage tells which package variables can change after the initialisation.
type usage struct {
	assigned map[string]bool // the variable itself
	reached  map[string]bool // what it refers to
}

func varKey(v *types.Var) string { return v.Pkg().Path() + "." + v.Name() }

// scan looks at every use of a package variable in f.
func (u *usage) scan(f *ast.File, info *types.Info) {
	var path []ast.Node
	ast.Inspect(f, func(n ast.Node) bool {
		if n == nil {
			path = path[:len(path)-1]
			return true
		}
		path = append(path, n)
		id, ok := n.(*ast.Ident)
		if !ok {
			return true
		}
		v, ok := info.Uses[id].(*types.Var)
		if !ok || v.Pkg() == nil || v.Parent() != v.Pkg().Scope() {
			return true
		}
		u.use(v, path, info)
		return true
	})
}

// use classifies one use: path ends with the identifier of v.
func (u *usage) use(v *types.Var, path []ast.Node, info *types.Info) {
	i := len(path) - 1
	e := path[i]
	up := func() ast.Node {
		if i == 0 {
			return nil
		}
		return path[i-1]
	}
	if s, ok := up().(*ast.SelectorExpr); ok && s.Sel == e { // package.v
		i--
		e = path[i]
	}
	deep := false // e is behind a reference of v
	for {
		switch p := up().(type) {
		case *ast.ParenExpr:
		case *ast.SelectorExpr:
			s := info.Selections[p]
			if s == nil || s.Kind() != types.FieldVal {
				if s != nil && s.Kind() == types.MethodVal {
					if _, ptr := s.Obj().Type().(*types.Signature).Recv().Type().(*types.Pointer); ptr {
						u.assigned[varKey(v)] = true
					}
				}
				u.reached[varKey(v)] = true
				return
			}
			if _, ptr := info.TypeOf(p.X).Underlying().(*types.Pointer); ptr {
				deep = true
			}
		case *ast.IndexExpr:
			if p.X != e {
				return
			}
			switch info.TypeOf(p.X).Underlying().(type) {
			case *types.Slice, *types.Map, *types.Pointer:
				deep = true
			}
		case *ast.StarExpr:
			deep = true
		case *ast.SliceExpr:
			u.assigned[varKey(v)], u.reached[varKey(v)] = true, true
			return
		default:
			if writes(p, e) {
				if deep {
					u.reached[varKey(v)] = true
				} else {
					u.assigned[varKey(v)], u.reached[varKey(v)] = true, true
				}
				return
			}
			if reads(p, e, info) {
				return
			}
			if t := info.TypeOf(e.(ast.Expr)); t == nil || refers(t, 0) {
				u.reached[varKey(v)] = true
			}
			return
		}
		i--
		e = path[i]
	}
}

// writes tells that statement or expression p can change operand e.
func writes(p, e ast.Node) bool {
	switch p := p.(type) {
	case *ast.AssignStmt:
		for _, l := range p.Lhs {
			if l == e {
				return true
			}
		}
	case *ast.IncDecStmt:
		return true
	case *ast.UnaryExpr:
		return p.Op == token.AND
	case *ast.RangeStmt:
		return p.Key == e || p.Value == e
	}
	return false
}

// reads tells that p only looks at e.
func reads(p, e ast.Node, info *types.Info) bool {
	switch p := p.(type) {
	case *ast.BinaryExpr:
		return true
	case *ast.CallExpr:
		if id, ok := p.Fun.(*ast.Ident); ok {
			if b, ok := info.Uses[id].(*types.Builtin); ok {
				return b.Name() == "len" || b.Name() == "cap"
			}
		}
	case *ast.RangeStmt:
		if p.X != e {
			return false
		}
		for _, x := range []ast.Expr{p.Key, p.Value} {
			if x != nil {
				if t := info.TypeOf(x); t != nil && refers(t, 0) {
					return false
				}
			}
		}
		return true
	}
	return false
}

// refers tells whether values of type t give access to something that can change.
func refers(t types.Type, depth int) bool {
	if depth > 10 {
		return true
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error" {
		return false
	}
	switch t := t.Underlying().(type) {
	case *types.Tuple:
		for i := 0; i < t.Len(); i++ {
			if refers(t.At(i).Type(), depth+1) {
				return true
			}
		}
		return false
	case *types.Basic, *types.Signature, *types.Chan:
		return false
	case *types.Array:
		return refers(t.Elem(), depth+1)
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if refers(t.Field(i).Type(), depth+1) {
				return true
			}
		}
		return false
	}
	return true
}

// register renders the registration of the variables of pkg.
func (u *usage) register(pkg *types.Package, module string) string {
	var assigned, other []string
	for _, n := range pkg.Scope().Names() {
		v, ok := pkg.Scope().Lookup(n).(*types.Var)
		if !ok || n == "_" {
			continue
		}
		switch {
		case u.assigned[varKey(v)]:
			assigned = append(assigned, "&"+n)
		case u.reached[varKey(v)]:
			other = append(other, "&"+n)
		}
	}
	if len(assigned)+len(other) == 0 {
		return ""
	}
	return fmt.Sprintf("\nfunc init() { vsrt_.Globals(%q, []interface{}{%s}, []interface{}{%s}) }\n", module, strings.Join(assigned, ", "), strings.Join(other, ", "))
}
