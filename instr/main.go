// Command instr writes a go build overlay in which every package of a module is redirected to the controlled
// scheduler verif/vs: goroutine starts, channel operations, sync, sync/atomic, time, context, os.Hostname.
//
//	instr MODULE_DIR OUT_DIR      writes OUT_DIR/overlay.json and the rewritten files
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

type pkgInfo struct {
	Dir, ImportPath, Export, Name string
	GoFiles                       []string
	Standard                      bool
	Module                        *struct {
		Main bool
		Path string
	}
	Error *struct{ Err string }
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

var redirect = map[string]string{
	"sync":        "verif/vs/vsync",
	"sync/atomic": "verif/vs/vatomic",
	"time":        "verif/vs/vtime",
	"context":     "verif/vs/vcontext",
	"net":         "verif/vs/vnet",
}

func main() {
	if len(os.Args) != 3 {
		die("usage: instr MODULE_DIR OUT_DIR")
	}
	mod, out := os.Args[1], os.Args[2]
	cmd := exec.Command("go", "list", "-e", "-deps", "-export", "-json=Dir,ImportPath,Export,Name,GoFiles,Standard,Module,Error", "./...")
	cmd.Dir = mod
	cmd.Stderr = os.Stderr
	pipe, err := cmd.StdoutPipe()
	if err != nil {
		die("%v", err)
	}
	if err := cmd.Start(); err != nil {
		die("%v", err)
	}
	exports := map[string]string{}
	var pkgs []*pkgInfo
	dec := json.NewDecoder(pipe)
	for {
		p := new(pkgInfo)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list: %v", err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Main {
			pkgs = append(pkgs, p)
		}
	}
	cmd.Wait()
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	repl := map[string]string{}
	type unit struct {
		p     *pkgInfo
		files []*ast.File
		srcs  [][]byte
		info  *types.Info
		pkg   *types.Package
	}
	var units []*unit
	use := &usage{assigned: map[string]bool{}, reached: map[string]bool{}}
	for _, p := range pkgs {
		if len(p.GoFiles) == 0 {
			continue
		}
		var files []*ast.File
		var srcs [][]byte
		for _, f := range p.GoFiles {
			name := filepath.Join(p.Dir, f)
			src, err := os.ReadFile(name)
			if err != nil {
				die("%v", err)
			}
			af, err := parser.ParseFile(fset, name, src, parser.ParseComments)
			if err != nil {
				die("%v", err)
			}
			files = append(files, af)
			srcs = append(srcs, src)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
		var first error
		conf := types.Config{Importer: imp, Error: func(err error) {
			if first == nil {
				first = err
			}
		}}
		pkg, _ := conf.Check(p.ImportPath, fset, files, info)
		if first != nil {
			die("%s: %v", p.ImportPath, first)
		}
		units = append(units, &unit{p, files, srcs, info, pkg})
		for _, af := range files {
			use.scan(af, info)
		}
	}
	for _, u := range units {
		p := u.p
		for i, af := range u.files {
			r := &rewriter{fset: fset, src: u.srcs[i], info: u.info, file: fset.File(af.Pos()), name: p.GoFiles[i]}
			text := r.rewrite(af)
			if i == 0 {
				text += use.register(u.pkg, p.Module.Path)
			}
			dst := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(p.ImportPath, "/"), "/", "_")+"__"+p.GoFiles[i])
			if err := os.WriteFile(dst, []byte(text), 0o644); err != nil {
				die("%v", err)
			}
			repl[filepath.Join(p.Dir, p.GoFiles[i])] = dst
		}
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644); err != nil {
		die("%v", err)
	}
}

type rewriter struct {
	fset *token.FileSet
	src  []byte
	info *types.Info
	file *token.File
	name string
	n    int
}

func (r *rewriter) off(p token.Pos) int { return r.file.Offset(p) }

func (r *rewriter) uniq(s string) string {
	r.n++
	return fmt.Sprintf("vs%s%d_", s, r.n)
}

// rewrite renders the whole file.
func (r *rewriter) rewrite(f *ast.File) string {
	var b strings.Builder
	b.WriteString("//go:build go1.21\n\n")
	// neutralise the constraints before the package clause
	head := string(r.src[:r.off(f.Package)])
	head = strings.ReplaceAll(head, "//go:build", "// go:build")
	head = strings.ReplaceAll(head, "// +build", "// + build")
	b.WriteString(fmt.Sprintf("//line %s:1\n", r.fset.Position(f.Pos()).Filename))
	b.WriteString(head)
	nameEnd := r.off(f.Name.End())
	b.Write(r.src[r.off(f.Package):nameEnd])
	b.WriteString("; import vsrt_ \"verif/vs\"")
	// the rest of the package line may hold an import comment, which must go
	eol := nameEnd
	for eol < len(r.src) && r.src[eol] != '\n' {
		eol++
	}
	line := string(r.src[nameEnd:eol])
	if i := strings.Index(line, "//"); i >= 0 {
		line = line[:i]
	}
	if i := strings.Index(line, "/*"); i >= 0 {
		if j := strings.Index(line, "*/"); j > i {
			line = line[:i] + line[j+2:]
		} else {
			line = string(r.src[nameEnd:eol])
		}
	}
	b.WriteString(line)
	b.WriteString(r.between(eol, len(r.src), f))
	b.WriteString("\n\nvar _ = vsrt_.Touch\n")
	return b.String()
}

// between renders the source range [from,to) inside n, replacing the interesting nodes.
func (r *rewriter) between(from, to int, n ast.Node) string {
	var b strings.Builder
	pos := from
	ast.Inspect(n, func(c ast.Node) bool {
		if c == nil || c == n {
			return true
		}
		if _, ok := c.(*ast.CommentGroup); ok {
			return false
		}
		if !c.Pos().IsValid() {
			return true
		}
		s, e := r.off(c.Pos()), r.off(c.End())
		if e <= pos || s >= to {
			return s < to && e > pos
		}
		if s < pos || e > to {
			return true
		}
		if text, ok := r.special(c); ok {
			b.Write(r.src[pos:s])
			b.WriteString(text)
			pos = e
			return false
		}
		return true
	})
	b.Write(r.src[pos:to])
	return b.String()
}

// node renders n itself, replaced when interesting.
func (r *rewriter) node(n ast.Node) string {
	if text, ok := r.special(n); ok {
		return text
	}
	return r.between(r.off(n.Pos()), r.off(n.End()), n)
}

func (r *rewriter) isChan(e ast.Expr) bool {
	t := r.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (r *rewriter) builtin(e ast.Expr) string {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if id, ok := e.(*ast.Ident); ok {
		if b, ok := r.info.Uses[id].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

func (r *rewriter) isFunc(e ast.Expr, pkg, name string) bool {
	s, ok := e.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	o := r.info.Uses[s.Sel]
	return o != nil && o.Pkg() != nil && o.Pkg().Path() == pkg && o.Name() == name && o.Parent() == o.Pkg().Scope()
}

func (r *rewriter) special(n ast.Node) (string, bool) {
	switch n := n.(type) {
	case *ast.ImportSpec:
		path, _ := strconv.Unquote(n.Path.Value)
		to, ok := redirect[path]
		if !ok {
			return "", false
		}
		name := filepath.Base(path)
		if n.Name != nil {
			name = n.Name.Name
		}
		return name + " " + strconv.Quote(to), true
	case *ast.SendStmt:
		return "vsrt_.SendTo(" + r.node(n.Chan) + ")(" + r.node(n.Value) + ")", true
	case *ast.UnaryExpr:
		if n.Op != token.ARROW {
			return "", false
		}
		f := "Recv"
		if _, ok := r.info.TypeOf(n).(*types.Tuple); ok {
			f = "Recv2"
		}
		return "vsrt_." + f + "(" + r.node(n.X) + ")", true
	case *ast.CallExpr:
		switch r.builtin(n.Fun) {
		case "close":
			return "vsrt_.Close(" + r.node(n.Args[0]) + ")", true
		case "len":
			if r.isChan(n.Args[0]) {
				return "vsrt_.Len(" + r.node(n.Args[0]) + ")", true
			}
		}
	case *ast.SelectorExpr:
		if r.isFunc(n, "os", "Hostname") {
			// keep the import of os used
			return "(func() func() (string, error) { _ = " + string(r.src[r.off(n.X.Pos()):r.off(n.X.End())]) + ".Hostname; return vsrt_.Hostname }())", true
		}
	case *ast.RangeStmt:
		if n.X == nil || !r.isChan(n.X) {
			return "", false
		}
		it := r.uniq("it")
		s := "for " + it + " := vsrt_.Range(" + r.node(n.X) + "); " + it + ".Next(); {"
		if n.Key != nil {
			if id, ok := n.Key.(*ast.Ident); !ok || id.Name != "_" {
				s += r.node(n.Key) + " " + n.Tok.String() + " " + it + ".V; "
			}
		}
		return s + r.between(r.off(n.Body.Lbrace)+1, r.off(n.Body.End()), n.Body), true
	case *ast.GoStmt:
		return r.goStmt(n), true
	case *ast.SelectStmt:
		return r.sel(n), true
	}
	return "", false
}

func (r *rewriter) goStmt(n *ast.GoStmt) string {
	c := n.Call
	where := strconv.Quote(fmt.Sprintf("%s:%d", r.name, r.fset.Position(n.Pos()).Line))
	if r.builtin(c.Fun) != "" {
		return "vsrt_.Go(" + where + ", func() { " + r.node(c) + " })"
	}
	var pre, fun string
	switch f := c.Fun.(type) {
	case *ast.FuncLit:
		fun = r.node(f)
		if len(c.Args) == 0 && f.Type.Results == nil {
			return "vsrt_.Go(" + where + ", " + fun + ")"
		}
		fun = "(" + fun + ")"
	default:
		if id, ok := c.Fun.(*ast.Ident); ok {
			if o, ok := r.info.Uses[id].(*types.Func); ok && o.Type().(*types.Signature).Recv() == nil {
				fun = id.Name
			}
		}
		if fun == "" {
			v := r.uniq("f")
			pre += v + " := " + r.node(c.Fun) + "; "
			fun = v
		}
	}
	var args []string
	for _, a := range c.Args {
		tv := r.info.Types[a]
		_, tuple := tv.Type.(*types.Tuple)
		if tv.Value != nil || tv.IsNil() || tuple {
			args = append(args, r.node(a))
			continue
		}
		v := r.uniq("a")
		pre += v + " := " + r.node(a) + "; "
		args = append(args, v)
	}
	s := strings.Join(args, ", ")
	if c.Ellipsis.IsValid() {
		s += "..."
	}
	return "{ " + pre + "vsrt_.Go(" + where + ", func() { " + fun + "(" + s + ") }) }"
}

func (r *rewriter) sel(n *ast.SelectStmt) string {
	var names, inits []string
	dflt := false
	type arm struct {
		head string
		cc   *ast.CommClause
	}
	var arms []arm
	for _, st := range n.Body.List {
		cc := st.(*ast.CommClause)
		if cc.Comm == nil {
			dflt = true
			arms = append(arms, arm{"default:", cc})
			continue
		}
		v := r.uniq("c")
		head := fmt.Sprintf("case %d:", len(names))
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			inits = append(inits, "vsrt_.CaseSend("+r.node(s.Chan)+")("+r.node(s.Value)+")")
		case *ast.ExprStmt:
			inits = append(inits, "vsrt_.CaseRecv("+r.node(recvOf(s.X))+")")
		case *ast.AssignStmt:
			inits = append(inits, "vsrt_.CaseRecv("+r.node(recvOf(s.Rhs[0]))+")")
			var l []string
			for _, x := range s.Lhs {
				l = append(l, r.node(x))
			}
			head += " " + strings.Join(l, ", ") + " " + s.Tok.String() + " " + v + ".V"
			if len(l) == 2 {
				head += ", " + v + ".Ok"
			}
			head += ";"
		}
		names = append(names, v)
		arms = append(arms, arm{head, cc})
	}
	if len(arms) == 0 {
		return "{ vsrt_.Block(); panic(\"unreachable\") }"
	}
	var b strings.Builder
	if len(names) == 0 {
		b.WriteString("switch {")
	} else {
		fmt.Fprintf(&b, "switch %s := %s; vsrt_.Select(%v, %s) {", strings.Join(names, ", "), strings.Join(inits, ", "), dflt, strings.Join(names, ", "))
	}
	pos := r.off(n.Body.Lbrace) + 1
	for _, a := range arms {
		b.Write(r.src[pos:r.off(a.cc.Pos())])
		b.WriteString(a.head)
		end := r.off(a.cc.End())
		b.WriteString(r.between(r.off(a.cc.Colon)+1, end, a.cc))
		pos = end
	}
	if !dflt {
		b.WriteString("\ndefault: panic(\"unreachable\")\n")
	}
	b.Write(r.src[pos:r.off(n.Body.End())])
	return b.String()
}

func recvOf(e ast.Expr) ast.Expr {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
		case *ast.UnaryExpr:
			return x.X
		default:
			die("receive expected")
		}
	}
}
