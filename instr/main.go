// instr makes a copy of the module under test in which every source of
// nondeterminism - goroutines, channels, select, map iteration, and the packages
// sync, sync/atomic, time, net and context - goes through the virtual runtime.
//
//	instr REPO RTDIR HARNESSDIR OUT
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"verif/instr/astutil"
)

var shims = map[string]string{
	"sync":        "vsync",
	"sync/atomic": "vatomic",
	"time":        "vtime",
	"net":         "vnet",
	"context":     "vcontext",
}

const vrtName = "vrt_"

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}

type pkg struct {
	ImportPath, Dir, Name, Export string
	GoFiles, CgoFiles, Imports    []string
	Standard                      bool
	Module                        *struct {
		Path string
		Main bool
	}
}

func main() {
	if len(os.Args) != 5 {
		die("usage: instr REPO RT HARNESS OUT")
	}
	repo, rt, harness, out := os.Args[1], os.Args[2], os.Args[3], os.Args[4]

	args := []string{"list", "-deps", "-export", "-json=ImportPath,Dir,Name,Export,GoFiles,CgoFiles,Imports,Standard,Module", "./..."}
	for s := range shims {
		args = append(args, s)
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	exports := map[string]string{}
	var mine []*pkg
	modPath := ""
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		p := new(pkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Main {
			modPath = p.Module.Path
			if p.Name != "main" {
				mine = append(mine, p)
			}
		}
	}
	if modPath == "" {
		die("no module found in %s", repo)
	}
	rtPath := modPath + "/zz_vrt/"

	// go.mod: the language version must allow the generic functions of the
	// runtime, but must not change the meaning of loops.
	gm, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	re := regexp.MustCompile(`(?m)^go\s+1\.(\d+).*$`)
	if m := re.FindSubmatch(gm); m != nil {
		if v, _ := strconv.Atoi(string(m[1])); v < 21 {
			gm = re.ReplaceAll(gm, []byte("go 1.21"))
		}
	} else {
		gm = append(gm, []byte("\ngo 1.21\n")...)
	}
	must(os.MkdirAll(out, 0o755))
	must(os.WriteFile(filepath.Join(out, "go.mod"), gm, 0o644))
	if gs, err := os.ReadFile(filepath.Join(repo, "go.sum")); err == nil {
		must(os.WriteFile(filepath.Join(out, "go.sum"), gs, 0o644))
	}

	fset := token.NewFileSet()
	lookup := func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok || f == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(f)
	}
	imp := importer.ForCompiler(fset, "gc", lookup)

	for pi, p := range mine {
		rel, err := filepath.Rel(repo, p.Dir)
		if err != nil {
			die("%v", err)
		}
		var files []*ast.File
		for _, f := range p.GoFiles {
			a, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
			if err != nil {
				die("%v", err)
			}
			files = append(files, a)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{},
			Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
		conf := types.Config{Importer: imp}
		if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
			die("type checking %s: %v", p.ImportPath, err)
		}
		order := map[types.Object]int{}
		for k, in := range info.InitOrder {
			for _, v := range in.Lhs {
				order[v] = k + 1
			}
		}
		for i, a := range files {
			r := &rewriter{fset: fset, info: info, rtPath: rtPath, order: order, pkg: pi, idx: i}
			src := r.file(a)
			dst := filepath.Join(out, rel, p.GoFiles[i])
			must(os.MkdirAll(filepath.Dir(dst), 0o755))
			must(os.WriteFile(dst, src, 0o644))
		}
	}

	// the runtime and its generated aliases
	copyTree(rt, filepath.Join(out, "zz_vrt"), modPath)
	for std, shim := range shims {
		dir := filepath.Join(out, "zz_vrt", shim)
		genAlias(fset, imp, std, shim, dir)
	}
	copyTree(harness, filepath.Join(out, "zz_verif"), modPath)
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

const builtFor = "github.com/jsimonetti/go-artnet"

func copyTree(from, to, modPath string) {
	must(filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		if fi.IsDir() {
			return os.MkdirAll(filepath.Join(to, rel), 0o755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if modPath != builtFor {
			b = bytes.ReplaceAll(b, []byte(builtFor), []byte(modPath))
		}
		return os.WriteFile(filepath.Join(to, rel), b, 0o644)
	}))
}

func genAlias(fset *token.FileSet, imp types.Importer, std, shim, dir string) {
	have := map[string]bool{}
	ps, err := parser.ParseDir(token.NewFileSet(), dir, nil, parser.SkipObjectResolution)
	if err != nil {
		die("%v", err)
	}
	for _, p := range ps {
		for _, f := range p.Files {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						have[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							have[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								have[n.Name] = true
							}
						}
					}
				}
			}
		}
	}
	sp, err := imp.Import(std)
	if err != nil {
		die("%v", err)
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport std %q\n\n", shim, std)
	n := 0
	for _, name := range sp.Scope().Names() {
		o := sp.Scope().Lookup(name)
		if !o.Exported() || have[name] {
			continue
		}
		switch o := o.(type) {
		case *types.TypeName:
			if named, ok := o.Type().(*types.Named); ok && named.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = std.%s\n", name, name)
		case *types.Const:
			fmt.Fprintf(&b, "const %s = std.%s\n", name, name)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = std.%s\n", name, name)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = std.%s\n", name, name)
		default:
			continue
		}
		n++
	}
	if n == 0 {
		return
	}
	must(os.WriteFile(filepath.Join(dir, "alias.go"), b.Bytes(), 0o644))
}

type rewriter struct {
	fset    *token.FileSet
	info    *types.Info
	rtPath  string
	used    bool
	n       int
	skip    map[ast.Expr]bool // receives that belong to a select
	two     map[ast.Expr]bool // receives in a two-value context
	sched   bool
	runtime string
	order   map[types.Object]int // of the initialization of package variables
	pkg     int
	idx     int
}

func id(s string) *ast.Ident { return ast.NewIdent(s) }

func (r *rewriter) tmp(s string) *ast.Ident {
	r.n++
	return id(fmt.Sprintf("v%s%d_", s, r.n))
}

func (r *rewriter) call(fn string, args ...ast.Expr) *ast.CallExpr {
	r.used = true
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: id(vrtName), Sel: id(fn)}, Args: args}
}

func method(x ast.Expr, m string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: x, Sel: id(m)}, Args: args}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func recvOf(e ast.Expr) *ast.UnaryExpr {
	u, ok := unparen(e).(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

func (r *rewriter) under(e ast.Expr) types.Type {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		return nil
	}
	t := tv.Type.Underlying()
	if tp, ok := tv.Type.(*types.TypeParam); ok {
		t = tp.Underlying()
	}
	return t
}

func (r *rewriter) isChan(e ast.Expr) bool {
	_, ok := r.under(e).(*types.Chan)
	return ok
}

func (r *rewriter) file(f *ast.File) []byte {
	r.skip = map[ast.Expr]bool{}
	r.two = map[ast.Expr]bool{}
	// what a receive is used for
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				if u := recvOf(n.Rhs[0]); u != nil {
					r.two[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				if u := recvOf(n.Values[0]); u != nil {
					r.two[u] = true
				}
			}
		case *ast.CommClause:
			switch c := n.Comm.(type) {
			case *ast.ExprStmt:
				if u := recvOf(c.X); u != nil {
					r.skip[u] = true
				}
			case *ast.AssignStmt:
				if u := recvOf(c.Rhs[0]); u != nil {
					r.skip[u] = true
				}
			}
		}
		return true
	})
	comm := map[ast.Stmt]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if c, ok := n.(*ast.CommClause); ok && c.Comm != nil {
			comm[c.Comm] = true
		}
		return true
	})

	astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
		switch n := c.Node().(type) {
		case *ast.GoStmt:
			c.Replace(r.goStmt(n))
		case *ast.SendStmt:
			if comm[n] {
				return true
			}
			c.Replace(&ast.ExprStmt{X: method(r.call("SendTo", n.Chan), "Send", n.Value)})
		case *ast.UnaryExpr:
			if n.Op != token.ARROW || r.skip[n] {
				return true
			}
			fn := "Recv"
			if r.two[n] {
				fn = "Recv2"
			}
			nc := r.call(fn, n.X)
			r.info.Types[nc] = r.info.Types[n]
			c.Replace(nc)
		case *ast.CallExpr:
			if i, ok := unparen(n.Fun).(*ast.Ident); ok && len(n.Args) == 1 {
				if b, ok := r.info.Uses[i].(*types.Builtin); ok && r.isChan(n.Args[0]) {
					switch b.Name() {
					case "close":
						n.Fun = r.call("Close").Fun
					case "len":
						n.Fun = r.call("Len").Fun
					}
				}
			}
		case *ast.SelectorExpr:
			if o, ok := r.info.Uses[n.Sel].(*types.Func); ok && o.Pkg() != nil && o.Pkg().Path() == "runtime" && o.Name() == "Gosched" {
				if x, ok := n.X.(*ast.Ident); ok {
					r.runtime = x.Name
					n.X = id(vrtName)
					r.used = true
				}
			}
		case *ast.RangeStmt:
			switch r.under(n.X).(type) {
			case *types.Chan:
				c.Replace(r.rangeStmt(n, "RangeChan", true))
			case *types.Map:
				c.Replace(r.rangeStmt(n, "RangeMap", false))
			}
		case *ast.SelectStmt:
			c.Replace(r.selectStmt(n))
		}
		return true
	})

	for _, s := range f.Imports {
		path, _ := strconv.Unquote(s.Path.Value)
		if sh, ok := shims[path]; ok {
			if s.Name == nil {
				base := path[strings.LastIndex(path, "/")+1:]
				s.Name = id(base)
			}
			s.Path.Value = strconv.Quote(r.rtPath + sh)
			s.EndPos = 0
		}
	}
	strip(f)
	resets := r.resets(f)
	if r.used {
		spec := &ast.ImportSpec{Name: id(vrtName), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(r.rtPath + "vrt")}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	}
	if r.runtime != "" {
		f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{
			&ast.ValueSpec{Names: []*ast.Ident{id("_")}, Values: []ast.Expr{&ast.SelectorExpr{X: id(r.runtime), Sel: id("NumCPU")}}}}})
	}
	f.Comments = nil
	strip(f)
	var b bytes.Buffer
	if err := format.Node(&b, token.NewFileSet(), f); err != nil {
		die("printing %s: %v", r.fset.Position(f.Pos()).Filename, err)
	}
	b.WriteString(resets)
	return b.Bytes()
}

// resets returns code that makes every execution begin with fresh package
// variables: they are initialized again, in the same order, and the init
// functions are run again.
func (r *rewriter) resets(f *ast.File) string {
	var out, reg strings.Builder
	n := 0
	show := func(e ast.Expr) string {
		var b bytes.Buffer
		if err := format.Node(&b, token.NewFileSet(), e); err != nil {
			die("printing: %v", err)
		}
		return b.String()
	}
	add := func(key int, body string) {
		name := fmt.Sprintf("zzReset_%d_%d", r.idx, n)
		n++
		fmt.Fprintf(&out, "\n//go:norace\nfunc %s() {\n%s\n}\n", name, body)
		fmt.Fprintf(&reg, "\t%s.OnReset(%d, %s)\n", vrtName, r.pkg*1000000+key, name)
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			if d.Tok != token.VAR {
				continue
			}
			for _, s := range d.Specs {
				v := s.(*ast.ValueSpec)
				names := make([]string, len(v.Names))
				key, some := 0, false
				for i, x := range v.Names {
					names[i] = x.Name
					if x.Name != "_" {
						some = true
						if o := r.order[r.info.Defs[x]]; o > key {
							key = o
						}
					}
				}
				switch {
				case !some:
				case len(v.Values) == 0:
					for _, x := range names {
						if x != "_" {
							add(0, "\tvar zz "+show(v.Type)+"\n\t"+x+" = zz")
						}
					}
				case len(v.Values) == len(names):
					for i, x := range names {
						if x == "_" {
							continue
						}
						if v.Type != nil {
							add(r.order[r.info.Defs[v.Names[i]]], "\tvar zz "+show(v.Type)+" = "+show(v.Values[i])+"\n\t"+x+" = zz")
							continue
						}
						add(r.order[r.info.Defs[v.Names[i]]], "\t"+x+" = "+show(v.Values[i]))
					}
				default:
					add(key, "\t"+strings.Join(names, ", ")+" = "+show(v.Values[0]))
				}
			}
		case *ast.FuncDecl:
			if d.Recv == nil && d.Name.Name == "init" {
				d.Name = id(fmt.Sprintf("zzInit_%d_%d", r.idx, n))
				add(500000+r.idx*100+n, "\t"+d.Name.Name+"()")
				fmt.Fprintf(&reg, "\t%s()\n", d.Name.Name)
			}
		}
	}
	if n == 0 {
		return ""
	}
	r.used = true
	return out.String() + "\nfunc init() {\n" + reg.String() + "}\n"
}

// strip removes doc comments, which would be printed at odd places.
func strip(f *ast.File) {
	f.Doc = nil
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			n.Doc = nil
		case *ast.FuncDecl:
			n.Doc = nil
		case *ast.Field:
			n.Doc, n.Comment = nil, nil
		case *ast.TypeSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.ValueSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.ImportSpec:
			n.Doc, n.Comment = nil, nil
		}
		return true
	})
}

func (r *rewriter) inline(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	if !ok {
		return false
	}
	if tv.Value != nil && tv.Value.Kind() != constant.Unknown {
		return true
	}
	return tv.IsNil() || tv.IsBuiltin() || tv.IsType()
}

func (r *rewriter) goStmt(n *ast.GoStmt) ast.Stmt {
	call := n.Call
	var lhs, rhs []ast.Expr
	var pre []ast.Stmt
	bind := func(e ast.Expr) ast.Expr {
		if r.inline(e) {
			return e
		}
		if tv, ok := r.info.Types[e]; ok {
			if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
				return e // an untyped comparison
			}
		}
		v := r.tmp("a")
		lhs = append(lhs, v)
		rhs = append(rhs, e)
		return v
	}
	if fl, ok := unparen(call.Fun).(*ast.FuncLit); ok && len(call.Args) == 0 && fl.Type.Results == nil {
		return &ast.ExprStmt{X: r.call("Go", fl)}
	}
	fun := call.Fun
	direct := r.inline(fun)
	var obj types.Object
	switch x := unparen(fun).(type) {
	case *ast.Ident:
		obj = r.info.Uses[x]
	case *ast.SelectorExpr:
		if _, isSel := r.info.Selections[x]; !isSel {
			obj = r.info.Uses[x.Sel]
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		direct = true // explicit instantiation
	}
	if f, ok := obj.(*types.Func); ok && f.Type().(*types.Signature).Recv() == nil {
		direct = true
	}
	if !direct {
		fun = bind(fun)
	}
	nc := &ast.CallExpr{Fun: fun, Ellipsis: 0}
	if len(call.Args) == 1 {
		if tv, ok := r.info.Types[call.Args[0]]; ok {
			if tup, ok := tv.Type.(*types.Tuple); ok && tup.Len() > 1 {
				var ls []ast.Expr
				for i := 0; i < tup.Len(); i++ {
					v := r.tmp("a")
					ls = append(ls, v)
					nc.Args = append(nc.Args, v)
				}
				pre = append(pre, &ast.AssignStmt{Lhs: ls, Tok: token.DEFINE, Rhs: []ast.Expr{call.Args[0]}})
			}
		}
	}
	if nc.Args == nil {
		for _, a := range call.Args {
			nc.Args = append(nc.Args, bind(a))
		}
		if call.Ellipsis.IsValid() {
			nc.Ellipsis = 1
		}
	}
	body := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}}}
	goCall := &ast.ExprStmt{X: r.call("Go", body)}
	var list []ast.Stmt
	if len(lhs) > 0 {
		list = append(list, &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs})
	}
	list = append(list, pre...)
	list = append(list, goCall)
	if len(list) == 1 {
		return goCall
	}
	return &ast.BlockStmt{List: list}
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "_"
}

func (r *rewriter) rangeStmt(n *ast.RangeStmt, fn string, ch bool) ast.Stmt {
	it, ok := r.tmp("it"), r.tmp("ok")
	define := n.Tok == token.DEFINE
	var vars []ast.Expr // loop variables of the new statement
	var body []ast.Stmt
	slot := func(e ast.Expr) {
		switch {
		case blank(e):
			vars = append(vars, id("_"))
		case define:
			vars = append(vars, e)
		default:
			v := r.tmp("x")
			vars = append(vars, v)
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{e}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}})
		}
	}
	slot(n.Key)
	if !ch {
		slot(n.Value)
	}
	initL := append([]ast.Expr{it}, vars...)
	initL = append(initL, ok)
	postL := append(append([]ast.Expr{}, vars...), ok)
	b := n.Body
	if len(body) > 0 {
		b = &ast.BlockStmt{List: append(body, n.Body.List...)}
	}
	return &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: initL, Tok: token.DEFINE, Rhs: []ast.Expr{r.call(fn, n.X)}},
		Cond: ok,
		Post: &ast.AssignStmt{Lhs: postL, Tok: token.ASSIGN, Rhs: []ast.Expr{method(it, "Next")}},
		Body: b,
	}
}

func (r *rewriter) selectStmt(n *ast.SelectStmt) ast.Stmt {
	if len(n.Body.List) == 0 {
		return &ast.ForStmt{Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: r.call("BlockForever")}}}}
	}
	var lhs, rhs []ast.Expr
	var clauses []ast.Stmt
	def := id("false")
	for _, s := range n.Body.List {
		c := s.(*ast.CommClause)
		if c.Comm == nil {
			def = id("true")
			clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: "1"}}}, Body: c.Body})
			continue
		}
		v := r.tmp("c")
		idx := &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(lhs))}
		lhs = append(lhs, v)
		body := c.Body
		switch cs := c.Comm.(type) {
		case *ast.SendStmt:
			rhs = append(rhs, method(r.call("SendCase", cs.Chan), "With", cs.Value))
		case *ast.ExprStmt:
			rhs = append(rhs, r.call("RecvCase", recvOf(cs.X).X))
		case *ast.AssignStmt:
			rhs = append(rhs, r.call("RecvCase", recvOf(cs.Rhs[0]).X))
			m := "Val"
			if len(cs.Lhs) == 2 {
				m = "Val2"
			}
			as := &ast.AssignStmt{Lhs: cs.Lhs, Tok: cs.Tok, Rhs: []ast.Expr{method(v, m)}}
			body = append([]ast.Stmt{as}, body...)
		default:
			die("unknown communication in select")
		}
		clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{idx}, Body: body})
	}
	clauses = append(clauses, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: id("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"select"`}}}}}})
	sw := &ast.SwitchStmt{Tag: r.call("Select", append([]ast.Expr{def}, lhs...)...), Body: &ast.BlockStmt{List: clauses}}
	if len(lhs) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
	}
	return sw
}

var _ = sort.Strings
