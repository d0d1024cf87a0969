// Command instr copies Go packages into a scratch tree, rewriting every source
// of nondeterminism they contain (goroutine spawns, locks, map iteration,
// selects, sync.Map, timers with callbacks, printing) to the simulation
// runtime, and inserting a scheduling gate before every statement.
//
//	instr -dir REPO -out DIR -sites FILE  importpath=mode ...
//
// mode is "yield" (statement preemption allowed) or "gate" (never preempted).
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

type modInfo struct {
	Path    string
	Dir     string
	GoMod   string
	Version string
	Main    bool
}
type pkgInfo struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	SFiles     []string
	EmbedFiles []string
	Export     string
	Module     *modInfo
	Error      *struct{ Err string }
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}

var siteNo uint32
var sites []string

func main() {
	dir := flag.String("dir", "", "module to list packages from")
	out := flag.String("out", "", "output directory")
	sitesF := flag.String("sites", "", "sites table")
	flag.Parse()
	modes := map[string]string{}
	for _, a := range flag.Args() {
		i := strings.LastIndex(a, "=")
		modes[a[:i]] = a[i+1:]
	}
	args := []string{"list", "-mod=readonly", "-export", "-deps", "-json=ImportPath,Dir,GoFiles,SFiles,EmbedFiles,Export,Module,Error"}
	for p := range modes {
		args = append(args, p)
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = *dir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly")
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Run(); err != nil {
		fatal("go list: %v\n%s", err, se.String())
	}
	pkgs := map[string]*pkgInfo{}
	dec := json.NewDecoder(&so)
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal("decode: %v", err)
		}
		pp := p
		pkgs[p.ImportPath] = &pp
	}
	mods := map[string]*modInfo{}
	for ip, mode := range modes {
		p := pkgs[ip]
		if p == nil {
			fatal("package %s not listed", ip)
		}
		mods[p.Module.Path] = p.Module
		instrument(p, pkgs, mode, *out)
	}
	// packages of instrumented modules that are needed but not instrumented are copied as they are
	for ip, p := range pkgs {
		if p.Module == nil || mods[p.Module.Path] == nil || modes[ip] != "" {
			continue
		}
		dst := filepath.Join(*out, p.Module.Path, strings.TrimPrefix(strings.TrimPrefix(ip, p.Module.Path), "/"))
		must(os.MkdirAll(dst, 0o755))
		for _, f := range append(append([]string{}, p.GoFiles...), p.SFiles...) {
			b, err := os.ReadFile(filepath.Join(p.Dir, f))
			must(err)
			must(os.WriteFile(filepath.Join(dst, f), b, 0o644))
		}
	}
	for _, m := range mods {
		b, err := os.ReadFile(m.GoMod)
		must(err)
		must(os.WriteFile(filepath.Join(*out, m.Path, "go.mod"), b, 0o644))
	}
	if *sitesF != "" {
		must(os.WriteFile(*sitesF, []byte(strings.Join(sites, "\n")+"\n"), 0o644))
	}
}

func must(err error) {
	if err != nil {
		fatal("%v", err)
	}
}

type inst struct {
	fset   *token.FileSet
	info   *types.Info
	mode   string
	tmp    int
	used   bool
	relDir string
	// package names to keep referenced
	keep map[string]string // local name -> a usable exported symbol
}

var keepSym = map[string]string{"fmt": "Sprint", "sync": "NewCond", "time": "Unix"}

func instrument(p *pkgInfo, pkgs map[string]*pkgInfo, mode, out string) {
	fset := token.NewFileSet()
	var files []*ast.File
	for _, f := range p.GoFiles {
		af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			fatal("parse: %v", err)
		}
		files = append(files, af)
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		q := pkgs[path]
		if q == nil || q.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(q.Export)
	})
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: imp, Error: func(err error) {}}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		fatal("typecheck %s: %v", p.ImportPath, err)
	}
	rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, p.Module.Path), "/")
	dst := filepath.Join(out, p.Module.Path, rel)
	must(os.MkdirAll(dst, 0o755))
	for i, af := range files {
		in := &inst{fset: fset, info: info, mode: mode, keep: map[string]string{}, relDir: p.ImportPath}
		in.file(af)
		var buf bytes.Buffer
		if err := format.Node(&buf, fset, af); err != nil {
			fatal("format %s: %v", p.GoFiles[i], err)
		}
		src := buf.String()
		for name, sym := range in.keep {
			src += fmt.Sprintf("\nvar _ = %s.%s\n", name, sym)
		}
		must(os.WriteFile(filepath.Join(dst, p.GoFiles[i]), []byte(src), 0o644))
	}
	for _, f := range append(append([]string{}, p.SFiles...), p.EmbedFiles...) {
		b, err := os.ReadFile(filepath.Join(p.Dir, f))
		must(err)
		must(os.MkdirAll(filepath.Dir(filepath.Join(dst, f)), 0o755))
		must(os.WriteFile(filepath.Join(dst, f), b, 0o644))
	}
}

func (in *inst) file(f *ast.File) {
	f.Comments = nil
	// drop doc comments everywhere: positions of rewritten nodes are synthetic
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			x.Doc = nil
		case *ast.FuncDecl:
			x.Doc = nil
		case *ast.Field:
			x.Doc, x.Comment = nil, nil
		case *ast.ValueSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.TypeSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ImportSpec:
			x.Doc, x.Comment = nil, nil
		}
		return true
	})
	f.Doc = nil
	for _, d := range f.Decls {
		in.rewriteSelectors(d)
	}
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			if x.Body != nil {
				in.block(x.Body, x.Type.Results != nil)
			}
		case *ast.GenDecl:
			in.funcLits(x)
		}
	}
	// import simrt
	spec := &ast.ImportSpec{Name: ast.NewIdent("simrt"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote("verif/simrt")}}
	gd := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
	f.Decls = append([]ast.Decl{gd, keepDecl()}, f.Decls...)
	// imports must come first
	var imps, rest []ast.Decl
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			imps = append(imps, d)
		} else {
			rest = append(rest, d)
		}
	}
	f.Decls = append(imps, rest...)
}

func keepDecl() ast.Decl {
	return &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{rt("Gate")}}}}
}

func rt(name string) *ast.SelectorExpr {
	return &ast.SelectorExpr{X: ast.NewIdent("simrt"), Sel: ast.NewIdent(name)}
}
func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func (in *inst) pkgOf(e ast.Expr) (string, string) {
	id, ok := e.(*ast.Ident)
	if !ok {
		return "", ""
	}
	pn, ok := in.info.Uses[id].(*types.PkgName)
	if !ok {
		return "", ""
	}
	return pn.Imported().Path(), id.Name
}

var syncTypes = map[string]bool{"Mutex": true, "RWMutex": true, "Once": true, "Map": true, "WaitGroup": true}

func (in *inst) rewriteSelectors(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		se, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		path, local := in.pkgOf(se.X)
		repl := false
		switch path {
		case "sync":
			repl = syncTypes[se.Sel.Name]
		case "fmt":
			repl = se.Sel.Name == "Printf" || se.Sel.Name == "Println" || se.Sel.Name == "Print"
		case "time":
			repl = se.Sel.Name == "AfterFunc"
			if se.Sel.Name == "Now" && (strings.HasSuffix(in.relDir, "/pokerface") || strings.HasSuffix(in.relDir, "/actor")) {
				// these tell states apart by their timestamps: a clock that never
				// reads the same twice, as the real one
				repl = true
				se.Sel = ast.NewIdent("TickNow")
			}
		}
		if repl {
			in.keep[local] = keepSym[path]
			se.X = ast.NewIdent("simrt")
		}
		return true
	})
}

// funcLits instruments function literals nested in an expression or decl.
func (in *inst) funcLits(n ast.Node) {
	if n == nil {
		return
	}
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			in.block(x.Body, x.Type.Results != nil)
			return false
		case *ast.BlockStmt:
			return false // handled by block
		}
		return true
	})
}

func (in *inst) gate(pos token.Pos) ast.Stmt {
	if in.mode == "yield" {
		siteNo++
		p := in.fset.Position(pos)
		sites = append(sites, fmt.Sprintf("%d %s/%s:%d", siteNo, in.relDir, filepath.Base(p.Filename), p.Line))
		return &ast.ExprStmt{X: call(rt("Yield"), &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(int(siteNo))})}
	}
	return &ast.ExprStmt{X: call(rt("Gate"))}
}

func (in *inst) block(b *ast.BlockStmt, hasResults bool) {
	b.List = in.list(b.List)
}

func (in *inst) list(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for i, s := range l {
		pos := s.Pos()
		ns := in.stmt(s)
		switch s.(type) {
		case *ast.EmptyStmt:
		default:
			out = append(out, in.gate(pos))
		}
		out = append(out, ns...)
		if i == len(l)-1 {
			switch x := s.(type) {
			case *ast.ExprStmt:
				if c, ok := x.X.(*ast.CallExpr); ok {
					if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "panic" {
						break
					}
				}
				out = append(out, &ast.ExprStmt{X: call(rt("Gate"))})
			case *ast.AssignStmt, *ast.SendStmt, *ast.RangeStmt:
				out = append(out, &ast.ExprStmt{X: call(rt("Gate"))})
			}
		}
	}
	return out
}

func (in *inst) name(p string) *ast.Ident {
	in.tmp++
	return ast.NewIdent(fmt.Sprintf("sim%s%d", p, in.tmp))
}

// exprs instruments the function literals and nested receives of the given expressions.
func (in *inst) exprs(es ...ast.Expr) {
	for _, e := range es {
		if e != nil {
			in.funcLits(e)
		}
	}
}

func (in *inst) stmt(s ast.Stmt) []ast.Stmt {
	one := func(s ast.Stmt) []ast.Stmt { return []ast.Stmt{s} }
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.BlockStmt:
		in.block(x, false)
	case *ast.IfStmt:
		in.simple(x.Init)
		in.exprs(x.Cond)
		in.block(x.Body, false)
		if x.Else != nil {
			r := in.stmt(x.Else)
			if len(r) == 1 {
				switch r[0].(type) {
				case *ast.IfStmt, *ast.BlockStmt:
					x.Else = r[0]
				default:
					x.Else = &ast.BlockStmt{List: r}
				}
			} else {
				x.Else = &ast.BlockStmt{List: r}
			}
		}
	case *ast.ForStmt:
		in.simple(x.Init)
		in.exprs(x.Cond)
		in.simple(x.Post)
		in.block(x.Body, false)
		if len(x.Body.List) == 0 {
			x.Body.List = []ast.Stmt{&ast.ExprStmt{X: call(rt("Gate"))}}
		}
	case *ast.RangeStmt:
		in.exprs(x.X)
		in.block(x.Body, false)
		if tv, ok := in.info.Types[x.X]; ok && tv.Type != nil {
			if _, isMap := tv.Type.Underlying().(*types.Map); isMap {
				return one(in.mapRange(x))
			}
		}
		if len(x.Body.List) == 0 {
			x.Body.List = []ast.Stmt{&ast.ExprStmt{X: call(rt("Gate"))}}
		}
	case *ast.SwitchStmt:
		in.simple(x.Init)
		in.exprs(x.Tag)
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			in.exprs(cc.List...)
			cc.Body = in.list(cc.Body)
		}
	case *ast.TypeSwitchStmt:
		in.simple(x.Init)
		in.simple(x.Assign)
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = in.list(cc.Body)
		}
	case *ast.SelectStmt:
		return in.sel(x)
	case *ast.LabeledStmt:
		r := in.stmt(x.Stmt)
		// keep the label on the last statement produced (the loop / switch)
		last := r[len(r)-1]
		x.Stmt = last
		return append(r[:len(r)-1:len(r)-1], x)
	case *ast.GoStmt:
		return in.goStmt(x)
	case *ast.DeferStmt:
		in.funcLits(x.Call)
	default:
		in.funcLits(s)
	}
	return one(s)
}

func (in *inst) simple(s ast.Stmt) {
	if s != nil {
		in.funcLits(s)
	}
}

func (in *inst) mapRange(x *ast.RangeStmt) ast.Stmt {
	it := in.name("It")
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	addr := func(e ast.Expr) ast.Expr {
		if blank(e) {
			return ast.NewIdent("nil")
		}
		return &ast.UnaryExpr{Op: token.AND, X: e}
	}
	f := &ast.ForStmt{Body: x.Body}
	f.Cond = call(&ast.SelectorExpr{X: it, Sel: ast.NewIdent("Next")}, addr(x.Key), addr(x.Value))
	as := &ast.AssignStmt{Tok: token.DEFINE}
	kb, vb := blank(x.Key), blank(x.Value)
	if x.Tok == token.ASSIGN || (kb && vb) {
		as.Lhs = []ast.Expr{it}
		as.Rhs = []ast.Expr{call(rt("MapI"), x.X)}
	} else if kb {
		as.Lhs = []ast.Expr{x.Value, it}
		as.Rhs = []ast.Expr{call(rt("MapV"), x.X)}
	} else if vb {
		as.Lhs = []ast.Expr{x.Key, it}
		as.Rhs = []ast.Expr{call(rt("MapK"), x.X)}
	} else {
		as.Lhs = []ast.Expr{x.Key, x.Value, it}
		as.Rhs = []ast.Expr{call(rt("MapKV"), x.X)}
	}
	f.Init = as
	if len(f.Body.List) == 0 {
		f.Body.List = []ast.Stmt{&ast.ExprStmt{X: call(rt("Gate"))}}
	}
	return f
}

func (in *inst) goStmt(x *ast.GoStmt) []ast.Stmt {
	c := x.Call
	in.funcLits(c)
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		body := fl
		if fl.Type.Results != nil && len(fl.Type.Results.List) > 0 {
			body = &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call(fl)}}}}
		}
		return []ast.Stmt{&ast.ExprStmt{X: call(rt("Go"), body)}}
	}
	var pre []ast.Stmt
	hoist := func(e ast.Expr) ast.Expr {
		tv := in.info.Types[e]
		if tv.Value != nil || tv.IsNil() || tv.IsType() || tv.IsBuiltin() {
			return e
		}
		if _, ok := tv.Type.(*types.Tuple); ok {
			return nil
		}
		n := in.name("A")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{n}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return n
	}
	nc := &ast.CallExpr{Ellipsis: c.Ellipsis}
	ok := true
	if id, isID := c.Fun.(*ast.Ident); isID {
		if _, isFn := in.info.Uses[id].(*types.Func); isFn {
			nc.Fun = c.Fun
		} else if _, isB := in.info.Uses[id].(*types.Builtin); isB {
			nc.Fun = c.Fun
		}
	}
	if nc.Fun == nil {
		nc.Fun = hoist(c.Fun)
	}
	for _, a := range c.Args {
		h := hoist(a)
		if h == nil {
			ok = false
			break
		}
		nc.Args = append(nc.Args, h)
	}
	if !ok || nc.Fun == nil {
		pre = nil
		nc = c
	}
	fl := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}}}
	g := &ast.ExprStmt{X: call(rt("Go"), fl)}
	if len(pre) == 0 {
		return []ast.Stmt{g}
	}
	return []ast.Stmt{&ast.BlockStmt{List: append(pre, g)}}
}

func (in *inst) sel(x *ast.SelectStmt) []ast.Stmt {
	comm := 0
	hasDef := false
	simple := true
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = true
			continue
		}
		comm++
		switch y := cc.Comm.(type) {
		case *ast.SendStmt:
		case *ast.ExprStmt:
			if u, ok := unparen(y.X).(*ast.UnaryExpr); !ok || u.Op != token.ARROW {
				simple = false
			}
		case *ast.AssignStmt:
			if u, ok := unparen(y.Rhs[0]).(*ast.UnaryExpr); !ok || u.Op != token.ARROW {
				simple = false
			}
		default:
			simple = false
		}
	}
	if comm < 2 || !simple {
		for _, c := range x.Body.List {
			cc := c.(*ast.CommClause)
			cc.Body = append([]ast.Stmt{&ast.ExprStmt{X: call(rt("Gate"))}}, in.list(cc.Body)...)
		}
		return []ast.Stmt{x}
	}
	var pre []ast.Stmt
	iN, vN, oN := in.name("I"), in.name("V"), in.name("O")
	selCall := call(rt("Select"), ast.NewIdent(fmt.Sprint(hasDef)))
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	idx := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		body := in.list(cc.Body)
		if cc.Comm == nil {
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: "1"}}}, Body: body})
			continue
		}
		chN := in.name("C")
		var head []ast.Stmt
		switch y := cc.Comm.(type) {
		case *ast.SendStmt:
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{chN}, Tok: token.DEFINE, Rhs: []ast.Expr{y.Chan}})
			selCall.Args = append(selCall.Args, call(rt("S"), chN, y.Value))
		case *ast.ExprStmt:
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{chN}, Tok: token.DEFINE, Rhs: []ast.Expr{unparen(y.X).(*ast.UnaryExpr).X}})
			selCall.Args = append(selCall.Args, call(rt("R"), chN))
		case *ast.AssignStmt:
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{chN}, Tok: token.DEFINE, Rhs: []ast.Expr{unparen(y.Rhs[0]).(*ast.UnaryExpr).X}})
			selCall.Args = append(selCall.Args, call(rt("R"), chN))
			rhs := []ast.Expr{call(rt("RV"), chN, vN)}
			if len(y.Lhs) == 2 {
				rhs = append(rhs, oN)
			}
			head = append(head, &ast.AssignStmt{Lhs: y.Lhs, Tok: y.Tok, Rhs: rhs})
		}
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}, Body: append(head, body...)})
		idx++
	}
	// the last clause becomes default so that termination analysis is unchanged
	sw.Body.List[len(sw.Body.List)-1].(*ast.CaseClause).List = nil
	pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{iN, vN, oN}, Tok: token.DEFINE, Rhs: []ast.Expr{selCall}})
	pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{vN, oN}})
	sw.Tag = iN
	return append(pre, sw)
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}
