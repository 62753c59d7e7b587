// Command instr rewrites Go packages so that their locks, channels, timers,
// goroutines and process exits go through verifmc/vs, and (with -files) their
// file operations through verifmc/vfs. It writes rewritten copies of the
// files and an overlay for go build, and leaves the originals alone.
//
//	instr -dir MODDIR -modfile GO.MOD -out DIR [-sync PATTERN]... [-files PATTERN]... TARGET
//
// Packages among the dependencies of TARGET whose import path begins with a
// pattern are rewritten.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

type list []string

func (l *list) String() string     { return strings.Join(*l, ",") }
func (l *list) Set(s string) error { *l = append(*l, s); return nil }

type pkg struct {
	ImportPath, Dir, Export string
	GoFiles                 []string
	CgoFiles                []string
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

func match(l list, p string) bool {
	for _, x := range l {
		if p == x || strings.HasPrefix(p, strings.TrimSuffix(x, "/")+"/") {
			return true
		}
	}
	return false
}

func main() {
	dir := flag.String("dir", ".", "")
	modfile := flag.String("modfile", "", "")
	out := flag.String("out", "", "")
	tags := flag.String("tags", "", "")
	var syncs, files, skip, atomics list
	flag.Var(&syncs, "sync", "")
	flag.Var(&files, "files", "")
	flag.Var(&skip, "skip", "")
	flag.Var(&atomics, "atomics", "")
	flag.Parse()
	cmd := exec.Command("go", "list", "-modfile="+*modfile, "-tags="+*tags, "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,CgoFiles", flag.Arg(0))
	cmd.Dir = *dir
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	die(err)
	exports := map[string]string{}
	var pkgs []pkg
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var p pkg
		err := dec.Decode(&p)
		if err == io.EOF {
			break
		}
		die(err)
		exports[p.ImportPath] = p.Export
		pkgs = append(pkgs, p)
	}
	die(os.MkdirAll(*out, 0o755))
	over := map[string]string{}
	for _, p := range pkgs {
		s, f := match(syncs, p.ImportPath), match(files, p.ImportPath)
		if (!s && !f) || match(skip, p.ImportPath) {
			continue
		}
		rewrite(p, exports, s, f, s && match(atomics, p.ImportPath), *out, over)
	}
	j, _ := json.MarshalIndent(map[string]interface{}{"Replace": over}, "", " ")
	die(os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644))
}

type rw struct {
	info      *types.Info
	fset      *token.FileSet
	sync, fil bool
	atomics   bool
	used      map[string]bool
	n         int
	pkg       *types.Package
}

func rewrite(p pkg, exports map[string]string, s, f, at bool, out string, over map[string]string) {
	fset := token.NewFileSet()
	var asts []*ast.File
	for _, g := range p.GoFiles {
		a, err := parser.ParseFile(fset, filepath.Join(p.Dir, g), nil, parser.ParseComments)
		die(err)
		asts = append(asts, a)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	conf := types.Config{Error: func(error) {}, FakeImportC: true, Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			e = exports["vendor/"+path]
		}
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})}
	tp, _ := conf.Check(p.ImportPath, fset, asts, info)
	for i, a := range asts {
		w := &rw{info: info, fset: fset, sync: s, fil: f, atomics: at, used: map[string]bool{}, pkg: tp}
		w.file(a)
		if len(w.used) == 0 {
			continue
		}
		var buf bytes.Buffer
		if err := format.Node(&buf, fset, a); err != nil {
			die(fmt.Errorf("%s: %v", p.GoFiles[i], err))
		}
		src := buf.String()
		// comments may have been displaced: only directives at the top matter
		add := ""
		for n := range w.used {
			add += fmt.Sprintf("import verif_%s \"verifmc/%s\"\n", n, n)
		}
		src = strings.Replace(src, "\nIMPORTS_HERE", "", 1)
		k := strings.Index(src, "\npackage ")
		if strings.HasPrefix(src, "package ") {
			k = -1
		}
		e := strings.Index(src[k+1:], "\n") + k + 1
		src = src[:e+1] + add + src[e+1:]
		name := filepath.Join(out, strings.ReplaceAll(p.ImportPath, "/", "_")+"_"+p.GoFiles[i])
		die(os.WriteFile(name, []byte(src), 0o644))
		over[filepath.Join(p.Dir, p.GoFiles[i])] = name
	}
}

func (w *rw) vs(name string) ast.Expr {
	w.used["vs"] = true
	return &ast.SelectorExpr{X: ast.NewIdent("verif_vs"), Sel: ast.NewIdent(name)}
}

func (w *rw) vfs(name string) ast.Expr {
	w.used["vfs"] = true
	return &ast.SelectorExpr{X: ast.NewIdent("verif_vfs"), Sel: ast.NewIdent(name)}
}

func (w *rw) tmp() string {
	w.n++
	return fmt.Sprintf("verif_t%d", w.n)
}

var syncNames = map[string]string{
	"sync.Mutex": "Mutex", "sync.RWMutex": "RWMutex", "sync.Once": "Once", "sync.WaitGroup": "WaitGroup", "sync.Cond": "Cond", "sync.NewCond": "NewCond",
	"time.Sleep": "Sleep", "time.Now": "Now", "time.Since": "Since", "time.Until": "Until", "time.After": "After", "time.Timer": "Timer", "time.NewTimer": "NewTimer",
	"time.AfterFunc": "AfterFunc", "time.Ticker": "Ticker", "time.NewTicker": "NewTicker", "time.Tick": "Tick",
	"sync.OnceFunc": "OnceFunc", "sync.OnceValue": "OnceValue", "sync.OnceValues": "OnceValues",
	"context.WithTimeout": "WithTimeout", "context.WithDeadline": "WithDeadline", "context.WithTimeoutCause": "WithTimeoutCause", "context.WithDeadlineCause": "WithDeadlineCause",
	"golang.org/x/net/context.WithTimeout": "WithTimeout", "golang.org/x/net/context.WithDeadline": "WithDeadline",
	"log.Fatal": "Fatal", "log.Fatalf": "Fatalf", "log.Fatalln": "Fatalln", "os.Exit": "Exit", "runtime.Gosched": "Gosched",
}

var fileNames = map[string]string{
	"os.OpenFile": "OpenFile", "os.Create": "Create", "os.Open": "Open", "os.Remove": "Remove", "os.Rename": "Rename", "os.RemoveAll": "RemoveAll",
	"os.Truncate": "Truncate", "os.WriteFile": "WriteFile", "io/ioutil.WriteFile": "WriteFile", "os.Mkdir": "Mkdir", "os.MkdirAll": "MkdirAll",
	"syscall.Fdatasync": "Fdatasync", "golang.org/x/sys/unix.Fdatasync": "Fdatasync",
	"syscall.Fsync": "Fdatasync", "golang.org/x/sys/unix.Fsync": "Fdatasync",
}

var fileMethods = map[string]bool{"Write": true, "WriteAt": true, "WriteString": true, "Truncate": true, "Sync": true, "Close": true, "ReadFrom": true}

func (w *rw) file(a *ast.File) {
	// keep imports that become unused
	keep := map[string]bool{}
	for _, d := range a.Decls {
		w.node(d, keep)
	}
	// the comments inside functions would be misplaced
	var cs []*ast.CommentGroup
	for _, c := range a.Comments {
		if c.Pos() < a.Package {
			cs = append(cs, c)
			continue
		}
		for _, l := range c.List {
			if strings.HasPrefix(l.Text, "//go:") && !strings.HasPrefix(l.Text, "//go:build") {
				cs = append(cs, c)
				break
			}
		}
	}
	if len(w.used) > 0 {
		a.Comments = cs
		for _, im := range a.Imports {
			path := strings.Trim(im.Path.Value, `"`)
			name := path[strings.LastIndex(path, "/")+1:]
			if im.Name != nil {
				name = im.Name.Name
			}
			if use, ok := map[string]string{"sync": "Locker", "time": "Duration", "log": "Logger", "os": "File", "runtime": "Error", "context": "Context", "golang.org/x/net/context": "Context", "syscall": "Errno", "golang.org/x/sys/unix": "Errno", "io/ioutil": ""}[path]; ok && name != "_" && name != "." {
				if path == "io/ioutil" {
					a.Decls = append(a.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(name), Sel: ast.NewIdent("Discard")}}}}})
					continue
				}
				a.Decls = append(a.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Type: &ast.SelectorExpr{X: ast.NewIdent(name), Sel: ast.NewIdent(use)}}}})
			}
		}
	}
}

// node rewrites everything below n.
func (w *rw) node(n ast.Node, keep map[string]bool) {
	ast.Walk(&visitor{w}, n)
}

type visitor struct{ w *rw }

// Visit rewrites the children of n, then descends by itself.
func (v *visitor) Visit(n ast.Node) ast.Visitor {
	w := v.w
	switch x := n.(type) {
	case nil:
		return nil
	case *ast.BlockStmt:
		x.List = w.stmts(x.List)
		return nil
	case *ast.CaseClause:
		w.exprs(x.List)
		x.Body = w.stmts(x.Body)
		return nil
	}
	w.children(n)
	return nil
}

func (w *rw) stmts(l []ast.Stmt) []ast.Stmt {
	for i, s := range l {
		l[i] = w.stmt(s)
	}
	return l
}

func (w *rw) exprs(l []ast.Expr) {
	for i, e := range l {
		l[i] = w.expr(e)
	}
}

func (w *rw) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = w.stmts(b.List)
	}
}

func isRecv(e ast.Expr) *ast.UnaryExpr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func (w *rw) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.BlockStmt:
		w.block(x)
	case *ast.ExprStmt:
		x.X = w.expr(x.X)
	case *ast.SendStmt:
		if w.sync {
			return &ast.ExprStmt{X: call(w.vs("Send"), w.expr(x.Chan), w.expr(x.Value))}
		}
		x.Chan, x.Value = w.expr(x.Chan), w.expr(x.Value)
	case *ast.IncDecStmt:
		x.X = w.expr(x.X)
	case *ast.AssignStmt:
		if w.sync && len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u := isRecv(x.Rhs[0]); u != nil {
				w.exprs(x.Lhs)
				x.Rhs[0] = call(w.vs("Recv2"), w.expr(u.X))
				return x
			}
		}
		w.exprs(x.Lhs)
		w.exprs(x.Rhs)
	case *ast.GoStmt:
		return w.goStmt(x)
	case *ast.DeferStmt:
		w.callExpr(x.Call)
		if r := w.expr(x.Call); r != x.Call {
			if c, ok := r.(*ast.CallExpr); ok {
				x.Call = c
			}
		}
	case *ast.ReturnStmt:
		w.exprs(x.Results)
	case *ast.IfStmt:
		x.Init = w.stmt(x.Init)
		x.Cond = w.expr(x.Cond)
		w.block(x.Body)
		x.Else = w.stmt(x.Else)
	case *ast.SwitchStmt:
		x.Init = w.stmt(x.Init)
		if x.Tag != nil {
			x.Tag = w.expr(x.Tag)
		}
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			w.exprs(cc.List)
			cc.Body = w.stmts(cc.Body)
		}
	case *ast.TypeSwitchStmt:
		x.Init = w.stmt(x.Init)
		x.Assign = w.stmt(x.Assign)
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			w.exprs(cc.List)
			cc.Body = w.stmts(cc.Body)
		}
	case *ast.SelectStmt:
		return w.selectStmt(x)
	case *ast.ForStmt:
		x.Init = w.stmt(x.Init)
		if x.Cond != nil {
			x.Cond = w.expr(x.Cond)
		}
		x.Post = w.stmt(x.Post)
		w.block(x.Body)
	case *ast.RangeStmt:
		ch := false
		if t := w.info.TypeOf(x.X); t != nil {
			_, ch = t.Underlying().(*types.Chan)
		}
		x.X = w.expr(x.X)
		if ch && w.sync {
			x.X = call(w.vs("Range"), x.X)
		}
		w.block(x.Body)
	case *ast.LabeledStmt:
		if sel, ok := x.Stmt.(*ast.SelectStmt); ok && w.sync {
			b := w.selectStmt(sel).(*ast.BlockStmt)
			x.Stmt = b.List[len(b.List)-1]
			b.List[len(b.List)-1] = x
			return b
		}
		x.Stmt = w.stmt(x.Stmt)
	case *ast.DeclStmt:
		w.children(x.Decl)
	}
	return s
}

func (w *rw) goStmt(x *ast.GoStmt) ast.Stmt {
	if !w.sync {
		w.callExpr(x.Call)
		return x
	}
	c := x.Call
	isBuiltin := false
	if id, ok := c.Fun.(*ast.Ident); ok {
		_, isBuiltin = w.info.Uses[id].(*types.Builtin)
	}
	var pre []ast.Stmt
	hold := func(e ast.Expr) ast.Expr {
		tv := w.info.Types[e]
		if tv.Value != nil || tv.IsNil() {
			return e
		}
		t := ast.NewIdent(w.tmp())
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{w.expr(e)}})
		return ast.NewIdent(t.Name)
	}
	if isBuiltin {
		for i := range c.Args {
			c.Args[i] = w.expr(c.Args[i])
		}
	} else {
		if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
			w.block(fl.Body)
			return &ast.ExprStmt{X: call(w.vs("Go"), fl)}
		}
		c.Fun = hold(c.Fun)
		for i := range c.Args {
			c.Args[i] = hold(c.Args[i])
		}
	}
	g := &ast.ExprStmt{X: call(w.vs("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}})}
	return &ast.BlockStmt{List: append(pre, g)}
}

func (w *rw) selectStmt(x *ast.SelectStmt) ast.Stmt {
	if !w.sync {
		for _, c := range x.Body.List {
			cc := c.(*ast.CommClause)
			cc.Comm = w.stmt(cc.Comm)
			cc.Body = w.stmts(cc.Body)
		}
		return x
	}
	var pre []ast.Stmt
	def := "false"
	args := []ast.Expr{nil}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	k := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		var body []ast.Stmt
		if cc.Comm == nil {
			def = "true"
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: w.stmts(cc.Body)})
			continue
		}
		t := w.tmp()
		mk := func(f string, a ...ast.Expr) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{call(w.vs(f), a...)}})
			args = append(args, ast.NewIdent(t))
		}
		field := func(n string) ast.Expr { return &ast.SelectorExpr{X: ast.NewIdent(t), Sel: ast.NewIdent(n)} }
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			mk("S", w.expr(s.Chan), w.expr(s.Value))
		case *ast.ExprStmt:
			mk("R", w.expr(isRecv(s.X).X))
		case *ast.AssignStmt:
			u := isRecv(s.Rhs[0])
			mk("R", w.expr(u.X))
			w.exprs(s.Lhs)
			s.Rhs = []ast.Expr{field("V")}
			if len(s.Lhs) == 2 {
				s.Rhs = append(s.Rhs, field("OK"))
			}
			body = append(body, s)
		}
		body = append(body, w.stmts(cc.Body)...)
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(k)}}, Body: body})
		k++
	}
	args[0] = ast.NewIdent(def)
	if def == "false" {
		// so that the compiler sees a terminating statement where there was one
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"mck: select"`})}}})
	}
	sw.Tag = call(w.vs("Select"), args...)
	return &ast.BlockStmt{List: append(pre, sw)}
}

func (w *rw) callExpr(c *ast.CallExpr) {
	c.Fun = w.expr(c.Fun)
	w.exprs(c.Args)
}

// expr rewrites an expression.
func (w *rw) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if pn, ok := w.info.Uses[id].(*types.PkgName); ok {
				q := pn.Imported().Path() + "." + x.Sel.Name
				if w.sync {
					if n, ok := syncNames[q]; ok {
						return w.vs(n)
					}
				}
				if w.fil {
					if n, ok := fileNames[q]; ok {
						return w.vfs(n)
					}
				}
				return x
			}
		}
		x.X = w.expr(x.X)
		if w.fil && fileMethods[x.Sel.Name] {
			if sel := w.info.Selections[x]; sel != nil {
				if f, ok := sel.Obj().(*types.Func); ok && f.Pkg() != nil && f.Pkg().Path() == "os" && recvName(f) == "File" {
					if t := w.info.TypeOf(x.X); t != nil && t.String() == "*os.File" {
						return &ast.SelectorExpr{X: call(w.vfs("Wrap"), x.X), Sel: x.Sel}
					}
				}
			}
		}
		return x
	case *ast.UnaryExpr:
		if x.Op == token.ARROW && w.sync {
			return call(w.vs("Recv"), w.expr(x.X))
		}
		x.X = w.expr(x.X)
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok && w.sync && id.Name == "close" && len(x.Args) == 1 {
			if _, ok := w.info.Uses[id].(*types.Builtin); ok {
				return call(w.vs("Close"), w.expr(x.Args[0]))
			}
		}
		at := w.atomics && w.atomic(x.Fun)
		w.callExpr(x)
		if at {
			x.Fun = call(w.vs("At"), x.Fun)
		}
	case *ast.FuncLit:
		w.children(x.Type)
		w.block(x.Body)
	case *ast.CompositeLit:
		x.Type = w.expr(x.Type)
		w.exprs(x.Elts)
	case *ast.KeyValueExpr:
		if _, ok := x.Key.(*ast.Ident); !ok {
			x.Key = w.expr(x.Key)
		}
		x.Value = w.expr(x.Value)
	case *ast.ParenExpr:
		x.X = w.expr(x.X)
	case *ast.IndexExpr:
		x.X, x.Index = w.expr(x.X), w.expr(x.Index)
	case *ast.IndexListExpr:
		x.X = w.expr(x.X)
		w.exprs(x.Indices)
	case *ast.SliceExpr:
		x.X = w.expr(x.X)
		if x.Low != nil {
			x.Low = w.expr(x.Low)
		}
		if x.High != nil {
			x.High = w.expr(x.High)
		}
		if x.Max != nil {
			x.Max = w.expr(x.Max)
		}
	case *ast.TypeAssertExpr:
		x.X = w.expr(x.X)
		if x.Type != nil {
			x.Type = w.expr(x.Type)
		}
	case *ast.StarExpr:
		x.X = w.expr(x.X)
	case *ast.BinaryExpr:
		x.X, x.Y = w.expr(x.X), w.expr(x.Y)
	case *ast.ArrayType:
		if x.Len != nil {
			x.Len = w.expr(x.Len)
		}
		x.Elt = w.expr(x.Elt)
	case *ast.MapType:
		x.Key, x.Value = w.expr(x.Key), w.expr(x.Value)
	case *ast.ChanType:
		x.Value = w.expr(x.Value)
	case *ast.Ellipsis:
		if x.Elt != nil {
			x.Elt = w.expr(x.Elt)
		}
	case *ast.FuncType, *ast.StructType, *ast.InterfaceType:
		w.children(x)
	}
	return e
}

// atomic tells whether f is an operation of sync/atomic or of a sync.Map or
// sync.Pool, which no lock orders.
func (w *rw) atomic(f ast.Expr) bool {
	if i, ok := f.(*ast.IndexExpr); ok {
		f = i.X
	}
	sel, ok := f.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	var o types.Object
	if s := w.info.Selections[sel]; s != nil {
		o = s.Obj()
	} else {
		o = w.info.Uses[sel.Sel]
	}
	m, ok := o.(*types.Func)
	if !ok || m.Pkg() == nil {
		return false
	}
	n := recvName(m)
	return m.Pkg().Path() == "sync/atomic" || m.Pkg().Path() == "sync" && (n == "Map" || n == "Pool")
}

func recvName(f *types.Func) string {
	s, ok := f.Type().(*types.Signature)
	if !ok || s.Recv() == nil {
		return ""
	}
	t := s.Recv().Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

func (w *rw) fields(f *ast.FieldList) {
	if f == nil {
		return
	}
	for _, x := range f.List {
		// an embedded type keeps its name
		if len(x.Names) == 0 {
			if id, ok := x.Type.(*ast.SelectorExpr); ok {
				x.Type = w.expr(id)
				continue
			}
		}
		x.Type = w.expr(x.Type)
	}
}

// children rewrites declarations and types.
func (w *rw) children(n ast.Node) {
	switch x := n.(type) {
	case *ast.FuncDecl:
		w.fields(x.Recv)
		w.children(x.Type)
		w.block(x.Body)
	case *ast.GenDecl:
		for _, s := range x.Specs {
			switch y := s.(type) {
			case *ast.ValueSpec:
				if y.Type != nil {
					y.Type = w.expr(y.Type)
				}
				if w.sync && len(y.Names) == 2 && len(y.Values) == 1 {
					if u := isRecv(y.Values[0]); u != nil {
						y.Values[0] = call(w.vs("Recv2"), w.expr(u.X))
						continue
					}
				}
				w.exprs(y.Values)
			case *ast.TypeSpec:
				y.Type = w.expr(y.Type)
			}
		}
	case *ast.FuncType:
		w.fields(x.Params)
		w.fields(x.Results)
	case *ast.StructType:
		w.fields(x.Fields)
	case *ast.InterfaceType:
		w.fields(x.Methods)
	}
}
