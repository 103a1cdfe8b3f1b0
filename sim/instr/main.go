// instr rewrites the packages of hedzr/store (and the consul api module) so
// that every goroutine, channel operation, map iteration, lock, clock, file
// and remote client they use goes through the simulator, and every statement
// is a preemption point. It writes the rewritten files, an overlay.json and a
// go.work into the output folder; the sources stay untouched.
//
//	instr -repo /repo -sim /verif/sim -out DIR
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	GoFiles    []string
	ImportMap  map[string]string
	Module     *struct {
		Path string
		Dir  string
	}
	Standard   bool
	DepsErrors []struct{ Err string }
}

var (
	repo = flag.String("repo", "/repo", "")
	sim  = flag.String("sim", "/verif/sim", "")
	out  = flag.String("out", "", "")
)

const rt = "simrt__"
const consulAPI = "github.com/hashicorp/consul/api"

func die(err error, what string) {
	if err != nil {
		fmt.Fprintf(os.Stderr, "instr: %s: %v\n", what, err)
		os.Exit(3)
	}
}

func goList(args ...string) []*listPkg {
	cmd := exec.Command("go", append([]string{"list", "-export", "-deps", "-json=ImportPath,Name,Dir,Export,GoFiles,ImportMap,Module,Standard"}, args...)...)
	cmd.Dir = *repo
	cmd.Env = append(os.Environ(), "GOWORK="+filepath.Join(*repo, "go.work"))
	var eb bytes.Buffer
	cmd.Stderr = &eb
	b, err := cmd.Output()
	if err != nil {
		die(fmt.Errorf("%v\n%s", err, eb.String()), "go list")
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	var l []*listPkg
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else {
			die(err, "go list output")
		}
		l = append(l, p)
	}
	return l
}

func main() {
	flag.Parse()
	work, err := os.ReadFile(filepath.Join(*repo, "go.work"))
	die(err, "go.work")
	var uses []string
	inUse := false
	goLine := "go 1.26"
	for _, ln := range strings.Split(string(work), "\n") {
		if i := strings.Index(ln, "//"); i >= 0 {
			ln = ln[:i]
		}
		f := strings.Fields(ln)
		switch {
		case len(f) == 0:
		case f[0] == "go":
			goLine = strings.Join(f, " ")
		case f[0] == "use" && len(f) > 1 && f[1] == "(":
			inUse = true
		case f[0] == "use":
			uses = append(uses, f[1])
		case f[0] == ")":
			inUse = false
		case inUse:
			uses = append(uses, strings.Trim(f[0], `"`))
		}
	}
	var pats []string
	for _, u := range uses {
		if strings.Contains(u, "examples") || strings.HasSuffix(u, "/test") || strings.HasSuffix(u, "/tests") || u == "./tests" {
			continue
		}
		pats = append(pats, "./"+strings.TrimPrefix(filepath.ToSlash(filepath.Clean(u)), "./")+"/...")
	}
	pkgs := goList(pats...)
	byPath := map[string]*listPkg{}
	for _, p := range pkgs {
		byPath[p.ImportPath] = p
	}

	replace := map[string]string{}
	var names []string
	sites := map[int]string{}
	var targets []*listPkg
	consulDir := ""
	for _, p := range pkgs {
		if p.Module == nil || p.Standard {
			continue
		}
		if p.ImportPath == consulAPI || strings.HasPrefix(p.ImportPath, consulAPI+"/") {
			consulDir = p.Module.Dir
			targets = append(targets, p)
			continue
		}
		rel, err := filepath.Rel(*repo, p.Dir)
		if err != nil || strings.HasPrefix(rel, "..") || p.Name == "main" {
			continue
		}
		targets = append(targets, p)
	}
	sort.Slice(targets, func(i, j int) bool { return targets[i].ImportPath < targets[j].ImportPath })

	consulCopy := filepath.Join(*out, "consul-api")
	if consulDir != "" {
		die(copyDir(consulDir, consulCopy), "copy consul api")
		// its requirements are those of the workspace's modules
		die(os.WriteFile(filepath.Join(consulCopy, "go.mod"), []byte("module "+consulAPI+"\n\ngo 1.26\n"), 0o644), "write")
	}
	for i, p := range targets {
		names = append(names, p.ImportPath)
		n := 0
		for f, src := range instrument(p, byPath, i, sites) {
			n++
			dst := ""
			if strings.HasPrefix(p.ImportPath, consulAPI) {
				rel, _ := filepath.Rel(consulDir, f)
				dst = filepath.Join(consulCopy, rel)
			} else {
				rel, _ := filepath.Rel(*repo, f)
				dst = filepath.Join(*out, "src", rel)
				replace[f] = dst
			}
			die(os.MkdirAll(filepath.Dir(dst), 0o755), "mkdir")
			die(os.WriteFile(dst, src, 0o644), "write")
		}
	}

	var b bytes.Buffer
	fmt.Fprintf(&b, "package simrt\n\nfunc init() {\n\tPkgs = []string{\n")
	for _, n := range names {
		fmt.Fprintf(&b, "\t\t%q,\n", n)
	}
	fmt.Fprintf(&b, "\t}\n\tSites = map[int]string{\n")
	ids := make([]int, 0, len(sites))
	for id := range sites {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		fmt.Fprintf(&b, "\t\t%d: %q,\n", id, sites[id])
	}
	fmt.Fprintf(&b, "\t}\n}\n")
	sg := filepath.Join(*out, "sites_gen.go")
	die(os.WriteFile(sg, b.Bytes(), 0o644), "write")
	replace[filepath.Join(*sim, "simrt", "sites_gen.go")] = sg

	js, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	die(os.WriteFile(filepath.Join(*out, "overlay.json"), js, 0o644), "write")

	b.Reset()
	fmt.Fprintf(&b, "%s\n\nuse (\n", goLine)
	for _, u := range uses {
		if !filepath.IsAbs(u) {
			u = filepath.Join(*repo, u)
		}
		fmt.Fprintf(&b, "\t%s\n", u)
	}
	fmt.Fprintf(&b, "\t%s\n", *sim)
	if consulDir != "" {
		fmt.Fprintf(&b, "\t%s\n", consulCopy)
	}
	fmt.Fprintf(&b, ")\n")
	die(os.WriteFile(filepath.Join(*out, "go.work"), b.Bytes(), 0o644), "write")
	if s, err := os.ReadFile(filepath.Join(*repo, "go.work.sum")); err == nil {
		die(os.WriteFile(filepath.Join(*out, "go.work.sum"), s, 0o644), "write")
	}
	fmt.Printf("instrumented %d packages, %d statements\n", len(targets), len(sites))
}

func copyDir(src, dst string) error {
	return filepath.Walk(src, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		d := filepath.Join(dst, rel)
		if info.IsDir() {
			return os.MkdirAll(d, 0o755)
		}
		if strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(d, b, 0o644)
	})
}

type rw struct {
	p     *listPkg
	idx   int
	fset  *token.FileSet
	info  *types.Info
	pkg   *types.Package
	sites map[int]string
	siteN int
	tmpN  int
	gotos map[*ast.LabeledStmt]bool
	lhs   map[ast.Expr]bool // written, or its address taken
}

func instrument(p *listPkg, all map[string]*listPkg, idx int, sites map[int]string) map[string][]byte {
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	for _, f := range p.GoFiles {
		path := f
		if !filepath.IsAbs(path) {
			path = filepath.Join(p.Dir, f)
		}
		af, err := parser.ParseFile(fset, path, nil, parser.SkipObjectResolution)
		die(err, "parse "+path)
		files = append(files, af)
		names = append(names, path)
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if m, ok := p.ImportMap[path]; ok {
			path = m
		}
		q := all[path]
		if q == nil || q.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(q.Export)
	})
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Instances: map[*ast.Ident]types.Instance{}}
	conf := types.Config{Importer: imp}
	pkg, err := conf.Check(p.ImportPath, fset, files, info)
	die(err, "type-check "+p.ImportPath)
	r := &rw{lhs: map[ast.Expr]bool{}, p: p, idx: idx, fset: fset, info: info, pkg: pkg, sites: sites}
	outs := map[string][]byte{}
	for i, f := range files {
		outs[names[i]] = r.file(f, names[i])
	}
	return outs
}

var noYield = map[string]bool{"String": true, "Error": true, "MarshalJSON": true, "UnmarshalJSON": true, "MarshalText": true, "UnmarshalText": true,
	"Format": true, "GoString": true, "Less": true, "Len": true, "Swap": true, "LogValue": true, "GobEncode": true, "GobDecode": true}

func (r *rw) shims() map[string]string {
	m := map[string]string{"sync": "sync", "time": "time", "context": "context", "maps": "maps", "runtime": "runtime"}
	ip := r.p.ImportPath
	if strings.Contains(ip, "/providers/") {
		m["os"] = "os"
		m["path/filepath"] = "filepath"
		m["github.com/fsnotify/fsnotify"] = "fsnotify"
	}
	if strings.Contains(ip, "/providers/etcd") {
		m["go.etcd.io/etcd/client/v3"] = "clientv3"
	}
	return m
}

func (r *rw) file(f *ast.File, name string) []byte {
	r.gotos = map[*ast.LabeledStmt]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			if x.Body != nil {
				r.findGotos(x.Body)
			}
		case *ast.FuncLit:
			r.findGotos(x.Body)
		}
		return true
	})
	// 1. expression and statement level rewrites
	res := Apply(f, r.pre, r.post).(*ast.File)
	// 2. preemption points
	for _, d := range res.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			if x.Body != nil && !(x.Recv != nil && noYield[x.Name.Name]) {
				r.block(x.Body)
			}
		case *ast.GenDecl:
			r.lits(x)
		}
	}
	// 3. imports
	sh := r.shims()
	useRt := false
	ast.Inspect(res, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && id.Name == rt {
			useRt = true
		}
		return true
	})
	for _, d := range res.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			to, ok := sh[path]
			if !ok {
				continue
			}
			if is.Name == nil {
				base := path[strings.LastIndex(path, "/")+1:]
				if path == "go.etcd.io/etcd/client/v3" {
					base = "clientv3"
				}
				is.Name = ast.NewIdent(base)
			}
			is.Path.Value = strconv.Quote("verif/sim/shim/" + to)
			is.EndPos = 0
		}
	}
	if useRt {
		spec := &ast.ImportSpec{Name: ast.NewIdent(rt), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verif/sim/simrt"`}}
		decl := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
		res.Decls = append([]ast.Decl{decl}, res.Decls...)
	}
	res.Comments = nil
	var b bytes.Buffer
	fmt.Fprintf(&b, "// rewritten from %s\n\n", name)
	// directives which matter to the compiler
	if src, err := os.ReadFile(name); err == nil && bytes.Contains(src, []byte("//go:embed")) {
		fmt.Fprintf(os.Stderr, "instr: note: %s uses go:embed, left as it is\n", name)
		return src
	}
	die(format.Node(&b, token.NewFileSet(), strip(res)), "print "+name)
	return b.Bytes()
}

// findGotos notes which labels of a function are the target of a goto.
func (r *rw) findGotos(body *ast.BlockStmt) {
	labels, used := map[string]*ast.LabeledStmt{}, map[string]bool{}
	ast.Inspect(body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.LabeledStmt:
			labels[x.Label.Name] = x
		case *ast.BranchStmt:
			if x.Tok == token.GOTO {
				used[x.Label.Name] = true
			}
		}
		return true
	})
	for n := range used {
		r.gotos[labels[n]] = true
	}
}

// strip is a hook to drop positions: printing with a fresh FileSet makes the
// printer ignore the original line structure.
func strip(f *ast.File) *ast.File { return f }

// lits adds preemption points to the function literals inside of n.
func (r *rw) lits(n ast.Node) {
	if n == nil {
		return
	}
	ast.Inspect(n, func(x ast.Node) bool {
		if fl, ok := x.(*ast.FuncLit); ok {
			r.block(fl.Body)
			return false
		}
		return true
	})
}

func (r *rw) y(at ast.Node) ast.Stmt {
	r.siteN++
	id := r.idx<<16 | r.siteN
	pos := r.fset.Position(at.Pos())
	nm := ""
	if pos.IsValid() {
		rel, err := filepath.Rel(*repo, pos.Filename)
		if err != nil || strings.HasPrefix(rel, "..") {
			rel = filepath.Join(r.p.ImportPath, filepath.Base(pos.Filename))
		}
		nm = fmt.Sprintf("%s:%d", rel, pos.Line)
	}
	r.sites[id] = nm
	return &ast.ExprStmt{X: call("Y", &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(id)})}
}

func call(fn string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: sel(fn), Args: args}
}

func sel(fn string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent(rt), Sel: ast.NewIdent(fn)}
}

func isY(s ast.Stmt) bool {
	es, ok := s.(*ast.ExprStmt)
	if !ok {
		return false
	}
	c, ok := es.X.(*ast.CallExpr)
	if !ok {
		return false
	}
	se, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	id, ok := se.X.(*ast.Ident)
	return ok && id.Name == rt && se.Sel.Name == "Y"
}

func (r *rw) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = r.list(b.List)
}

func (r *rw) list(l []ast.Stmt) (out []ast.Stmt) {
	for _, s := range l {
		r.stmt(s)
		switch s.(type) {
		case *ast.EmptyStmt:
		default:
			out = append(out, r.y(s))
		}
		out = append(out, s)
		out = append(out, r.windows(s)...)
	}
	return
}

func (r *rw) stmt(s ast.Stmt) {
	switch x := s.(type) {
	case *ast.BlockStmt:
		r.block(x)
	case *ast.IfStmt:
		r.lits2(x.Init)
		r.lits(x.Cond)
		r.block(x.Body)
		if x.Else != nil {
			r.stmt(x.Else)
		}
	case *ast.ForStmt:
		r.lits2(x.Init)
		if x.Cond != nil {
			r.lits(x.Cond)
		}
		r.lits2(x.Post)
		r.loop(x.Body)
	case *ast.RangeStmt:
		r.lits(x.X)
		r.loop(x.Body)
	case *ast.SwitchStmt:
		r.lits2(x.Init)
		if x.Tag != nil {
			r.lits(x.Tag)
		}
		r.clauses(x.Body)
	case *ast.TypeSwitchStmt:
		r.lits2(x.Init)
		r.lits2(x.Assign)
		r.clauses(x.Body)
	case *ast.LabeledStmt:
		r.stmt(x.Stmt)
	case *ast.SelectStmt:
		die(fmt.Errorf("select left over"), "rewrite")
	default:
		r.lits(s)
	}
}

func (r *rw) lits2(s ast.Stmt) {
	if s != nil {
		r.lits(s)
	}
}

func (r *rw) loop(b *ast.BlockStmt) {
	r.block(b)
	if len(b.List) == 0 {
		b.List = []ast.Stmt{r.y(b)}
	}
}

func (r *rw) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		for _, e := range cc.List {
			r.lits(e)
		}
		cc.Body = r.list(cc.Body)
	}
}

// --- phase 1

func (r *rw) tmp(p string) *ast.Ident {
	r.tmpN++
	return ast.NewIdent(fmt.Sprintf("sim__%s%d", p, r.tmpN))
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func isRecv(e ast.Expr) (*ast.UnaryExpr, bool) {
	u, ok := unparen(e).(*ast.UnaryExpr)
	return u, ok && u.Op == token.ARROW
}

func (r *rw) pre(c *Cursor) bool {
	switch x := c.Node().(type) {
	case *ast.CommentGroup:
		return false
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			r.lhs[unparen(x.X)] = true
		}
	case *ast.IncDecStmt:
		r.lhs[unparen(x.X)] = true
	case *ast.RangeStmt:
		for _, e := range []ast.Expr{x.Key, x.Value} {
			if e != nil {
				r.lhs[unparen(e)] = true
			}
		}
	case *ast.AssignStmt:
		for _, e := range x.Lhs {
			r.lhs[unparen(e)] = true
		}
		// v, ok := <-ch
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u, ok := isRecv(x.Rhs[0]); ok {
				x.Rhs[0] = call("Recv2", u.X)
			}
		}
	case *ast.ValueSpec:
		if len(x.Names) == 2 && len(x.Values) == 1 {
			if u, ok := isRecv(x.Values[0]); ok {
				x.Values[0] = call("Recv2", u.X)
			}
		}
	}
	return true
}

// chanElem is set if the type is a channel.
func isKind[T types.Type](t types.Type) bool {
	if t == nil {
		return false
	}
	if tp, ok := t.(*types.TypeParam); ok {
		it, _ := tp.Constraint().Underlying().(*types.Interface)
		if it == nil {
			return false
		}
		found := false
		for i := 0; i < it.NumEmbeddeds(); i++ {
			switch e := it.EmbeddedType(i).(type) {
			case *types.Union:
				for j := 0; j < e.Len(); j++ {
					if _, ok := e.Term(j).Type().Underlying().(T); !ok {
						return false
					}
					found = true
				}
			default:
				if _, ok := e.Underlying().(T); ok {
					found = true
				}
			}
		}
		return found
	}
	_, ok := t.Underlying().(T)
	return ok
}

func (r *rw) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type()
		}
	}
	if p, ok := e.(*ast.ParenExpr); ok {
		return r.typeOf(p.X)
	}
	return nil
}

func (r *rw) builtin(e ast.Expr) string {
	id, ok := unparen(e).(*ast.Ident)
	if !ok {
		return ""
	}
	if b, ok := r.info.Uses[id].(*types.Builtin); ok {
		return b.Name()
	}
	return ""
}

// wide: a field, reached by a pointer, of a type of several words.
func (r *rw) wide(e ast.Expr) bool {
	x, ok := e.(*ast.SelectorExpr)
	if !ok || !r.shared(x) {
		return false
	}
	t := r.info.Selections[x].Type()
	if _, ok := t.(*types.TypeParam); ok {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Interface, *types.Slice:
		return true
	case *types.Basic:
		return u.Kind() == types.String
	}
	return false
}

// shared: a field of something behind a pointer, so that it has an address.
func (r *rw) shared(x *ast.SelectorExpr) bool {
	s := r.info.Selections[x]
	if s == nil || s.Kind() != types.FieldVal {
		return false
	}
	if s.Indirect() {
		return true
	}
	y, ok := unparen(x.X).(*ast.SelectorExpr)
	return ok && r.shared(y)
}

// pure: evaluating it again has no effect.
func (r *rw) pure(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return r.pure(x.X)
	case *ast.StarExpr:
		// *simrt.R(&x.f) is one of ours
		if c, ok := x.X.(*ast.CallExpr); ok {
			if _, ok := rtCall(c, "R"); ok {
				return r.pure(c.Args[0].(*ast.UnaryExpr).X)
			}
		}
		return r.pure(x.X)
	}
	return false
}

func (r *rw) roots(e ast.Expr, m map[string]bool) {
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			m[id.Name] = true
		}
		return true
	})
}

// windows are the calls which make the writes of a statement take a while.
func (r *rw) windows(s ast.Stmt) (out []ast.Stmt) {
	var lhs []ast.Expr
	assigned := map[string]bool{}
	switch x := s.(type) {
	case *ast.AssignStmt:
		if x.Tok == token.DEFINE {
			return
		}
		lhs = x.Lhs
		for _, e := range lhs {
			if id, ok := unparen(e).(*ast.Ident); ok {
				assigned[id.Name] = true
			}
		}
	case *ast.IncDecStmt:
		lhs = []ast.Expr{x.X}
	case *ast.ExprStmt:
		c, ok := x.X.(*ast.CallExpr)
		if !ok || len(c.Args) == 0 || (r.builtin(c.Fun) != "delete" && r.builtin(c.Fun) != "clear") {
			return
		}
		if isKind[*types.Map](r.typeOf(c.Args[0])) && r.pure(c.Args[0]) {
			out = append(out, &ast.ExprStmt{X: call("MW", c.Args[0])})
		}
		return
	}
	for _, e := range lhs {
		e = unparen(e)
		if ix, ok := e.(*ast.IndexExpr); ok {
			if isKind[*types.Map](r.typeOf(ix.X)) && r.pure(ix.X) && r.free(ix.X, assigned) {
				out = append(out, &ast.ExprStmt{X: call("MW", ix.X)})
			}
			continue
		}
		if r.wide(e) && r.pure(e) && r.free(e, assigned) {
			out = append(out, &ast.ExprStmt{X: call("W", &ast.UnaryExpr{Op: token.AND, X: e})})
		}
	}
	return
}

func (r *rw) free(e ast.Expr, assigned map[string]bool) bool {
	m := map[string]bool{}
	r.roots(e, m)
	for n := range m {
		if assigned[n] {
			return false
		}
	}
	return true
}

func (r *rw) post(c *Cursor) bool {
	switch x := c.Node().(type) {
	case *ast.SelectorExpr:
		if r.wide(x) && !r.lhs[x] {
			c.Replace(&ast.ParenExpr{X: &ast.StarExpr{X: call("R", &ast.UnaryExpr{Op: token.AND, X: x})}})
		}
	case *ast.IndexExpr:
		if !r.lhs[x] && isKind[*types.Map](r.typeOf(x.X)) {
			x.X = call("MR", x.X)
		}
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			c.Replace(call("Recv", x.X))
		}
	case *ast.SendStmt:
		c.Replace(&ast.ExprStmt{X: &ast.CallExpr{Fun: call("Send", x.Chan), Args: []ast.Expr{x.Value}}})
	case *ast.CallExpr:
		if r.builtin(x.Fun) == "close" {
			x.Fun = sel("Close")
		}
	case *ast.RangeStmt:
		t := r.typeOf(x.X)
		switch {
		case isKind[*types.Chan](t):
			x.X = call("RangeChan", x.X)
		case isKind[*types.Map](t):
			if x.Key == nil && x.Value == nil {
				return true // only counts
			}
			x.X = call("RangeMap", x.X)
		}
	case *ast.GoStmt:
		c.Replace(r.goStmt(x))
	case *ast.SelectStmt:
		b := r.selectStmt(x)
		selBlocks[b] = true
		c.Replace(b)
	case *ast.LabeledStmt:
		if b, ok := x.Stmt.(*ast.BlockStmt); ok && selBlocks[b] {
			n := len(b.List) - 1
			if !r.gotos[x] {
				b.List[n] = &ast.LabeledStmt{Label: x.Label, Stmt: b.List[n]}
				c.Replace(b)
				break
			}
			// the label stays for the gotos, the breaks get one of their own
			inner, used := x.Label.Name+"__sel", false
			ast.Inspect(b.List[n], func(m ast.Node) bool {
				if br, ok := m.(*ast.BranchStmt); ok && br.Tok == token.BREAK && br.Label != nil && br.Label.Name == x.Label.Name {
					br.Label, used = ast.NewIdent(inner), true
				}
				return true
			})
			if used {
				b.List[n] = &ast.LabeledStmt{Label: ast.NewIdent(inner), Stmt: b.List[n]}
			}
		}
	}
	return true
}

func (r *rw) constLike(e ast.Expr) bool {
	switch unparen(e).(type) {
	case *ast.BasicLit, *ast.FuncLit:
		return true
	}
	if tv, ok := r.info.Types[e]; ok {
		return tv.Value != nil || tv.IsNil()
	}
	return false
}

func (r *rw) goStmt(g *ast.GoStmt) ast.Stmt {
	ce := g.Call
	if fl, ok := unparen(ce.Fun).(*ast.FuncLit); ok && len(ce.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		return &ast.ExprStmt{X: call("Go", fl)}
	}
	var pre []ast.Stmt
	hold := func(e ast.Expr, p string) ast.Expr {
		id := r.tmp(p)
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return ast.NewIdent(id.Name)
	}
	fun := ce.Fun
	switch f := unparen(fun).(type) {
	case *ast.FuncLit:
	case *ast.Ident:
		if _, isFn := r.info.Uses[f].(*types.Var); isFn {
			fun = hold(fun, "f")
		}
	case *ast.SelectorExpr:
		if s := r.info.Selections[f]; s != nil {
			fun = hold(fun, "f")
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		if t := r.typeOf(fun); t != nil {
			if tv := r.info.Types[fun]; tv.IsValue() {
				fun = hold(fun, "f")
			}
		}
	default:
		fun = hold(fun, "f")
	}
	args := make([]ast.Expr, len(ce.Args))
	for i, a := range ce.Args {
		if r.constLike(a) {
			args[i] = a
		} else if tv, ok := r.info.Types[a]; ok && tv.IsType() {
			args[i] = a
		} else {
			args[i] = hold(a, "a")
		}
	}
	nc := &ast.CallExpr{Fun: fun, Args: args, Ellipsis: ce.Ellipsis}
	body := &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}}
	pre = append(pre, &ast.ExprStmt{X: call("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: body})})
	return &ast.BlockStmt{List: pre}
}

var selBlocks = map[*ast.BlockStmt]bool{}

// rtCall matches simrt__.fn(arg).
func rtCall(e ast.Expr, fns ...string) (ast.Expr, bool) {
	c, ok := unparen(e).(*ast.CallExpr)
	if !ok || len(c.Args) != 1 {
		return nil, false
	}
	se, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return nil, false
	}
	id, ok := se.X.(*ast.Ident)
	if !ok || id.Name != rt {
		return nil, false
	}
	for _, f := range fns {
		if se.Sel.Name == f {
			return c.Args[0], true
		}
	}
	return nil, false
}

// selectStmt: the communications were rewritten already (post order).
func (r *rw) selectStmt(s *ast.SelectStmt) *ast.BlockStmt {
	var pre []ast.Stmt
	var clauses []*ast.CaseClause
	var slots []ast.Expr
	var def *ast.CaseClause
	if len(s.Body.List) == 0 {
		return &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call("BlockForever")},
			&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}}}}}}
	}
	for _, cl := range s.Body.List {
		cc := cl.(*ast.CommClause)
		if cc.Comm == nil {
			def = &ast.CaseClause{Body: cc.Body}
			continue
		}
		id := r.tmp("s")
		use := func() ast.Expr { return ast.NewIdent(id.Name) }
		var body []ast.Stmt
		switch x := cc.Comm.(type) {
		case *ast.ExprStmt:
			if ch, ok := rtCall(x.X, "Recv"); ok {
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{call("RecvCase", ch)}})
				break
			}
			c, ok := x.X.(*ast.CallExpr)
			if ok {
				if ch, ok := rtCall(c.Fun, "Send"); ok {
					pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{
						&ast.CallExpr{Fun: call("SendCase", ch), Args: c.Args}}})
					break
				}
			}
			die(fmt.Errorf("odd select case"), "rewrite")
		case *ast.AssignStmt:
			ch, ok := rtCall(x.Rhs[0], "Recv", "Recv2")
			if !ok {
				die(fmt.Errorf("odd select case"), "rewrite")
			}
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{call("RecvCase", ch)}})
			rhs := []ast.Expr{&ast.SelectorExpr{X: use(), Sel: ast.NewIdent("V")}}
			if len(x.Lhs) == 2 {
				rhs = append(rhs, &ast.SelectorExpr{X: use(), Sel: ast.NewIdent("OK")})
			}
			body = append(body, &ast.AssignStmt{Lhs: x.Lhs, Tok: x.Tok, Rhs: rhs})
		}
		n := len(slots)
		slots = append(slots, use())
		clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}}, Body: append(body, cc.Body...)})
	}
	has := "false"
	if def != nil {
		has = "true"
		clauses = append(clauses, def)
	} else {
		clauses[len(clauses)-1].List = nil // default, for the termination analysis
	}
	sw := &ast.SwitchStmt{Tag: call("Select", append([]ast.Expr{ast.NewIdent(has)}, slots...)...), Body: &ast.BlockStmt{}}
	for _, c := range clauses {
		sw.Body.List = append(sw.Body.List, c)
	}
	return &ast.BlockStmt{List: append(pre, sw)}
}
