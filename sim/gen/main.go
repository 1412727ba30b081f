// Command gen writes an instrumented copy of a Go module, in which every source
// of nondeterminism is redirected to the simulator (package simrt): goroutines,
// channels, package sync, clocks, contexts, map iteration, random numbers and
// accesses to memory that several goroutines can reach.
//
//	gen -repo DIR -out DIR
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const rtPath = "github.com/exascience/pargo/zzsim/"

type pkgInfo struct {
	ImportPath, Dir, Name string
	GoFiles, CgoFiles     []string
	SFiles                []string
	Imports               []string
	Module                *struct{ Path, GoVersion string }
	Standard              bool
	Export                string
}

func die(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "gen: "+format+"\n", args...)
	os.Exit(2)
}

func goList(dir string, args ...string) []*pkgInfo {
	cmd := exec.Command("go", append([]string{"list", "-json=ImportPath,Dir,Name,GoFiles,CgoFiles,SFiles,Imports,Module,Standard,Export"}, args...)...)
	cmd.Dir = dir
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		die("go list %v: %v", args, err)
	}
	var l []*pkgInfo
	d := json.NewDecoder(bytes.NewReader(out))
	for {
		p := new(pkgInfo)
		if err := d.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list: %v", err)
		}
		l = append(l, p)
	}
	return l
}

var locs []string
var locIndex = map[string]int{}

type impFn func(string) (*types.Package, error)

func (f impFn) Import(p string) (*types.Package, error) { return f(p) }

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	flag.Parse()
	pkgs := goList(*repo, "./...")
	own := map[string]*pkgInfo{}
	std := map[string]bool{}
	modPath, goVer := "", ""
	for _, p := range pkgs {
		if p.Name == "main" && len(p.GoFiles) > 0 {
			continue
		}
		if len(p.CgoFiles) > 0 || len(p.SFiles) > 0 {
			die("%s uses cgo or assembly", p.ImportPath)
		}
		if p.Module != nil {
			modPath, goVer = p.Module.Path, p.Module.GoVersion
		}
		if len(p.GoFiles) > 0 {
			own[p.ImportPath] = p
		}
	}
	for _, p := range own {
		for _, i := range p.Imports {
			if own[i] == nil && i != "unsafe" {
				std[i] = true
			}
		}
	}
	var sl []string
	for i := range std {
		sl = append(sl, i)
	}
	sort.Strings(sl)
	exports := map[string]string{}
	if len(sl) > 0 {
		for _, p := range goList(*repo, append([]string{"-export", "-deps"}, sl...)...) {
			exports[p.ImportPath] = p.Export
		}
	}
	fset := token.NewFileSet()
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	var order []*pkgInfo
	state := map[string]int{}
	var visit func(p *pkgInfo)
	visit = func(p *pkgInfo) {
		if state[p.ImportPath] > 0 {
			return
		}
		state[p.ImportPath] = 1
		for _, i := range p.Imports {
			if q := own[i]; q != nil {
				visit(q)
			}
		}
		order = append(order, p)
	}
	var names []string
	for n := range own {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		visit(own[n])
	}
	done := map[string]*types.Package{}
	imp := impFn(func(path string) (*types.Package, error) {
		if path == "unsafe" {
			return types.Unsafe, nil
		}
		if p := done[path]; p != nil {
			return p, nil
		}
		return gc.Import(path)
	})
	goVersion := func() string {
		v := goVer
		if v == "" || less(v, "1.21") {
			v = "1.21"
		}
		return v
	}()
	perIter := !less(goVersion, "1.22")
	for _, p := range order {
		g := &gen{fset: fset, own: own, info: &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{},
			Instances: map[*ast.Ident]types.Instance{}}, perIter: perIter}
		var files []*ast.File
		for _, f := range p.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
			if err != nil {
				die("%v", err)
			}
			files = append(files, af)
		}
		conf := types.Config{Importer: imp, Sizes: types.SizesFor("gc", "amd64"), Error: func(err error) {}}
		tp, err := conf.Check(p.ImportPath, fset, files, g.info)
		if err != nil {
			die("type checking %s: %v", p.ImportPath, err)
		}
		done[p.ImportPath] = tp
		g.pkg = tp
		rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, modPath), "/")
		dir := filepath.Join(*out, rel)
		if err := os.MkdirAll(dir, 0o755); err != nil {
			die("%v", err)
		}
		g.analyse(files)
		resets := g.resets(files)
		for i, f := range files {
			g.rel = filepath.Join(rel, p.GoFiles[i])
			src := g.file(f, i == 0, resets)
			if err := os.WriteFile(filepath.Join(dir, p.GoFiles[i]), src, 0o644); err != nil {
				die("%v", err)
			}
		}
	}
	os.WriteFile(filepath.Join(*out, "go.mod"), []byte("module "+modPath+"\n\ngo "+goVersion+"\n"), 0o644)
	dir := filepath.Join(*out, "zzsim", "loctab")
	os.MkdirAll(dir, 0o755)
	var b strings.Builder
	b.WriteString("package loctab\n\nimport \"" + rtPath + "simrt\"\n\nfunc init() { simrt.SetLocs([]string{\n")
	for _, l := range locs {
		fmt.Fprintf(&b, "\t%q,\n", l)
	}
	b.WriteString("}) }\n")
	os.WriteFile(filepath.Join(dir, "loctab.go"), []byte(b.String()), 0o644)
	if modPath != "github.com/exascience/pargo" {
		die("unexpected module path %s", modPath)
	}
}

func less(a, b string) bool {
	pa, pb := strings.Split(a, "."), strings.Split(b, ".")
	for i := 0; i < 2; i++ {
		x, y := 0, 0
		if i < len(pa) {
			x, _ = strconv.Atoi(pa[i])
		}
		if i < len(pb) {
			y, _ = strconv.Atoi(pb[i])
		}
		if x != y {
			return x < y
		}
	}
	return false
}

type gen struct {
	fset    *token.FileSet
	own     map[string]*pkgInfo
	info    *types.Info
	pkg     *types.Package
	rel     string
	shared  map[types.Object]bool
	n       int
	rt      bool // simrt used in this file
	perIter bool
}

func (g *gen) errorf(n ast.Node, format string, args ...any) {
	die("%s: %s", g.fset.Position(n.Pos()), fmt.Sprintf(format, args...))
}

// ---------------------------------------------------------------- analysis

// analyse finds the local variables that several goroutines may reach: those
// captured by a function literal or whose address is taken, unless they are
// never assigned after their declaration.
func (g *gen) analyse(files []*ast.File) {
	g.shared = map[types.Object]bool{}
	declFn := map[types.Object]ast.Node{}
	captured := map[types.Object]bool{}
	assigned := map[types.Object]bool{}
	root := func(e ast.Expr) types.Object {
		for {
			switch x := e.(type) {
			case *ast.Ident:
				if o := g.info.Uses[x]; o != nil {
					return o
				}
				return g.info.Defs[x]
			case *ast.ParenExpr:
				e = x.X
			case *ast.SelectorExpr:
				if s := g.info.Selections[x]; s == nil || isPtr(g.info.TypeOf(x.X)) {
					return nil
				}
				e = x.X
			case *ast.IndexExpr:
				if _, ok := g.info.TypeOf(x.X).Underlying().(*types.Array); !ok {
					return nil
				}
				e = x.X
			default:
				return nil
			}
		}
	}
	var fnStack []ast.Node
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			if m == nil {
				return false
			}
			switch x := m.(type) {
			case *ast.FuncDecl:
				if x == n {
					return true
				}
			case *ast.FuncLit:
				if x == n {
					return true
				}
				fnStack = append(fnStack, x)
				walk(x)
				fnStack = fnStack[:len(fnStack)-1]
				return false
			case *ast.Ident:
				cur := fnStack[len(fnStack)-1]
				if o, ok := g.info.Defs[x].(*types.Var); ok && !o.IsField() {
					declFn[o] = cur
				}
				if o, ok := g.info.Uses[x].(*types.Var); ok && !o.IsField() {
					if d, ok := declFn[o]; ok && d != cur {
						captured[o] = true
					}
				}
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					if o := root(x.X); o != nil {
						captured[o] = true
						assigned[o] = true
					}
				}
			case *ast.SelectorExpr:
				if s := g.info.Selections[x]; s != nil && s.Kind() == types.MethodVal && !isPtr(g.info.TypeOf(x.X)) {
					if f, ok := s.Obj().(*types.Func); ok {
						if r := f.Type().(*types.Signature).Recv(); r != nil && isPtr(r.Type()) {
							if o := root(x.X); o != nil && !isSyncType(o.Type()) {
								captured[o] = true
								assigned[o] = true
							}
						}
					}
				}
			case *ast.SliceExpr:
				if _, ok := g.info.TypeOf(x.X).Underlying().(*types.Array); ok {
					if o := root(x.X); o != nil {
						captured[o] = true
						assigned[o] = true
					}
				}
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					if x.Tok == token.DEFINE {
						if id, ok := l.(*ast.Ident); ok && g.info.Defs[id] != nil {
							continue
						}
					}
					if o := root(l); o != nil {
						assigned[o] = true
					}
				}
			case *ast.IncDecStmt:
				if o := root(x.X); o != nil {
					assigned[o] = true
				}
			case *ast.RangeStmt:
				for _, l := range []ast.Expr{x.Key, x.Value} {
					if l != nil {
						if o := root(l); o != nil && !(x.Tok == token.DEFINE && g.perIter) {
							assigned[o] = true
						}
					}
				}
			}
			return true
		})
	}
	for _, f := range files {
		for _, d := range f.Decls {
			fnStack = []ast.Node{d}
			walk(d)
		}
	}
	for o := range captured {
		if assigned[o] {
			g.shared[o] = true
		}
	}
	// a variable declared without a value and assigned later only by closures
	// is covered above; one that is never assigned cannot be in a race
}

func isPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func isSyncType(t types.Type) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		p := n.Obj().Pkg().Path()
		return p == "sync" || p == "sync/atomic"
	}
	return false
}

// ---------------------------------------------------------------- helpers

func id(n string) *ast.Ident { return ast.NewIdent(n) }

func (g *gen) rtSel(n string) ast.Expr {
	g.rt = true
	return &ast.SelectorExpr{X: id("zzsim_rt"), Sel: id(n)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func (g *gen) rtCall(n string, args ...ast.Expr) *ast.CallExpr { return call(g.rtSel(n), args...) }

func (g *gen) loc(n ast.Node) ast.Expr {
	p := g.fset.Position(n.Pos())
	s := fmt.Sprintf("%s:%d", g.rel, p.Line)
	i, ok := locIndex[s]
	if !ok {
		i = len(locs)
		locs = append(locs, s)
		locIndex[s] = i
	}
	return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)}
}

func (g *gen) tmp(p string) string {
	g.n++
	return fmt.Sprintf("zz%s%d", p, g.n)
}

func multi(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	_, tp := t.(*types.TypeParam)
	return tp
}

func (g *gen) typ(e ast.Expr) types.Type { return g.info.TypeOf(e) }

func (g *gen) pkgOf(e ast.Expr) *types.Package {
	if x, ok := e.(*ast.Ident); ok {
		if p, ok := g.info.Uses[x].(*types.PkgName); ok {
			return p.Imported()
		}
	}
	return nil
}

func addrOf(e ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.AND, X: e} }

// isLoc reports whether e denotes memory that other goroutines may reach.
func (g *gen) isLoc(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return g.isLoc(x.X)
	case *ast.Ident:
		if x.Name == "_" {
			return false
		}
		o, ok := g.info.Uses[x].(*types.Var)
		if !ok {
			o, ok = g.info.Defs[x].(*types.Var)
		}
		if !ok || o.IsField() {
			return false
		}
		if o.Parent() == g.pkg.Scope() {
			return true
		}
		return g.shared[o]
	case *ast.SelectorExpr:
		if p := g.pkgOf(x.X); p != nil {
			_, isVar := g.info.Uses[x.Sel].(*types.Var)
			return isVar && g.own[p.Path()] != nil
		}
		s := g.info.Selections[x]
		if s == nil || s.Kind() != types.FieldVal {
			return false
		}
		if s.Indirect() {
			return true
		}
		return g.isLoc(x.X)
	case *ast.IndexExpr:
		t := g.typ(x.X)
		if t == nil {
			return false
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return true
		case *types.Pointer:
			_, ok := u.Elem().Underlying().(*types.Array)
			return ok
		case *types.Array:
			return g.isLoc(x.X)
		}
	case *ast.StarExpr:
		tv := g.info.Types[x]
		return !tv.IsType()
	}
	return false
}

func (g *gen) addressable(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return g.addressable(x.X)
	case *ast.Ident:
		if o, ok := g.info.Uses[x].(*types.Var); ok {
			_ = o
			return true
		}
		_, ok := g.info.Defs[x].(*types.Var)
		return ok
	case *ast.SelectorExpr:
		if p := g.pkgOf(x.X); p != nil {
			_, isVar := g.info.Uses[x.Sel].(*types.Var)
			return isVar
		}
		s := g.info.Selections[x]
		if s == nil || s.Kind() != types.FieldVal {
			return false
		}
		return s.Indirect() || g.addressable(x.X)
	case *ast.IndexExpr:
		t := g.typ(x.X)
		if t == nil {
			return false
		}
		switch t.Underlying().(type) {
		case *types.Slice, *types.Pointer:
			return true
		case *types.Array:
			return g.addressable(x.X)
		}
	case *ast.StarExpr:
		return true
	}
	return false
}

// lv rewrites an addressable expression without reading it.
func (g *gen) lv(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: g.lv(x.X)}
	case *ast.Ident:
		return x
	case *ast.SelectorExpr:
		if g.pkgOf(x.X) != nil {
			return x
		}
		if !isPtr(g.typ(x.X)) && g.addressable(x.X) {
			return &ast.SelectorExpr{X: g.lv(x.X), Sel: x.Sel}
		}
		return &ast.SelectorExpr{X: g.rv(x.X), Sel: x.Sel}
	case *ast.IndexExpr:
		if _, ok := g.typ(x.X).Underlying().(*types.Array); ok && g.addressable(x.X) {
			return &ast.IndexExpr{X: g.lv(x.X), Index: g.rv(x.Index)}
		}
		return &ast.IndexExpr{X: g.rv(x.X), Index: g.rv(x.Index)}
	case *ast.StarExpr:
		return &ast.StarExpr{X: g.rv(x.X)}
	}
	return g.rv(e)
}

func (g *gen) load(n ast.Node, e ast.Expr, l ast.Expr) ast.Expr {
	f := "Ld"
	if multi(g.typ(e)) {
		f = "LdS"
	}
	return g.rtCall(f, g.loc(n), addrOf(l))
}

func isConstOrType(tv types.TypeAndValue) bool {
	return tv.Value != nil || tv.IsType() || tv.IsBuiltin() || tv.IsNil()
}

func (g *gen) isMap(e ast.Expr) bool {
	t := g.typ(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (g *gen) isChan(e ast.Expr) bool {
	t := g.typ(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

// rv rewrites an expression used as a value.
func (g *gen) rv(e ast.Expr) ast.Expr {
	r := g.rvTop(e)
	if c, ok := e.(*ast.CallExpr); ok && g.plainCall(c) {
		return g.rtCall("V", g.loc(e), r)
	}
	return r
}

// plainCall reports whether c is an ordinary call with one result.
func (g *gen) plainCall(c *ast.CallExpr) bool {
	tv := g.info.Types[c.Fun]
	if tv.IsType() || tv.IsBuiltin() {
		return false
	}
	t := g.info.Types[c]
	if t.Value != nil || t.Type == nil || t.IsVoid() {
		return false
	}
	_, tuple := t.Type.(*types.Tuple)
	return !tuple
}

func (g *gen) rvTop(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	tv, ok := g.info.Types[e]
	if ok && isConstOrType(tv) {
		if tv.IsType() {
			return g.typeExpr(e)
		}
		return e
	}
	switch x := e.(type) {
	case *ast.BasicLit:
		return x
	case *ast.Ident:
		if g.isLoc(x) {
			return g.load(x, x, x)
		}
		return x
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: g.rv(x.X)}
	case *ast.SelectorExpr:
		if p := g.pkgOf(x.X); p != nil {
			if n := redirect(p.Path(), x.Sel.Name); n != "" {
				return g.rtSel(n)
			}
			checkBanned(g, x, p.Path(), x.Sel.Name)
			if g.isLoc(x) {
				return g.load(x, x, x)
			}
			return x
		}
		s := g.info.Selections[x]
		if s == nil {
			return x
		}
		switch s.Kind() {
		case types.FieldVal:
			if g.isLoc(x) {
				return g.load(x, x, g.lv(x))
			}
			return &ast.SelectorExpr{X: g.rv(x.X), Sel: x.Sel}
		case types.MethodVal:
			return g.method(x, s)
		default: // method expression
			return x
		}
	case *ast.IndexExpr:
		if g.isMap(x.X) {
			return &ast.IndexExpr{X: g.rtCall("MR", g.loc(x), g.rv(x.X)), Index: g.rv(x.Index)}
		}
		if _, ok := g.info.Types[x.X].Type.(*types.Signature); ok {
			return x // instantiation
		}
		if g.isLoc(x) {
			return g.load(x, x, g.lv(x))
		}
		if _, ok := g.typ(x.X).Underlying().(*types.Array); ok && g.addressable(x.X) {
			return &ast.IndexExpr{X: g.lv(x.X), Index: g.rv(x.Index)}
		}
		return &ast.IndexExpr{X: g.rv(x.X), Index: g.rv(x.Index)}
	case *ast.IndexListExpr:
		return x
	case *ast.SliceExpr:
		n := &ast.SliceExpr{Slice3: x.Slice3}
		if _, ok := g.typ(x.X).Underlying().(*types.Array); ok {
			n.X = g.lv(x.X)
		} else {
			n.X = g.rv(x.X)
		}
		n.Low, n.High, n.Max = g.rvOpt(x.Low), g.rvOpt(x.High), g.rvOpt(x.Max)
		return n
	case *ast.StarExpr:
		return g.load(x, x, &ast.StarExpr{X: g.rv(x.X)})
	case *ast.UnaryExpr:
		switch x.Op {
		case token.AND:
			if _, ok := unparen(x.X).(*ast.CompositeLit); ok {
				return &ast.UnaryExpr{Op: token.AND, X: g.rv(x.X)}
			}
			return addrOf(g.lv(x.X))
		case token.ARROW:
			return g.rtCall("Recv", g.loc(x), g.rv(x.X))
		}
		return &ast.UnaryExpr{Op: x.Op, X: g.rv(x.X)}
	case *ast.BinaryExpr:
		return &ast.BinaryExpr{X: g.rv(x.X), Op: x.Op, Y: g.rv(x.Y)}
	case *ast.KeyValueExpr:
		return &ast.KeyValueExpr{Key: g.rv(x.Key), Value: g.rv(x.Value)}
	case *ast.CompositeLit:
		n := &ast.CompositeLit{Type: x.Type}
		if x.Type != nil {
			n.Type = g.typeExpr(x.Type)
		}
		t := g.typ(x)
		isStruct := false
		if t != nil {
			u := t.Underlying()
			if p, ok := u.(*types.Pointer); ok {
				u = p.Elem().Underlying()
			}
			_, isStruct = u.(*types.Struct)
		}
		for _, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				k := kv.Key
				if !isStruct {
					k = g.rv(k)
				}
				n.Elts = append(n.Elts, &ast.KeyValueExpr{Key: k, Value: g.rv(kv.Value)})
			} else {
				n.Elts = append(n.Elts, g.rv(el))
			}
		}
		return n
	case *ast.TypeAssertExpr:
		n := &ast.TypeAssertExpr{X: g.rv(x.X)}
		if x.Type != nil {
			n.Type = g.typeExpr(x.Type)
		}
		return n
	case *ast.FuncLit:
		return &ast.FuncLit{Type: g.typeExpr(x.Type).(*ast.FuncType), Body: g.block(x.Body)}
	case *ast.CallExpr:
		return g.callExpr(x)
	case *ast.ArrayType, *ast.StructType, *ast.FuncType, *ast.InterfaceType, *ast.MapType, *ast.ChanType, *ast.Ellipsis:
		return g.typeExpr(x)
	}
	g.errorf(e, "unsupported expression %T", e)
	return nil
}

func (g *gen) rvOpt(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	return g.rv(e)
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// typeExpr redirects type names such as time.Timer.
func (g *gen) typeExpr(e ast.Expr) ast.Expr {
	ast.Inspect(e, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if p := g.pkgOf(s.X); p != nil {
				if r := redirect(p.Path(), s.Sel.Name); r != "" {
					g.rt = true
					s.X, s.Sel = id("zzsim_rt"), id(r)
				}
			}
			return false
		}
		return true
	})
	return e
}

func (g *gen) method(x *ast.SelectorExpr, s *types.Selection) ast.Expr {
	f, _ := s.Obj().(*types.Func)
	ptrRecv := false
	if f != nil {
		if r := f.Type().(*types.Signature).Recv(); r != nil {
			ptrRecv = isPtr(r.Type())
		}
	}
	t := g.typ(x.X)
	if ptrRecv && !isPtr(t) && !types.IsInterface(t) && g.addressable(x.X) {
		return &ast.SelectorExpr{X: g.lv(x.X), Sel: x.Sel}
	}
	// promoted through an embedded field: do not copy the outer struct
	if len(s.Index()) > 1 && !isPtr(t) && !types.IsInterface(t) && g.addressable(x.X) {
		return &ast.SelectorExpr{X: g.lv(x.X), Sel: x.Sel}
	}
	return &ast.SelectorExpr{X: g.rv(x.X), Sel: x.Sel}
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

var reflReads = map[string]bool{"Slice": true, "Slice3": true, "Interface": true, "Int": true, "Uint": true, "Float": true, "Complex": true,
	"String": true, "Bool": true, "IsNil": true, "IsZero": true, "Index": true, "Elem": true, "MapIndex": true, "MapKeys": true, "Bytes": true, "Cap": true}

func (g *gen) callExpr(x *ast.CallExpr) ast.Expr {
	tv := g.info.Types[x.Fun]
	args := func() []ast.Expr {
		var l []ast.Expr
		for _, a := range x.Args {
			if len(x.Args) == 1 {
				if _, tuple := g.typ(a).(*types.Tuple); tuple {
					l = append(l, g.rvTop(a))
					continue
				}
			}
			l = append(l, g.rv(a))
		}
		return l
	}
	if tv.IsType() {
		a := args()
		if b, ok := tv.Type.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && isSlice(g.typ(x.Args[0])) {
			a[0] = g.rtCall("SlR", g.loc(x), a[0])
		}
		return &ast.CallExpr{Fun: g.typeExpr(x.Fun), Args: a, Ellipsis: x.Ellipsis}
	}
	if tv.IsBuiltin() {
		name := ""
		if i, ok := unparen(x.Fun).(*ast.Ident); ok {
			name = i.Name
		}
		switch name {
		case "len", "cap":
			t := g.typ(x.Args[0]).Underlying()
			if _, ok := t.(*types.Chan); ok && name == "len" {
				return g.rtCall("ChanLen", g.rv(x.Args[0]))
			}
			if g.isMap(x.Args[0]) {
				return call(x.Fun, g.rtCall("MR", g.loc(x), g.rv(x.Args[0])))
			}
			return call(x.Fun, args()...)
		case "copy":
			if b, ok := g.typ(x.Args[1]).Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				a := args()
				return g.rtCall("CopyString", g.loc(x), a[0], call(id("string"), a[1]))
			}
			return g.rtCall("Copy", append([]ast.Expr{g.loc(x)}, args()...)...)
		case "append":
			if len(x.Args) == 1 {
				return call(x.Fun, args()...)
			}
			if x.Ellipsis.IsValid() {
				b, ok := g.typ(x.Args[1]).Underlying().(*types.Basic)
				if tv := g.info.Types[x.Args[0]]; tv.IsNil() || ok && b.Kind() == types.UntypedNil {
					return &ast.CallExpr{Fun: x.Fun, Args: args(), Ellipsis: 1}
				}
				if ok && b.Info()&types.IsString != 0 {
					a := args()
					return g.rtCall("AppendString", g.loc(x), a[0], call(id("string"), a[1]))
				}
				a := args()
				return g.rtCall("AppendAll", g.loc(x), a[0], a[1])
			}
			if tv := g.info.Types[x.Args[0]]; tv.IsNil() {
				return call(x.Fun, args()...)
			}
			// conversion of the new elements to the element type must not take
			// part in type inference: Append is called as a method
			a := args()
			return call(&ast.SelectorExpr{X: g.rtCall("App", g.loc(x), a[0]), Sel: id("To")}, a[1:]...)
		case "delete":
			return call(x.Fun, g.rtCall("MW", g.loc(x), g.rv(x.Args[0])), g.rv(x.Args[1]))
		case "clear":
			if g.isMap(x.Args[0]) {
				return call(x.Fun, g.rtCall("MW", g.loc(x), g.rv(x.Args[0])))
			}
			return call(x.Fun, g.rtCall("SlW", g.loc(x), g.rv(x.Args[0])))
		case "close":
			return g.rtCall("Close", g.loc(x), g.rv(x.Args[0]))
		case "new", "make":
			l := []ast.Expr{g.typeExpr(x.Args[0])}
			for _, a := range x.Args[1:] {
				l = append(l, g.rv(a))
			}
			return call(x.Fun, l...)
		default:
			if _, sel := unparen(x.Fun).(*ast.SelectorExpr); sel { // unsafe.X
				return x
			}
			return &ast.CallExpr{Fun: x.Fun, Args: args(), Ellipsis: x.Ellipsis}
		}
	}
	if s, ok := unparen(x.Fun).(*ast.SelectorExpr); ok {
		if p := g.pkgOf(s.X); p != nil {
			switch p.Path() {
			case "reflect":
				if n, ok := map[string]string{"Select": "RSelect", "AppendSlice": "RAppendSlice", "Append": "RAppend"}[s.Sel.Name]; ok {
					return &ast.CallExpr{Fun: g.rtSel(n), Args: append([]ast.Expr{g.loc(x)}, args()...), Ellipsis: x.Ellipsis}
				}
			case "sort", "slices":
				if g.own[p.Path()] == nil {
					return g.stdSort(x, s, "SlW")
				}
			case "strings", "bytes", "unicode/utf8", "strconv":
				return g.stdSort(x, s, "SlR")
			}
		} else if sel := g.info.Selections[s]; sel != nil && isNamed(g.typ(s.X), "reflect", "Value") {
			n := s.Sel.Name
			switch {
			case n == "Recv" || n == "TryRecv" || n == "Send" || n == "TrySend" || n == "Close" || n == "Set":
				return g.rtCall("R"+n, append([]ast.Expr{g.loc(x), g.rv(s.X)}, args()...)...)
			case n == "Len":
				return g.rtCall("RLen", g.rv(s.X))
			case strings.HasPrefix(n, "Set"):
				return &ast.CallExpr{Fun: &ast.SelectorExpr{X: g.rtCall("RWr", g.loc(x), g.rv(s.X)), Sel: s.Sel}, Args: args()}
			case reflReads[n]:
				return &ast.CallExpr{Fun: &ast.SelectorExpr{X: g.rtCall("RRd", g.loc(x), g.rv(s.X)), Sel: s.Sel}, Args: args()}
			case n == "MapRange" || n == "Seq" || n == "Seq2":
				g.errorf(x, "reflect.Value.%s is not simulated", n)
			}
		}
	}
	return &ast.CallExpr{Fun: g.rvTop(x.Fun), Args: args(), Ellipsis: x.Ellipsis}
}

func isSlice(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// stdSort records the element accesses of standard functions on slices.
func (g *gen) stdSort(x *ast.CallExpr, s *ast.SelectorExpr, f string) ast.Expr {
	n := s.Sel.Name
	if len(x.Args) == 1 {
		if _, tuple := g.typ(x.Args[0]).(*types.Tuple); tuple {
			return &ast.CallExpr{Fun: x.Fun, Args: []ast.Expr{g.rvTop(x.Args[0])}}
		}
	}
	for _, p := range []string{"IsSorted", "Search", "IntsAre", "Float64sAre", "StringsAre", "SliceIsSorted", "BinarySearch", "Index", "Contains", "Equal", "Compare", "Max", "Min", "Clone"} {
		if strings.HasPrefix(n, p) {
			f = "SlR"
		}
	}
	var l []ast.Expr
	for _, a := range x.Args {
		r := g.rv(a)
		if t := g.typ(a); t != nil {
			if _, ok := t.Underlying().(*types.Slice); ok {
				r = g.rtCall(f, g.loc(x), r)
			}
		}
		l = append(l, r)
	}
	return &ast.CallExpr{Fun: x.Fun, Args: l, Ellipsis: x.Ellipsis}
}

// ---------------------------------------------------------------- statements

func (g *gen) y(n ast.Node) ast.Stmt { return &ast.ExprStmt{X: g.rtCall("Y", g.loc(n))} }

func (g *gen) block(b *ast.BlockStmt) *ast.BlockStmt {
	if b == nil {
		return nil
	}
	return &ast.BlockStmt{List: g.list(b.List)}
}

func (g *gen) loopBody(n ast.Node, b *ast.BlockStmt, pre ...ast.Stmt) *ast.BlockStmt {
	l := append(pre, g.list(b.List)...)
	if len(b.List) == 0 {
		l = append(l, g.y(n))
	}
	return &ast.BlockStmt{List: l}
}

func (g *gen) list(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		switch s.(type) {
		case *ast.EmptyStmt:
			continue
		case *ast.DeclStmt, *ast.BlockStmt, *ast.BranchStmt:
		default:
			out = append(out, g.y(s))
		}
		out = append(out, g.stmt(s, nil)...)
	}
	return out
}

func (g *gen) one(s ast.Stmt) ast.Stmt {
	l := g.stmt(s, nil)
	if len(l) == 1 {
		return l[0]
	}
	return &ast.BlockStmt{List: l}
}

func wrapLabel(label *ast.Ident, s ast.Stmt) ast.Stmt {
	if label == nil {
		return s
	}
	return &ast.LabeledStmt{Label: label, Stmt: s}
}

// stmt rewrites a statement in a statement list.
func (g *gen) stmt(s ast.Stmt, label *ast.Ident) []ast.Stmt {
	lab := func(s ast.Stmt) []ast.Stmt { return []ast.Stmt{wrapLabel(label, s)} }
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.LabeledStmt:
		return g.stmt(x.Stmt, x.Label)
	case *ast.BadStmt:
		g.errorf(s, "bad statement")
	case *ast.EmptyStmt:
		return lab(&ast.EmptyStmt{Implicit: false})
	case *ast.DeclStmt:
		return lab(&ast.DeclStmt{Decl: g.localDecl(x.Decl.(*ast.GenDecl))})
	case *ast.ExprStmt:
		if u, ok := unparen(x.X).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			return lab(&ast.ExprStmt{X: g.rvTop(u)})
		}
		return lab(&ast.ExprStmt{X: g.rvTop(x.X)})
	case *ast.SendStmt:
		return lab(g.send(x))
	case *ast.IncDecStmt:
		return lab(g.simple(x))
	case *ast.AssignStmt:
		l := g.assign(x)
		if len(l) == 1 {
			return lab(l[0])
		}
		if x.Tok == token.DEFINE {
			l[0] = wrapLabel(label, l[0])
			return l
		}
		return lab(&ast.BlockStmt{List: l})
	case *ast.GoStmt:
		return lab(g.goStmt(x))
	case *ast.DeferStmt:
		return lab(g.deferStmt(x))
	case *ast.ReturnStmt:
		n := &ast.ReturnStmt{}
		for _, r := range x.Results {
			if len(x.Results) == 1 {
				n.Results = append(n.Results, g.rvTop(r))
			} else {
				n.Results = append(n.Results, g.rv(r))
			}
		}
		return lab(n)
	case *ast.BranchStmt:
		return lab(x)
	case *ast.BlockStmt:
		return lab(g.block(x))
	case *ast.IfStmt:
		n := &ast.IfStmt{Init: g.simple(x.Init), Cond: g.rv(x.Cond), Body: g.block(x.Body)}
		if x.Else != nil {
			n.Else = g.one(x.Else)
		}
		return lab(n)
	case *ast.SwitchStmt:
		n := &ast.SwitchStmt{Init: g.simple(x.Init), Tag: g.rvOpt(x.Tag), Body: g.clauses(x.Body)}
		return lab(n)
	case *ast.TypeSwitchStmt:
		n := &ast.TypeSwitchStmt{Init: g.simple(x.Init), Body: g.clauses(x.Body)}
		switch a := x.Assign.(type) {
		case *ast.ExprStmt:
			n.Assign = &ast.ExprStmt{X: g.rv(a.X)}
		case *ast.AssignStmt:
			n.Assign = &ast.AssignStmt{Lhs: a.Lhs, Tok: a.Tok, Rhs: []ast.Expr{g.rv(a.Rhs[0])}}
		}
		return lab(n)
	case *ast.SelectStmt:
		return lab(g.selectStmt(x))
	case *ast.ForStmt:
		n := &ast.ForStmt{Init: g.simple(x.Init), Cond: g.rvOpt(x.Cond), Post: g.simple(x.Post), Body: g.loopBody(x, x.Body)}
		return lab(n)
	case *ast.RangeStmt:
		return g.rangeStmt(x, label)
	}
	g.errorf(s, "unsupported statement %T", s)
	return nil
}

func (g *gen) localDecl(d *ast.GenDecl) *ast.GenDecl {
	if d.Tok == token.TYPE {
		g.typeDecl(d)
		return d
	}
	if d.Tok != token.VAR {
		return d
	}
	n := &ast.GenDecl{Tok: d.Tok, Lparen: d.Lparen}
	if len(d.Specs) > 1 {
		n.Lparen = 1
	}
	for _, sp := range d.Specs {
		v := sp.(*ast.ValueSpec)
		m := &ast.ValueSpec{Names: v.Names, Type: v.Type}
		if v.Type != nil {
			m.Type = g.typeExpr(v.Type)
		}
		m.Values = g.defRhs(len(v.Names), v.Values)
		n.Specs = append(n.Specs, m)
	}
	return n
}

func (g *gen) defRhs(nl int, rhs []ast.Expr) (l []ast.Expr) {
	for _, r := range rhs {
		if nl == 2 && len(rhs) == 1 {
			if u, ok := unparen(r).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				l = append(l, g.rtCall("Recv2", g.loc(u), g.rv(u.X)))
				continue
			}
		}
		l = append(l, g.rvTop(r))
	}
	return
}

func (g *gen) typeDecl(d *ast.GenDecl) {
	for _, sp := range d.Specs {
		if t, ok := sp.(*ast.TypeSpec); ok {
			t.Type = g.typeExpr(t.Type)
		}
	}
}

func (g *gen) send(x *ast.SendStmt) ast.Stmt {
	return &ast.ExprStmt{X: call(&ast.SelectorExpr{X: g.rtCall("To", g.rv(x.Chan)), Sel: id("Send")}, g.loc(x), g.rv(x.Value))}
}

// simple rewrites a simple statement that must stay one statement.
func (g *gen) simple(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.ExprStmt:
		return &ast.ExprStmt{X: g.rvTop(x.X)}
	case *ast.SendStmt:
		return g.send(x)
	case *ast.IncDecStmt:
		op := token.ADD
		if x.Tok == token.DEC {
			op = token.SUB
		}
		if !g.isLoc(x.X) && !g.isMap2(x.X) {
			return &ast.IncDecStmt{X: g.lv(x.X), Tok: x.Tok}
		}
		one := &ast.BasicLit{Kind: token.INT, Value: "1"}
		return g.set(x, x.X, &ast.BinaryExpr{X: g.rvTop(x.X), Op: op, Y: one})
	case *ast.AssignStmt:
		if x.Tok == token.DEFINE {
			return &ast.AssignStmt{Lhs: x.Lhs, Tok: x.Tok, Rhs: g.defRhs(len(x.Lhs), x.Rhs)}
		}
		if len(x.Lhs) == 1 && len(x.Rhs) == 1 {
			l := g.assign(x)
			if len(l) == 1 {
				return l[0]
			}
		}
		n := &ast.AssignStmt{Tok: x.Tok, Rhs: g.defRhs(len(x.Lhs), x.Rhs)}
		for _, l := range x.Lhs {
			switch {
			case g.isMap2(l):
				ix := unparen(l).(*ast.IndexExpr)
				n.Lhs = append(n.Lhs, &ast.IndexExpr{X: g.rtCall("MW", g.loc(l), g.rv(ix.X)), Index: g.rv(ix.Index)})
			case g.isLoc(l):
				n.Lhs = append(n.Lhs, &ast.StarExpr{X: g.rtCall("WS", g.loc(l), addrOf(g.lv(l)))})
			default:
				n.Lhs = append(n.Lhs, g.lv(l))
			}
		}
		return n
	}
	g.errorf(s, "unsupported simple statement %T", s)
	return nil
}

// isMap2 reports whether e is an element of a map.
func (g *gen) isMap2(e ast.Expr) bool {
	ix, ok := unparen(e).(*ast.IndexExpr)
	return ok && g.isMap(ix.X)
}

// set assigns the rewritten value v to the location l.
func (g *gen) set(n ast.Node, l ast.Expr, v ast.Expr) ast.Stmt {
	if g.isMap2(l) {
		ix := unparen(l).(*ast.IndexExpr)
		return &ast.ExprStmt{X: call(&ast.SelectorExpr{X: g.rtCall("M", g.rv(ix.X)), Sel: id("Set")}, g.loc(n), g.rv(ix.Index), v)}
	}
	f := "Set"
	if multi(g.typ(l)) {
		f = "SetS"
	}
	return &ast.ExprStmt{X: call(&ast.SelectorExpr{X: g.rtCall("P", addrOf(g.lv(l))), Sel: id(f)}, g.loc(n), v)}
}

var opOf = map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
	token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR,
	token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}

func (g *gen) assign(x *ast.AssignStmt) []ast.Stmt {
	if x.Tok == token.DEFINE {
		out := []ast.Stmt{&ast.AssignStmt{Lhs: x.Lhs, Tok: x.Tok, Rhs: g.defRhs(len(x.Lhs), x.Rhs)}}
		for _, l := range x.Lhs {
			if i, ok := l.(*ast.Ident); ok && i.Name != "_" && g.info.Defs[i] == nil && g.isLoc(i) {
				out = append(out, &ast.ExprStmt{X: g.rtCall("Wrote", g.loc(x), addrOf(i))})
			}
		}
		return out
	}
	isBlank := func(e ast.Expr) bool { i, ok := e.(*ast.Ident); return ok && i.Name == "_" }
	if len(x.Lhs) == 1 && len(x.Rhs) == 1 {
		l := x.Lhs[0]
		track := !isBlank(l) && (g.isLoc(l) || g.isMap2(l))
		if x.Tok == token.ASSIGN {
			if !track {
				if !isBlank(l) {
					l = g.lv(l)
				}
				return []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: x.Tok, Rhs: []ast.Expr{g.rvTop(x.Rhs[0])}}}
			}
			return []ast.Stmt{g.set(x, l, g.rvTop(x.Rhs[0]))}
		}
		if !track {
			return []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{g.lv(l)}, Tok: x.Tok, Rhs: []ast.Expr{g.rvTop(x.Rhs[0])}}}
		}
		return []ast.Stmt{g.set(x, l, &ast.BinaryExpr{X: g.rvTop(l), Op: opOf[x.Tok], Y: &ast.ParenExpr{X: g.rv(x.Rhs[0])}})}
	}
	// several variables
	any := false
	for _, l := range x.Lhs {
		if !isBlank(l) && (g.isLoc(l) || g.isMap2(l)) {
			any = true
		}
	}
	if !any {
		n := &ast.AssignStmt{Tok: x.Tok, Rhs: g.defRhs(len(x.Lhs), x.Rhs)}
		for _, l := range x.Lhs {
			if isBlank(l) {
				n.Lhs = append(n.Lhs, l)
			} else {
				n.Lhs = append(n.Lhs, g.lv(l))
			}
		}
		return []ast.Stmt{n}
	}
	var pre, post []ast.Stmt
	def := func(p string, e ast.Expr) ast.Expr {
		t := id(g.tmp(p))
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return t
	}
	type target struct {
		kind   int // 0 blank, 1 direct, 2 pointer, 3 map
		p, k   ast.Expr
		method string
	}
	ts := make([]target, len(x.Lhs))
	for i, l := range x.Lhs {
		switch {
		case isBlank(l):
			ts[i].kind = 0
		case g.isMap2(l):
			ix := unparen(l).(*ast.IndexExpr)
			ts[i].kind = 3
			ts[i].p = def("m", g.rtCall("M", g.rv(ix.X)))
			if tv := g.info.Types[ix.Index]; isConstOrType(tv) {
				ts[i].k = ix.Index
			} else {
				ts[i].k = def("k", g.rv(ix.Index))
			}
		case g.isLoc(l):
			ts[i].kind = 2
			ts[i].p = def("p", g.rtCall("P", addrOf(g.lv(l))))
			ts[i].method = "Set"
			if multi(g.typ(l)) {
				ts[i].method = "SetS"
			}
		default:
			ts[i].kind = 1
			ts[i].p = g.lv(l)
		}
	}
	vals := make([]ast.Expr, len(x.Lhs))
	if len(x.Rhs) == 1 {
		var names []ast.Expr
		for i := range x.Lhs {
			if ts[i].kind == 0 {
				names = append(names, id("_"))
			} else {
				names = append(names, id(g.tmp("t")))
				vals[i] = names[i]
			}
		}
		pre = append(pre, &ast.AssignStmt{Lhs: names, Tok: token.DEFINE, Rhs: g.defRhs(len(x.Lhs), x.Rhs)})
	} else {
		for i, r := range x.Rhs {
			tv := g.info.Types[r]
			untyped := false
			if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
				untyped = true
			}
			switch {
			case isConstOrType(tv):
				vals[i] = g.rv(r)
			case untyped && ts[i].kind != 0:
				vals[i] = def("t", g.rv(r))
			case ts[i].kind == 0:
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{g.rv(r)}})
			default:
				vals[i] = def("t", g.rv(r))
			}
		}
	}
	for i := range x.Lhs {
		switch ts[i].kind {
		case 1:
			post = append(post, &ast.AssignStmt{Lhs: []ast.Expr{ts[i].p}, Tok: token.ASSIGN, Rhs: []ast.Expr{vals[i]}})
		case 2:
			post = append(post, &ast.ExprStmt{X: call(&ast.SelectorExpr{X: ts[i].p, Sel: id(ts[i].method)}, g.loc(x), vals[i])})
		case 3:
			post = append(post, &ast.ExprStmt{X: call(&ast.SelectorExpr{X: ts[i].p, Sel: id("Set")}, g.loc(x), ts[i].k, vals[i])})
		}
	}
	return append(pre, post...)
}

func (g *gen) goStmt(x *ast.GoStmt) ast.Stmt {
	c := x.Call
	if tv := g.info.Types[c.Fun]; tv.IsBuiltin() || tv.IsType() {
		f := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: g.callExpr(c)}}}}
		return &ast.ExprStmt{X: g.rtCall("Go", g.loc(x), f)}
	}
	mk := func(body ast.Stmt) *ast.FuncLit {
		return &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{body}}}
	}
	if f, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		if f.Type.Results == nil || len(f.Type.Results.List) == 0 {
			return &ast.ExprStmt{X: g.rtCall("Go", g.loc(x), g.rv(f))}
		}
	}
	b := &ast.BlockStmt{}
	n := &ast.CallExpr{Ellipsis: c.Ellipsis}
	fn := g.tmp("f")
	b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{id(fn)}, Tok: token.DEFINE, Rhs: []ast.Expr{g.rvTop(c.Fun)}})
	n.Fun = id(fn)
	if r, ok := g.rewrittenCallee(c); ok {
		// a call that is redirected with additional arguments
		return &ast.ExprStmt{X: g.rtCall("Go", g.loc(x), mk(&ast.ExprStmt{X: r}))}
	}
	for _, a := range c.Args {
		tv := g.info.Types[a]
		if isConstOrType(tv) {
			n.Args = append(n.Args, a)
			continue
		}
		t := g.tmp("a")
		b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{id(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{g.rv(a)}})
		n.Args = append(n.Args, id(t))
	}
	b.List = append(b.List, &ast.ExprStmt{X: g.rtCall("Go", g.loc(x), mk(&ast.ExprStmt{X: n}))})
	return b
}

func (g *gen) rewrittenCallee(c *ast.CallExpr) (ast.Expr, bool) {
	s, ok := unparen(c.Fun).(*ast.SelectorExpr)
	if !ok {
		return nil, false
	}
	if p := g.pkgOf(s.X); p != nil {
		if p.Path() == "reflect" {
			return g.callExpr(c), true
		}
		return nil, false
	}
	if g.info.Selections[s] != nil && isNamed(g.typ(s.X), "reflect", "Value") {
		return g.callExpr(c), true
	}
	return nil, false
}

func (g *gen) deferStmt(x *ast.DeferStmt) ast.Stmt {
	if f, ok := x.Call.Fun.(*ast.FuncLit); ok {
		n := &ast.CallExpr{Fun: g.rv(f), Ellipsis: x.Call.Ellipsis}
		for _, a := range x.Call.Args {
			n.Args = append(n.Args, g.rv(a))
		}
		return &ast.DeferStmt{Call: n}
	}
	r := g.callExpr(x.Call)
	c, ok := r.(*ast.CallExpr)
	if !ok {
		g.errorf(x, "unsupported defer")
	}
	return &ast.DeferStmt{Call: c}
}

func (g *gen) clauses(b *ast.BlockStmt) *ast.BlockStmt {
	n := &ast.BlockStmt{}
	for _, s := range b.List {
		c := s.(*ast.CaseClause)
		m := &ast.CaseClause{Body: g.list(c.Body)}
		for _, e := range c.List {
			m.List = append(m.List, g.rv(e))
		}
		n.List = append(n.List, m)
	}
	return n
}

func (g *gen) selectStmt(x *ast.SelectStmt) ast.Stmt {
	type cc struct {
		c    *ast.CommClause
		name string
		init ast.Expr
		pre  []ast.Stmt
	}
	var cs []*cc
	var def *ast.CommClause
	for _, s := range x.Body.List {
		c := s.(*ast.CommClause)
		if c.Comm == nil {
			def = c
			continue
		}
		k := &cc{c: c, name: g.tmp("c")}
		recv := func(e ast.Expr) ast.Expr {
			u, ok := unparen(e).(*ast.UnaryExpr)
			if !ok || u.Op != token.ARROW {
				g.errorf(c, "unsupported select case")
			}
			return g.rtCall("RecvCase", g.rv(u.X))
		}
		switch m := c.Comm.(type) {
		case *ast.SendStmt:
			k.init = call(&ast.SelectorExpr{X: g.rtCall("To", g.rv(m.Chan)), Sel: id("Case")}, g.rv(m.Value))
		case *ast.ExprStmt:
			k.init = recv(m.X)
		case *ast.AssignStmt:
			k.init = recv(m.Rhs[0])
			meth := "Val"
			if len(m.Lhs) == 2 {
				meth = "Val2"
			}
			v := call(&ast.SelectorExpr{X: id(k.name), Sel: id(meth)})
			if m.Tok == token.DEFINE {
				k.pre = append(k.pre, &ast.AssignStmt{Lhs: m.Lhs, Tok: m.Tok, Rhs: []ast.Expr{v}})
			} else if len(m.Lhs) == 1 {
				if i, ok := m.Lhs[0].(*ast.Ident); ok && i.Name == "_" {
					break
				}
				if g.isLoc(m.Lhs[0]) || g.isMap2(m.Lhs[0]) {
					k.pre = append(k.pre, g.set(m, m.Lhs[0], v))
				} else {
					k.pre = append(k.pre, &ast.AssignStmt{Lhs: []ast.Expr{g.lv(m.Lhs[0])}, Tok: m.Tok, Rhs: []ast.Expr{v}})
				}
			} else {
				t0, t1 := id(g.tmp("t")), id(g.tmp("t"))
				k.pre = append(k.pre, &ast.AssignStmt{Lhs: []ast.Expr{t0, t1}, Tok: token.DEFINE, Rhs: []ast.Expr{v}})
				for i, t := range []ast.Expr{t0, t1} {
					l := m.Lhs[i]
					if d, ok := l.(*ast.Ident); ok && d.Name == "_" {
						k.pre = append(k.pre, &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{t}})
					} else if g.isLoc(l) || g.isMap2(l) {
						k.pre = append(k.pre, g.set(m, l, t))
					} else {
						k.pre = append(k.pre, &ast.AssignStmt{Lhs: []ast.Expr{g.lv(l)}, Tok: m.Tok, Rhs: []ast.Expr{t}})
					}
				}
			}
		}
		cs = append(cs, k)
	}
	hasDef := "false"
	if def != nil {
		hasDef = "true"
	}
	sel := g.rtCall("SelectN", g.loc(x), id(hasDef))
	if len(cs) == 0 && def == nil {
		return &ast.ForStmt{Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: sel}}}}
	}
	sw := &ast.SwitchStmt{Tag: sel, Body: &ast.BlockStmt{}}
	init := &ast.AssignStmt{Tok: token.DEFINE}
	for i, k := range cs {
		init.Lhs = append(init.Lhs, id(k.name))
		init.Rhs = append(init.Rhs, k.init)
		sel.Args = append(sel.Args, id(k.name))
		cl := &ast.CaseClause{Body: append(k.pre, g.list(k.c.Body)...)}
		if i < len(cs)-1 || def != nil {
			cl.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)}}
		}
		sw.Body.List = append(sw.Body.List, cl)
	}
	if def != nil {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: g.list(def.Body)})
	}
	if len(cs) > 0 {
		sw.Init = init
	}
	return sw
}

func (g *gen) rangeStmt(x *ast.RangeStmt, label *ast.Ident) []ast.Stmt {
	t := g.typ(x.X).Underlying()
	_, isMap := t.(*types.Map)
	_, isChan := t.(*types.Chan)
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		i, ok := e.(*ast.Ident)
		return ok && i.Name == "_"
	}
	sharedDef := func(e ast.Expr) bool {
		if blank(e) {
			return false
		}
		return g.isLoc(e)
	}
	if !isMap && !isChan {
		if !blank(x.Value) && elements(t) {
			return g.rangeElements(x, label, blank(x.Key))
		}
		n := &ast.RangeStmt{Key: x.Key, Value: x.Value, Tok: x.Tok, X: g.rv(x.X)}
		if _, arr := t.(*types.Array); arr && g.addressable(x.X) {
			if blank(x.Value) {
				n.X = g.lv(x.X)
			}
		}
		var pre []ast.Stmt
		if x.Tok == token.DEFINE {
			for _, e := range []ast.Expr{x.Key, x.Value} {
				if sharedDef(e) && !g.perIter {
					pre = append(pre, &ast.ExprStmt{X: g.rtCall("Wrote", g.loc(x), addrOf(e))})
				}
			}
		} else if x.Tok == token.ASSIGN {
			for _, e := range []ast.Expr{x.Key, x.Value} {
				if blank(e) {
					continue
				}
				if g.isMap2(e) {
					g.errorf(x, "range assigning to a map element")
				}
				if g.isLoc(e) {
					pre = append(pre, &ast.ExprStmt{X: g.rtCall("Wrote", g.loc(x), addrOf(g.lv(e)))})
				}
			}
			if n.Key != nil && !blank(n.Key) {
				n.Key = g.lv(n.Key)
			}
			if n.Value != nil && !blank(n.Value) {
				n.Value = g.lv(n.Value)
			}
		}
		n.Body = g.loopBody(x, x.Body, pre...)
		return []ast.Stmt{wrapLabel(label, n)}
	}
	it := id(g.tmp("it"))
	b := &ast.BlockStmt{}
	mk := "MapIter"
	if isChan {
		mk = "ChanIter"
	}
	b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{it}, Tok: token.DEFINE, Rhs: []ast.Expr{g.rtCall(mk, g.loc(x), g.rv(x.X))}})
	var args []ast.Expr
	var pre []ast.Stmt
	vars := []ast.Expr{x.Key, x.Value}
	if isChan {
		vars = vars[:1]
	}
	for i, e := range vars {
		if blank(e) {
			args = append(args, id("nil"))
			continue
		}
		zero := "Key"
		if i == 1 {
			zero = "Val"
		}
		switch {
		case x.Tok == token.DEFINE && g.perIter:
			v := id(g.tmp("v"))
			b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{call(&ast.SelectorExpr{X: it, Sel: id(zero)})}})
			args = append(args, addrOf(v))
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{e}, Tok: token.DEFINE, Rhs: []ast.Expr{v}})
		case x.Tok == token.DEFINE:
			b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{e}, Tok: token.DEFINE, Rhs: []ast.Expr{call(&ast.SelectorExpr{X: it, Sel: id(zero)})}})
			args = append(args, addrOf(e))
			if sharedDef(e) {
				pre = append(pre, &ast.ExprStmt{X: g.rtCall("Wrote", g.loc(x), addrOf(e))})
			}
		default:
			if g.isMap2(e) {
				g.errorf(x, "range assigning to a map element")
			}
			v := id(g.tmp("v"))
			b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{call(&ast.SelectorExpr{X: it, Sel: id(zero)})}})
			args = append(args, addrOf(v))
			if g.isLoc(e) {
				pre = append(pre, g.set(x, e, v))
			} else {
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{g.lv(e)}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}})
			}
		}
	}
	f := &ast.ForStmt{Cond: call(&ast.SelectorExpr{X: it, Sel: id("Next")}, args...), Body: g.loopBody(x, x.Body, pre...)}
	b.List = append(b.List, wrapLabel(label, f))
	return []ast.Stmt{b}
}

// elements is true for types over whose elements a range statement runs in place.
func elements(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		_, ok = p.Elem().Underlying().(*types.Array)
		return ok
	}
	return isSlice(t)
}

// rangeElements records the reads of the elements.
func (g *gen) rangeElements(x *ast.RangeStmt, label *ast.Ident, blankKey bool) []ast.Stmt {
	t := id(g.tmp("r"))
	b := &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{g.rv(x.X)}}}}
	read := func(k ast.Expr) ast.Stmt {
		return &ast.ExprStmt{X: g.rtCall("SlR", g.loc(x), &ast.SliceExpr{X: t, Low: k, High: &ast.BinaryExpr{X: k, Op: token.ADD, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}})}
	}
	n := &ast.RangeStmt{Key: id(g.tmp("k")), Tok: token.DEFINE, X: t}
	var pre []ast.Stmt
	if x.Tok == token.DEFINE {
		if !blankKey {
			n.Key = x.Key
		}
		n.Value = x.Value
		pre = append(pre, read(n.Key))
		for _, e := range []ast.Expr{x.Key, x.Value} {
			if (e != x.Key || !blankKey) && g.isLoc(e) && !g.perIter {
				pre = append(pre, &ast.ExprStmt{X: g.rtCall("Wrote", g.loc(x), addrOf(e))})
			}
		}
	} else {
		set := func(e, v ast.Expr) {
			if g.isMap2(e) {
				g.errorf(x, "range assigning to a map element")
			}
			if g.isLoc(e) {
				pre = append(pre, g.set(x, e, v))
			} else {
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{g.lv(e)}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}})
			}
		}
		pre = append(pre, read(n.Key))
		if !blankKey {
			set(x.Key, n.Key)
		}
		set(x.Value, &ast.IndexExpr{X: t, Index: n.Key})
	}
	n.Body = g.loopBody(x, x.Body, pre...)
	b.List = append(b.List, wrapLabel(label, n))
	return []ast.Stmt{b}
}

// ---------------------------------------------------------------- files

// resets produces statements that re-initialise package-level variables.
func (g *gen) resets(files []*ast.File) []ast.Stmt {
	var out []ast.Stmt
	type item struct {
		v *ast.ValueSpec
		f int
	}
	for _, f := range files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, sp := range gd.Specs {
				v := sp.(*ast.ValueSpec)
				if len(v.Values) == 0 {
					for _, n := range v.Names {
						if n.Name != "_" {
							out = append(out, &ast.ExprStmt{X: g.rtCall("Reset", addrOf(id(n.Name)))})
						}
					}
				}
			}
		}
	}
	return out
}

func (g *gen) file(f *ast.File, first bool, resets []ast.Stmt) []byte {
	g.rt = false
	f.Comments = nil
	f.Doc = nil
	out := &ast.File{Name: f.Name}
	var imports []*ast.ImportSpec
	var decls []ast.Decl
	var initStmts []ast.Stmt
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			x.Doc = nil
			x.Type = g.typeExpr(x.Type).(*ast.FuncType)
			if x.Recv != nil {
				for _, fl := range x.Recv.List {
					fl.Type = g.typeExpr(fl.Type)
				}
			}
			if x.Body == nil {
				g.errorf(x, "function without body")
			}
			decls = append(decls, &ast.FuncDecl{Recv: x.Recv, Name: x.Name, Type: x.Type, Body: g.block(x.Body)})
		case *ast.GenDecl:
			x.Doc = nil
			switch x.Tok {
			case token.IMPORT:
				for _, sp := range x.Specs {
					imports = append(imports, sp.(*ast.ImportSpec))
				}
			case token.TYPE:
				g.typeDecl(x)
				decls = append(decls, x)
			case token.VAR:
				n := g.localDecl(x)
				decls = append(decls, n)
				for _, sp := range n.Specs {
					v := sp.(*ast.ValueSpec)
					if len(v.Values) > 0 {
						var l []ast.Expr
						blank := true
						for _, nm := range v.Names {
							l = append(l, id(nm.Name))
							if nm.Name != "_" {
								blank = false
							}
						}
						if !blank {
							initStmts = append(initStmts, &ast.AssignStmt{Lhs: l, Tok: token.ASSIGN, Rhs: v.Values})
						}
					}
				}
			default:
				decls = append(decls, x)
			}
		}
	}
	if first {
		initStmts = append(append([]ast.Stmt(nil), resets...), initStmts...)
	}
	if len(initStmts) > 0 {
		body := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: initStmts}}
		hooks := g.rtSel("ResetHooks")
		st := &ast.AssignStmt{Lhs: []ast.Expr{hooks}, Tok: token.ASSIGN, Rhs: []ast.Expr{call(id("append"), hooks, body)}}
		decls = append(decls, &ast.FuncDecl{Name: id("init"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{st}}})
	}
	used := map[string]bool{}
	for _, d := range decls {
		ast.Inspect(d, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok {
				if i, ok := s.X.(*ast.Ident); ok {
					if p, ok := g.info.Uses[i].(*types.PkgName); ok {
						used[p.Name()] = true
					}
				}
			}
			return true
		})
	}
	gd := &ast.GenDecl{Tok: token.IMPORT, Lparen: 1}
	for _, im := range imports {
		path, _ := strconv.Unquote(im.Path.Value)
		var pn *types.PkgName
		if im.Name != nil {
			pn, _ = g.info.Defs[im.Name].(*types.PkgName)
		} else {
			pn, _ = g.info.Implicits[im].(*types.PkgName)
		}
		name := ""
		if im.Name != nil {
			name = im.Name.Name
		}
		if name == "." {
			g.errorf(im, "dot import")
		}
		newPath := path
		switch path {
		case "sync":
			newPath = rtPath + "simsync"
		case "sync/atomic":
			newPath = rtPath + "simatomic"
		case "os/signal", "net", "net/http", "os/exec", "syscall", "crypto/rand", "testing/synctest", "unique", "weak":
			g.errorf(im, "package %s is not simulated", path)
		case "C":
			g.errorf(im, "cgo")
		}
		if pn != nil && name != "_" {
			name = pn.Name()
			if !used[name] {
				name = "_"
			}
		}
		sp := &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(newPath)}}
		if name != "" {
			sp.Name = id(name)
		}
		gd.Specs = append(gd.Specs, sp)
	}
	if g.rt {
		gd.Specs = append(gd.Specs, &ast.ImportSpec{Name: id("zzsim_rt"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(rtPath + "simrt")}})
	}
	if len(gd.Specs) > 0 {
		out.Decls = append(out.Decls, gd)
	}
	out.Decls = append(out.Decls, decls...)
	var b bytes.Buffer
	b.WriteString("// Code generated by the simulator's instrumenter. DO NOT EDIT.\n\n")
	clearPos(out)
	if err := format.Node(&b, token.NewFileSet(), out); err != nil {
		die("printing %s: %v", g.rel, err)
	}
	return b.Bytes()
}

func redirect(pkg, name string) string {
	switch pkg {
	case "context":
		switch name {
		case "WithCancel", "WithTimeout", "WithDeadline", "WithValue", "WithCancelCause", "WithDeadlineCause", "WithTimeoutCause", "WithoutCancel", "Cause", "AfterFunc":
			return "Ctx" + name
		}
	case "time":
		switch name {
		case "Sleep", "After", "AfterFunc", "NewTimer", "NewTicker", "Tick", "Timer", "Ticker":
			return name
		case "Now", "Since", "Until":
			return "Time" + name
		}
	case "runtime":
		switch name {
		case "GOMAXPROCS", "NumCPU", "Gosched", "NumGoroutine", "Goexit":
			return name
		case "LockOSThread", "UnlockOSThread":
			return "Nop"
		case "Stack":
			return "RuntimeStack"
		case "SetFinalizer":
			return name
		}
	case "runtime/debug":
		switch name {
		case "Stack", "PrintStack":
			return name
		}
	case "math/rand", "math/rand/v2":
		switch name {
		case "New", "NewSource", "Rand", "Source", "NewZipf", "Zipf", "Source64", "PCG", "NewPCG", "ChaCha8", "NewChaCha8", "N", "Read", "NormFloat64", "ExpFloat64":
			return ""
		}
		return "Rand" + name
	}
	return ""
}

func checkBanned(g *gen, n ast.Node, pkg, name string) {
	bad := false
	switch pkg {
	case "runtime":
		bad = name == "AddCleanup"
	case "math/rand", "math/rand/v2":
		bad = name == "N" || name == "Read" || name == "NormFloat64" || name == "ExpFloat64"
	case "iter":
		bad = name == "Pull" || name == "Pull2"
	case "maps":
		bad = name == "Keys" || name == "Values" || name == "All"
	case "hash/maphash":
		bad = name == "MakeSeed" || name == "Hash" || name == "String" || name == "Bytes" || name == "Comparable"
	}
	if bad {
		g.errorf(n, "%s.%s is not simulated", pkg, name)
	}
}
