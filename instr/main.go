// Command instr copies a Go module's packages (and the third-party packages
// they use) into a scratch module in which every source of nondeterminism goes
// through the simulator: goroutines, channels, locks, atomics, clocks, random
// numbers, map iteration order, and (level 2) plain accesses to memory that
// other tasks could reach. It only looks at types and syntax classes, never at
// names or text of the code under test.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	GoFiles    []string
	Imports    []string
	Export     string
	Standard   bool
	DepOnly    bool
	Module     *struct {
		Path string
		Main bool
	}
	Error *struct{ Err string }
}

var (
	repo   = flag.String("repo", "/repo", "module to instrument")
	out    = flag.String("out", "", "scratch module directory")
	level  = flag.Int("level", 2, "2: everything; 1: without plain memory accesses")
	doStd  = flag.Bool("std", true, "instrument pure-Go std helper packages too")
	fset   = token.NewFileSet()
	pkgs   = map[string]*listPkg{}
	order  []*listPkg
	typed  = map[string]*types.Package{}
	target = map[string]string{} // import path -> scratch import path
	owned  = map[*types.Package]bool{}
	mutVar = map[types.Object]bool{}
)

var replaced = map[string]string{
	"sync":         "zz.test/sim/sync",
	"sync/atomic":  "zz.test/sim/sync/atomic",
	"time":         "zz.test/sim/time",
	"context":      "zz.test/sim/context",
	"runtime":      "zz.test/sim/runtime",
	"math/rand":    "zz.test/sim/rand",
	"math/rand/v2": "zz.test/sim/randv2",
	"maps":         "zz.test/sim/maps",
}

// std packages that are pure Go over slices: copied and instrumented
var stdCopy = map[string]bool{"slices": true, "container/heap": true, "container/list": true, "container/ring": true}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}

type unit struct {
	p     *listPkg
	files []*ast.File
	names []string
	info  *types.Info
	tp    *types.Package
}

func main() {
	flag.Parse()
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Name,Dir,GoFiles,Imports,Export,Standard,DepOnly,Module,Error", "./...")
	cmd.Dir = *repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "CGO_ENABLED=0", "GOWORK=off")
	cmd.Stderr = os.Stderr
	o, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(o))
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		pkgs[p.ImportPath] = p
		order = append(order, p)
	}
	root := ""
	for _, p := range order {
		if p.Module != nil && p.Module.Main {
			root = p.Module.Path
		}
	}
	if root == "" {
		die("no main module")
	}
	stdWanted := map[string]bool{}
	for _, p := range order {
		if !p.Standard && *doStd {
			for _, i := range p.Imports {
				if stdCopy[i] {
					stdWanted[i] = true
				}
			}
		}
	}
	var units []*unit
	for _, p := range order { // dependencies first
		std := p.Standard && stdWanted[p.ImportPath]
		if p.Standard && !std {
			continue
		}
		if p.Name == "main" {
			continue
		}
		switch {
		case std:
			target[p.ImportPath] = "zz.test/deps/std/" + p.ImportPath
		case p.Module != nil && p.Module.Main:
			target[p.ImportPath] = "zz.test/repo" + strings.TrimPrefix(p.ImportPath, root)
		default:
			target[p.ImportPath] = "zz.test/deps/" + p.ImportPath
		}
	}
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := pkgs[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	imp := impFunc(func(path string) (*types.Package, error) {
		if t := typed[path]; t != nil {
			return t, nil
		}
		if path == "unsafe" {
			return types.Unsafe, nil
		}
		return gc.Import(path)
	})
	for _, p := range order {
		if target[p.ImportPath] == "" {
			continue
		}
		u := &unit{p: p}
		for _, f := range p.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
			if err != nil {
				die("%v", err)
			}
			u.files = append(u.files, af)
			u.names = append(u.names, f)
		}
		u.info = &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, Instances: map[*ast.Ident]types.Instance{}, Implicits: map[ast.Node]types.Object{},
		}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		u.tp, err = conf.Check(p.ImportPath, fset, u.files, u.info)
		if err != nil {
			die("type check %s: %v", p.ImportPath, err)
		}
		typed[p.ImportPath] = u.tp
		owned[u.tp] = true
		units = append(units, u)
	}
	for _, u := range units {
		u.findMutableVars()
	}
	for _, u := range units {
		u.emit()
	}
	fmt.Printf("packages=%d level=%d\n", len(units), *level)
}

type impFunc func(string) (*types.Package, error)

func (f impFunc) Import(p string) (*types.Package, error) { return f(p) }

// findMutableVars marks package variables that functions assign or take the
// address of; the others are constants after initialisation.
func (u *unit) findMutableVars() {
	mark := func(e ast.Expr) {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
				continue
			case *ast.SelectorExpr:
				if o := u.pkgVar(x); o != nil {
					mutVar[o] = true
					return
				}
				if isPtr(u.typ(x.X)) {
					return
				}
				e = x.X
				continue
			case *ast.IndexExpr:
				if _, ok := u.typ(x.X).Underlying().(*types.Array); ok {
					e = x.X
					continue
				}
				return
			case *ast.Ident:
				if o := u.pkgVar(x); o != nil {
					mutVar[o] = true
				}
			}
			return
		}
	}
	for _, f := range u.files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					mark(l)
				}
			case *ast.IncDecStmt:
				mark(x.X)
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					mark(x.X)
				}
			case *ast.RangeStmt:
				if x.Key != nil {
					mark(x.Key)
				}
				if x.Value != nil {
					mark(x.Value)
				}
			}
			return true
		})
	}
}

// ---------------------------------------------------------------- types helpers

func (u *unit) typ(e ast.Expr) types.Type {
	if tv, ok := u.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := u.info.ObjectOf(id); o != nil && o.Type() != nil {
			return o.Type()
		}
	}
	return types.Typ[types.Invalid]
}

// core returns the underlying type, through type parameters with one core.
func core(t types.Type) types.Type {
	if tp, ok := t.(*types.TypeParam); ok {
		it, ok := tp.Constraint().Underlying().(*types.Interface)
		if !ok {
			return t
		}
		var c types.Type
		for i := 0; i < it.NumEmbeddeds(); i++ {
			switch e := it.EmbeddedType(i).(type) {
			case *types.Union:
				for j := 0; j < e.Len(); j++ {
					n := e.Term(j).Type().Underlying()
					if c != nil && !types.Identical(c, n) {
						return t
					}
					c = n
				}
			default:
				n := e.Underlying()
				if _, isI := n.(*types.Interface); isI {
					continue
				}
				c = n
			}
		}
		if c != nil {
			return c
		}
		return t
	}
	return t.Underlying()
}

func isPtr(t types.Type) bool { _, ok := core(t).(*types.Pointer); return ok }

func isSync(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "sync", "sync/atomic":
			return true
		case "time":
			return n.Obj().Name() == "Timer" || n.Obj().Name() == "Ticker"
		}
	}
	return false
}

// pkgVar returns the package-level variable e denotes, if its package is ours.
func (u *unit) pkgVar(e ast.Expr) types.Object {
	var id *ast.Ident
	switch x := e.(type) {
	case *ast.Ident:
		id = x
	case *ast.SelectorExpr:
		if u.info.Selections[x] != nil {
			return nil
		}
		id = x.Sel
	default:
		return nil
	}
	v, ok := u.info.Uses[id].(*types.Var)
	if !ok || v.IsField() || v.Pkg() == nil || !owned[v.Pkg()] {
		return nil
	}
	if v.Parent() == v.Pkg().Scope() {
		return v
	}
	return nil
}

// shared reports that e denotes a memory location other tasks may reach.
func (u *unit) shared(e ast.Expr) bool {
	if *level < 2 {
		return false
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return u.shared(x.X)
	case *ast.Ident:
		if o := u.pkgVar(x); o != nil {
			return mutVar[o] && !isSync(o.Type())
		}
		return false
	case *ast.SelectorExpr:
		if o := u.pkgVar(x); o != nil {
			return mutVar[o] && !isSync(o.Type())
		}
		s := u.info.Selections[x]
		if s == nil || s.Kind() != types.FieldVal || isSync(s.Type()) {
			return false
		}
		if s.Indirect() || isPtr(u.typ(x.X)) {
			return true
		}
		return u.shared(x.X)
	case *ast.IndexExpr:
		switch t := core(u.typ(x.X)).(type) {
		case *types.Slice:
			return !isSync(t.Elem())
		case *types.Pointer:
			return true
		case *types.Array:
			return u.shared(x.X)
		}
		return false
	case *ast.StarExpr:
		return !isSync(u.typ(e))
	}
	return false
}

// ---------------------------------------------------------------- rewriting

type rw struct {
	*unit
	locs []string
	tmp  int
	base string // name of the location base variable
	fn   string
	pure bool // inside a context where nothing may be rewritten
}

func id(s string) *ast.Ident { return ast.NewIdent(s) }
func sel(s string) ast.Expr  { return &ast.SelectorExpr{X: id("zzsim"), Sel: id(s)} }
func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: f, Args: a}
}
func lit(i int) ast.Expr { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)} }

func (r *rw) fresh(p string) string { r.tmp++; return fmt.Sprintf("zz%s%d", p, r.tmp) }

func (r *rw) loc(n ast.Node, what string) ast.Expr {
	var b bytes.Buffer
	printer.Fprint(&b, token.NewFileSet(), n)
	t := b.String()
	if i := strings.IndexByte(t, '\n'); i >= 0 {
		t = t[:i]
	}
	if len(t) > 40 {
		t = t[:40]
	}
	r.locs = append(r.locs, fmt.Sprintf("%s.%s: %s %s", r.p.Name, r.fn, what, t))
	return &ast.BinaryExpr{X: id(r.base), Op: token.ADD, Y: lit(len(r.locs) - 1)}
}

func addrOf(e ast.Expr) ast.Expr {
	if s, ok := e.(*ast.StarExpr); ok {
		return s.X
	}
	return &ast.UnaryExpr{Op: token.AND, X: e}
}

func (r *rw) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// addr rewrites e as a location (its own memory is not read).
func (r *rw) addr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: r.addr(x.X)}
	case *ast.SelectorExpr:
		s := r.info.Selections[x]
		if s == nil || s.Kind() != types.FieldVal {
			return r.expr(e)
		}
		if isPtr(r.typ(x.X)) {
			return &ast.SelectorExpr{X: r.expr(x.X), Sel: x.Sel}
		}
		return &ast.SelectorExpr{X: r.addr(x.X), Sel: x.Sel}
	case *ast.IndexExpr:
		t := r.typ(x.X)
		switch core(t).(type) {
		case *types.Array:
			return &ast.IndexExpr{X: r.addr(x.X), Index: r.expr(x.Index)}
		case *types.Slice, *types.Pointer:
			return &ast.IndexExpr{X: r.expr(x.X), Index: r.expr(x.Index)}
		}
		return r.expr(e)
	case *ast.StarExpr:
		return &ast.StarExpr{X: r.expr(x.X)}
	case *ast.Ident:
		return x
	}
	return r.expr(e)
}

func (r *rw) isBuiltin(f ast.Expr, name string) bool {
	i, ok := unparen(f).(*ast.Ident)
	if !ok || i.Name != name {
		return false
	}
	_, ok = r.info.Uses[i].(*types.Builtin)
	return ok
}

func keyNeedsID(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Chan:
		return true
	case *types.Struct, *types.Array:
		return true
	}
	_, ok := t.(*types.TypeParam)
	return ok
}

// mapRef rewrites a map operand.
func (r *rw) mapRef(m ast.Expr, write bool, what string) ast.Expr {
	fn := "MR"
	if write {
		fn = "MW"
	}
	l := r.loc(m, what)
	return call(sel(fn), r.expr(m), l)
}

func (r *rw) mapKey(m ast.Expr, k ast.Expr) ast.Expr {
	if mt, ok := core(r.typ(m)).(*types.Map); ok && keyNeedsID(mt.Key()) {
		if tv := r.info.Types[k]; tv.Value == nil && !tv.IsNil() && types.Comparable(tv.Type) {
			return call(sel("MK"), r.expr(k))
		}
	}
	return r.expr(k)
}

// expr rewrites e as a value.
func (r *rw) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	if tv, ok := r.info.Types[e]; ok {
		if tv.IsType() || tv.Value != nil {
			return e
		}
	}
	switch x := e.(type) {
	case *ast.Ident:
		if r.shared(x) {
			l := r.loc(x, "read")
			return call(sel("R"), addrOf(x), l)
		}
		return x
	case *ast.BasicLit:
		return x
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: r.expr(x.X)}
	case *ast.FuncLit:
		old := r.fn
		if !strings.HasSuffix(r.fn, "func") {
			r.fn += ".func"
		}
		x.Body.List = r.stmts(x.Body.List)
		r.fn = old
		return x
	case *ast.CompositeLit:
		t := core(r.typ(x))
		if p, ok := t.(*types.Pointer); ok {
			t = core(p.Elem())
		}
		_, isStruct := t.(*types.Struct)
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if !isStruct {
					if _, isCL := kv.Key.(*ast.CompositeLit); isCL {
						r.expr(kv.Key)
					} else {
						kv.Key = r.expr(kv.Key)
					}
				}
				kv.Value = r.expr(kv.Value)
			} else {
				x.Elts[i] = r.expr(el)
			}
		}
		return x
	case *ast.SelectorExpr:
		s := r.info.Selections[x]
		if s == nil { // package qualified
			if r.shared(x) {
				l := r.loc(x, "read")
				return call(sel("R"), addrOf(x), l)
			}
			return x
		}
		switch s.Kind() {
		case types.FieldVal:
			if r.shared(x) {
				l := r.loc(x, "read")
				return call(sel("R"), addrOf(r.addr(x)), l)
			}
			if isPtr(r.typ(x.X)) {
				return &ast.SelectorExpr{X: r.expr(x.X), Sel: x.Sel}
			}
			return &ast.SelectorExpr{X: r.addrOrExpr(x.X), Sel: x.Sel}
		case types.MethodVal:
			sig := s.Obj().Type().(*types.Signature)
			ptrRecv := sig.Recv() != nil && isPtr(sig.Recv().Type())
			if _, isI := core(r.typ(x.X)).(*types.Interface); isI {
				ptrRecv = false
			}
			if ptrRecv && !isPtr(r.typ(x.X)) {
				return &ast.SelectorExpr{X: r.addrOrExpr(x.X), Sel: x.Sel}
			}
			if isSync(r.typ(x.X)) {
				return &ast.SelectorExpr{X: r.addrOrExpr(x.X), Sel: x.Sel}
			}
			return &ast.SelectorExpr{X: r.expr(x.X), Sel: x.Sel}
		}
		return x
	case *ast.IndexExpr:
		if _, isSig := r.typ(x.X).Underlying().(*types.Signature); isSig {
			return x
		}
		if _, isMap := core(r.typ(x.X)).(*types.Map); isMap {
			if *level < 2 {
				return &ast.IndexExpr{X: r.expr(x.X), Index: r.expr(x.Index)}
			}
			return &ast.IndexExpr{X: r.mapRef(x.X, false, "map read"), Index: r.expr(x.Index)}
		}
		if r.shared(x) {
			l := r.loc(x, "read")
			return call(sel("R"), addrOf(r.addr(x)), l)
		}
		return &ast.IndexExpr{X: r.addrOrExpr(x.X), Index: r.expr(x.Index)}
	case *ast.IndexListExpr:
		return x
	case *ast.SliceExpr:
		n := &ast.SliceExpr{Low: r.expr(x.Low), High: r.expr(x.High), Max: r.expr(x.Max), Slice3: x.Slice3}
		if _, ok := core(r.typ(x.X)).(*types.Array); ok {
			n.X = r.addr(x.X)
		} else {
			n.X = r.expr(x.X)
		}
		return n
	case *ast.StarExpr:
		if r.shared(x) {
			l := r.loc(x, "read")
			return call(sel("R"), r.expr(x.X), l)
		}
		return &ast.StarExpr{X: r.expr(x.X)}
	case *ast.TypeAssertExpr:
		return &ast.TypeAssertExpr{X: r.expr(x.X), Type: x.Type}
	case *ast.UnaryExpr:
		switch x.Op {
		case token.AND:
			if _, ok := unparen(x.X).(*ast.CompositeLit); ok {
				return &ast.UnaryExpr{Op: x.Op, X: r.expr(x.X)}
			}
			return &ast.UnaryExpr{Op: x.Op, X: r.addr(x.X)}
		case token.ARROW:
			return call(sel("Recv"), r.expr(x.X))
		}
		return &ast.UnaryExpr{Op: x.Op, X: r.expr(x.X)}
	case *ast.BinaryExpr:
		return &ast.BinaryExpr{X: r.expr(x.X), Op: x.Op, Y: r.expr(x.Y)}
	case *ast.KeyValueExpr:
		x.Value = r.expr(x.Value)
		return x
	case *ast.CallExpr:
		return r.call(x)
	}
	return e
}

// addrOrExpr is used for operands of selections that do not load the operand.
func (r *rw) addrOrExpr(e ast.Expr) ast.Expr {
	switch unparen(e).(type) {
	case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr, *ast.Ident:
		return r.addr(e)
	}
	return r.expr(e)
}

func (r *rw) call(x *ast.CallExpr) ast.Expr {
	n := &ast.CallExpr{Ellipsis: x.Ellipsis, Args: append([]ast.Expr{}, x.Args...)}
	if tv, ok := r.info.Types[x.Fun]; ok && tv.IsType() { // conversion
		n.Fun = x.Fun
		r.exprs(n.Args)
		return n
	}
	if tv, ok := r.info.Types[x.Fun]; ok && tv.IsBuiltin() {
		n.Fun = x.Fun
		switch {
		case r.isBuiltin(x.Fun, "close"):
			n.Fun = sel("Close")
			r.exprs(n.Args)
			return n
		case r.isBuiltin(x.Fun, "delete") && *level >= 2:
			n.Args[0] = r.mapRef(x.Args[0], true, "map delete")
			n.Args[1] = r.expr(x.Args[1])
			return n
		case r.isBuiltin(x.Fun, "clear") && *level >= 2:
			if _, ok := core(r.typ(x.Args[0])).(*types.Map); ok {
				n.Args[0] = r.mapRef(x.Args[0], true, "map clear")
				return n
			}
		case r.isBuiltin(x.Fun, "len") && *level >= 2:
			if _, ok := core(r.typ(x.Args[0])).(*types.Map); ok {
				n.Args[0] = r.mapRef(x.Args[0], false, "map len")
				return n
			}
			if _, ok := core(r.typ(x.Args[0])).(*types.Array); ok {
				return x
			}
		case r.isBuiltin(x.Fun, "append") && *level >= 2 && len(x.Args) > 1:
			st, ok := core(r.typ(x.Args[0])).(*types.Slice)
			if ok && !r.info.Types[x.Args[0]].IsNil() {
				if x.Ellipsis.IsValid() {
					et, ok := core(r.typ(x.Args[1])).(*types.Slice)
					if !ok || !types.Identical(et.Elem(), st.Elem()) {
						break
					}
				}
				l := r.loc(x.Args[0], "append to")
				r.exprs(n.Args)
				n.Fun = sel("Append")
				n.Args = append([]ast.Expr{l}, n.Args...)
				return n
			}
		case r.isBuiltin(x.Fun, "copy") && *level >= 2:
			d, ok1 := core(r.typ(x.Args[0])).(*types.Slice)
			s, ok2 := core(r.typ(x.Args[1])).(*types.Slice)
			if ok1 && ok2 && types.Identical(d.Elem(), s.Elem()) {
				l := r.loc(x, "copy")
				r.exprs(n.Args)
				n.Fun = sel("Copy")
				n.Args = append([]ast.Expr{l}, n.Args...)
				return n
			}
		case r.isBuiltin(x.Fun, "new"), r.isBuiltin(x.Fun, "make"):
			for i := 1; i < len(n.Args); i++ {
				n.Args[i] = r.expr(n.Args[i])
			}
			return n
		case r.isBuiltin(x.Fun, "recover"):
			return x
		}
		if s, ok := unparen(x.Fun).(*ast.SelectorExpr); ok { // unsafe.X
			switch s.Sel.Name {
			case "Sizeof", "Offsetof", "Alignof":
				return x
			}
		}
		r.exprs(n.Args)
		return n
	}
	n.Fun = r.expr(x.Fun)
	r.exprs(n.Args)
	return n
}

func (r *rw) hasCall(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch c := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			tv := r.info.Types[c.Fun]
			if !tv.IsType() && !tv.IsBuiltin() {
				found = true
			}
		case *ast.UnaryExpr:
			if c.Op == token.ARROW {
				found = true
			}
		}
		return !found
	})
	return found
}

func (r *rw) isConstOrNil(e ast.Expr) bool {
	tv := r.info.Types[e]
	return tv.Value != nil || tv.IsNil()
}

func (r *rw) isMapIndex(e ast.Expr) (*ast.IndexExpr, bool) {
	x, ok := unparen(e).(*ast.IndexExpr)
	if !ok {
		return nil, false
	}
	if _, ok := core(r.typ(x.X)).(*types.Map); ok {
		return x, true
	}
	return nil, false
}

func (r *rw) wref(ptr ast.Expr, what ast.Expr) ast.Expr { return call(sel("W"), ptr, what) }

func exprStmt(e ast.Expr) ast.Stmt { return &ast.ExprStmt{X: e} }

func set(w ast.Expr, v ast.Expr) ast.Stmt {
	return exprStmt(call(&ast.SelectorExpr{X: w, Sel: id("Set")}, v))
}

func define(name string, v ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{id(name)}, Tok: token.DEFINE, Rhs: []ast.Expr{v}}
}

func isBlank(e ast.Expr) bool { i, ok := e.(*ast.Ident); return ok && i.Name == "_" }

// assign rewrites an assignment; simple is true where only a simple statement
// may stand (init and post positions).
func (r *rw) assign(a *ast.AssignStmt, simple bool) ast.Stmt {
	// receives with ok, in both = and := form
	rhs := func() []ast.Expr {
		o := make([]ast.Expr, len(a.Rhs))
		for i, e := range a.Rhs {
			if u, ok := unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW && len(a.Lhs) == 2 && len(a.Rhs) == 1 {
				o[i] = call(sel("Recv2"), r.expr(u.X))
				continue
			}
			o[i] = r.expr(e)
		}
		return o
	}
	if a.Tok == token.DEFINE {
		return &ast.AssignStmt{Lhs: a.Lhs, Tok: a.Tok, Rhs: rhs()}
	}
	if a.Tok != token.ASSIGN { // op=
		op := token.Token(int(a.Tok) - int(token.ADD_ASSIGN) + int(token.ADD))
		return r.opAssign(a.Lhs[0], op, a.Rhs[0], simple)
	}
	special := false
	for _, l := range a.Lhs {
		if r.shared(l) {
			special = true
		}
		if _, ok := r.isMapIndex(l); ok {
			special = true
		}
	}
	if !special {
		o := &ast.AssignStmt{Lhs: make([]ast.Expr, len(a.Lhs)), Tok: a.Tok, Rhs: rhs()}
		for i, l := range a.Lhs {
			o.Lhs[i] = r.addr(l)
		}
		return o
	}
	if len(a.Lhs) == 1 {
		l := a.Lhs[0]
		if m, ok := r.isMapIndex(l); ok {
			lhs := r.mapLHS(m)
			return &ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: a.Tok, Rhs: rhs()}
		}
		loc := r.loc(l, "write")
		if !simple && r.hasCall(a.Rhs[0]) && !r.isConstOrNil(a.Rhs[0]) {
			v := r.fresh("v")
			val := r.expr(a.Rhs[0])
			return &ast.BlockStmt{List: []ast.Stmt{
				define(v, val),
				set(r.wref(addrOf(r.addr(l)), loc), id(v)),
			}}
		}
		ptr := addrOf(r.addr(l))
		return set(r.wref(ptr, loc), r.expr(a.Rhs[0]))
	}
	// multiple assignment: values, then locations, then stores left to right
	var list []ast.Stmt
	vals := make([]ast.Expr, len(a.Lhs))
	if len(a.Rhs) == len(a.Lhs) {
		var ln, rn []ast.Expr
		for i, e := range a.Rhs {
			if r.isConstOrNil(e) {
				vals[i] = e
				continue
			}
			v := r.fresh("v")
			vals[i] = id(v)
			ln = append(ln, id(v))
			rn = append(rn, r.expr(e))
		}
		if len(ln) > 0 {
			list = append(list, &ast.AssignStmt{Lhs: ln, Tok: token.DEFINE, Rhs: rn})
		}
	} else {
		var ln []ast.Expr
		any := false
		for i, l := range a.Lhs {
			if isBlank(l) {
				ln = append(ln, id("_"))
				continue
			}
			v := r.fresh("v")
			vals[i] = id(v)
			ln = append(ln, id(v))
			any = true
		}
		tok := token.DEFINE
		if !any {
			tok = token.ASSIGN
		}
		list = append(list, &ast.AssignStmt{Lhs: ln, Tok: tok, Rhs: rhs()})
	}
	var sets []ast.Stmt
	for i, l := range a.Lhs {
		if isBlank(l) {
			if vals[i] != nil && !r.isConstOrNilNew(vals[i]) {
				sets = append(sets, &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{vals[i]}})
			}
			continue
		}
		if m, ok := r.isMapIndex(l); ok {
			k := r.fresh("k")
			mm := r.fresh("m")
			list = append(list, define(mm, r.expr(m.X)), define(k, r.mapKey(m.X, m.Index)))
			var tgt ast.Expr = id(mm)
			if *level >= 2 {
				tgt = call(sel("MW"), tgt, r.loc(m.X, "map write"))
			}
			sets = append(sets, &ast.AssignStmt{Lhs: []ast.Expr{&ast.IndexExpr{X: tgt, Index: id(k)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{vals[i]}})
			continue
		}
		if r.shared(l) {
			p := r.fresh("p")
			loc := r.loc(l, "write")
			list = append(list, define(p, addrOf(r.addr(l))))
			sets = append(sets, set(r.wref(id(p), loc), vals[i]))
			continue
		}
		if _, ok := unparen(l).(*ast.Ident); ok {
			sets = append(sets, &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: token.ASSIGN, Rhs: []ast.Expr{vals[i]}})
			continue
		}
		p := r.fresh("p")
		list = append(list, define(p, addrOf(r.addr(l))))
		sets = append(sets, &ast.AssignStmt{Lhs: []ast.Expr{&ast.StarExpr{X: id(p)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{vals[i]}})
	}
	b := &ast.BlockStmt{List: append(list, sets...)}
	if simple {
		return exprStmt(call(&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: b}))
	}
	return b
}

func (r *rw) isConstOrNilNew(e ast.Expr) bool {
	if i, ok := e.(*ast.Ident); ok && strings.HasPrefix(i.Name, "zz") {
		return false
	}
	return true
}

func (r *rw) mapLHS(m *ast.IndexExpr) ast.Expr {
	if *level < 2 {
		return &ast.IndexExpr{X: r.expr(m.X), Index: r.mapKey(m.X, m.Index)}
	}
	return &ast.IndexExpr{X: r.mapRef(m.X, true, "map write"), Index: r.mapKey(m.X, m.Index)}
}

func (r *rw) opAssign(l ast.Expr, op token.Token, rhs ast.Expr, simple bool) ast.Stmt {
	if m, ok := r.isMapIndex(l); ok {
		return &ast.AssignStmt{Lhs: []ast.Expr{r.mapLHS(m)}, Tok: token.Token(int(op) + int(token.ADD_ASSIGN) - int(token.ADD)), Rhs: []ast.Expr{r.expr(rhs)}}
	}
	if !r.shared(l) {
		return &ast.AssignStmt{Lhs: []ast.Expr{r.addr(l)}, Tok: token.Token(int(op) + int(token.ADD_ASSIGN) - int(token.ADD)), Rhs: []ast.Expr{r.expr(rhs)}}
	}
	p := r.fresh("p")
	lr, lw := r.loc(l, "read"), r.loc(l, "write")
	b := &ast.BlockStmt{List: []ast.Stmt{
		define(p, addrOf(r.addr(l))),
		set(r.wref(id(p), lw), &ast.BinaryExpr{X: call(sel("R"), id(p), lr), Op: op, Y: &ast.ParenExpr{X: r.expr(rhs)}}),
	}}
	if simple {
		return exprStmt(call(&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: b}))
	}
	return b
}

func (r *rw) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	switch x := s.(type) {
	case *ast.AssignStmt:
		return r.assign(x, true)
	case *ast.IncDecStmt:
		return r.incdec(x, true)
	}
	return r.stmt(s)
}

func (r *rw) incdec(x *ast.IncDecStmt, simple bool) ast.Stmt {
	if _, ok := r.isMapIndex(x.X); !ok && !r.shared(x.X) {
		return &ast.IncDecStmt{X: r.addr(x.X), Tok: x.Tok}
	}
	op := token.ADD
	if x.Tok == token.DEC {
		op = token.SUB
	}
	return r.opAssign(x.X, op, lit(1), simple)
}

func (r *rw) stmts(l []ast.Stmt) []ast.Stmt {
	o := make([]ast.Stmt, 0, len(l))
	for _, s := range l {
		o = append(o, r.stmt(s))
	}
	return o
}

func (r *rw) block(b *ast.BlockStmt, tick bool) *ast.BlockStmt {
	if b == nil {
		return nil
	}
	l := r.stmts(b.List)
	if tick {
		l = append([]ast.Stmt{exprStmt(call(sel("Tick")))}, l...)
	}
	return &ast.BlockStmt{List: l}
}

func (r *rw) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.ExprStmt:
		if u, ok := unparen(x.X).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			return exprStmt(call(sel("Recv"), r.expr(u.X)))
		}
		return &ast.ExprStmt{X: r.expr(x.X)}
	case *ast.SendStmt:
		return exprStmt(call(&ast.SelectorExpr{X: call(sel("To"), r.expr(x.Chan)), Sel: id("Send")}, r.expr(x.Value)))
	case *ast.IncDecStmt:
		return r.incdec(x, false)
	case *ast.AssignStmt:
		return r.assign(x, false)
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.DeferStmt:
		c, ok := r.call(x.Call).(*ast.CallExpr)
		if !ok {
			return x
		}
		return &ast.DeferStmt{Call: c}
	case *ast.ReturnStmt:
		n := &ast.ReturnStmt{Results: append([]ast.Expr{}, x.Results...)}
		r.exprs(n.Results)
		return n
	case *ast.BlockStmt:
		return r.block(x, false)
	case *ast.IfStmt:
		n := &ast.IfStmt{Init: r.simple(x.Init), Cond: r.expr(x.Cond), Body: r.block(x.Body, false)}
		if x.Else != nil {
			n.Else = r.stmt(x.Else)
		}
		return n
	case *ast.CaseClause:
		n := &ast.CaseClause{Body: r.stmts(x.Body)}
		if len(x.List) > 0 {
			n.List = append([]ast.Expr{}, x.List...)
			r.exprs(n.List)
		}
		return n
	case *ast.SwitchStmt:
		return &ast.SwitchStmt{Init: r.simple(x.Init), Tag: r.expr(x.Tag), Body: r.block(x.Body, false)}
	case *ast.TypeSwitchStmt:
		n := &ast.TypeSwitchStmt{Init: r.simple(x.Init)}
		switch a := x.Assign.(type) {
		case *ast.AssignStmt:
			ta := a.Rhs[0].(*ast.TypeAssertExpr)
			n.Assign = &ast.AssignStmt{Lhs: a.Lhs, Tok: a.Tok, Rhs: []ast.Expr{&ast.TypeAssertExpr{X: r.expr(ta.X)}}}
		case *ast.ExprStmt:
			ta := a.X.(*ast.TypeAssertExpr)
			n.Assign = &ast.ExprStmt{X: &ast.TypeAssertExpr{X: r.expr(ta.X)}}
		}
		body := &ast.BlockStmt{}
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			body.List = append(body.List, &ast.CaseClause{List: cc.List, Body: r.stmts(cc.Body)})
		}
		n.Body = body
		return n
	case *ast.ForStmt:
		return &ast.ForStmt{Init: r.simple(x.Init), Cond: r.expr(x.Cond), Post: r.simple(x.Post), Body: r.block(x.Body, true)}
	case *ast.RangeStmt:
		return r.rangeStmt(x)
	case *ast.LabeledStmt:
		return &ast.LabeledStmt{Label: x.Label, Stmt: r.stmt(x.Stmt)}
	case *ast.SelectStmt:
		return r.selectStmt(x)
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR {
			for _, sp := range g.Specs {
				vs := sp.(*ast.ValueSpec)
				if len(vs.Names) == 2 && len(vs.Values) == 1 {
					if u, ok := unparen(vs.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
						vs.Values[0] = call(sel("Recv2"), r.expr(u.X))
						continue
					}
				}
				r.exprs(vs.Values)
			}
		}
		return x
	}
	return s
}

func (r *rw) goStmt(g *ast.GoStmt) ast.Stmt {
	c := g.Call
	if f, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 && (f.Type.Results == nil || len(f.Type.Results.List) == 0) {
		return exprStmt(call(sel("Go"), r.expr(f)))
	}
	var list []ast.Stmt
	nc := &ast.CallExpr{Ellipsis: c.Ellipsis}
	inline := false
	switch f := unparen(c.Fun).(type) {
	case *ast.Ident:
		_, isF := r.info.Uses[f].(*types.Func)
		_, isB := r.info.Uses[f].(*types.Builtin)
		inline = isF || isB
	case *ast.SelectorExpr:
		if r.info.Selections[f] == nil {
			_, inline = r.info.Uses[f.Sel].(*types.Func)
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		inline = true
	}
	if inline {
		nc.Fun = c.Fun
		if r.isBuiltin(c.Fun, "close") {
			nc.Fun = sel("Close")
		}
	} else {
		n := r.fresh("f")
		list = append(list, define(n, r.expr(c.Fun)))
		nc.Fun = id(n)
	}
	for _, a := range c.Args {
		if r.isConstOrNil(a) {
			nc.Args = append(nc.Args, a)
			continue
		}
		n := r.fresh("a")
		list = append(list, define(n, r.expr(a)))
		nc.Args = append(nc.Args, id(n))
	}
	list = append(list, exprStmt(call(sel("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{exprStmt(nc)}}})))
	return &ast.BlockStmt{List: list}
}

func (r *rw) rangeStmt(x *ast.RangeStmt) ast.Stmt {
	n := &ast.RangeStmt{Key: x.Key, Value: x.Value, Tok: x.Tok}
	if x.Tok == token.ASSIGN {
		if n.Key != nil {
			n.Key = r.addr(n.Key)
		}
		if n.Value != nil {
			n.Value = r.addr(n.Value)
		}
	}
	switch t := core(r.typ(x.X)).(type) {
	case *types.Map:
		l := r.loc(x.X, "map iteration")
		n.X = call(sel("MapSeq"), r.expr(x.X), l)
	case *types.Chan:
		n.X = call(sel("ChanSeq"), r.expr(x.X))
	case *types.Slice:
		if *level >= 2 && x.Value != nil && !isBlank(x.Value) && !isSync(t.Elem()) {
			l := r.loc(x.X, "read elements of")
			n.X = call(sel("SliceSeq"), r.expr(x.X), l)
		} else {
			n.X = r.expr(x.X)
		}
	case *types.Array:
		if x.Value == nil || isBlank(x.Value) {
			n.X = r.addrOrExpr(x.X)
		} else {
			n.X = r.expr(x.X)
		}
	default:
		n.X = r.expr(x.X)
	}
	n.Body = r.block(x.Body, true)
	return n
}

func (r *rw) typeExpr(t types.Type) ast.Expr {
	s := types.TypeString(t, func(p *types.Package) string {
		if p == r.tp {
			return ""
		}
		return p.Name()
	})
	e, err := parser.ParseExpr(s)
	if err != nil {
		die("type %s: %v", s, err)
	}
	return e
}

func (r *rw) selectStmt(x *ast.SelectStmt) ast.Stmt {
	if len(x.Body.List) == 0 {
		return &ast.ForStmt{Body: &ast.BlockStmt{List: []ast.Stmt{exprStmt(call(sel("Select"), id("false")))}}}
	}
	z := r.fresh("s")
	args := []ast.Expr{nil}
	hasDefault := false
	var clauses []ast.Stmt
	i := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
			clauses = append(clauses, &ast.CaseClause{Body: r.stmts(cc.Body)})
			continue
		}
		cl := &ast.CaseClause{List: []ast.Expr{lit(i)}}
		i++
		val := func(ch ast.Expr) ast.Expr {
			et := core(r.typ(ch)).(*types.Chan).Elem()
			return call(&ast.IndexExpr{X: sel("AsT"), Index: r.typeExpr(et)}, &ast.SelectorExpr{X: id(z), Sel: id("V")})
		}
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			args = append(args, call(&ast.SelectorExpr{X: call(sel("CSend"), r.expr(s.Chan)), Sel: id("Val")}, r.expr(s.Value)))
		case *ast.ExprStmt:
			u := unparen(s.X).(*ast.UnaryExpr)
			args = append(args, call(sel("CRecv"), r.expr(u.X)))
		case *ast.AssignStmt:
			u := unparen(s.Rhs[0]).(*ast.UnaryExpr)
			args = append(args, call(sel("CRecv"), r.expr(u.X)))
			rh := []ast.Expr{val(u.X)}
			if len(s.Lhs) == 2 {
				rh = append(rh, &ast.SelectorExpr{X: id(z), Sel: id("Ok")})
			}
			lh := s.Lhs
			if s.Tok == token.ASSIGN {
				lh = nil
				for _, l := range s.Lhs {
					lh = append(lh, r.addr(l))
				}
			}
			cl.Body = append(cl.Body, &ast.AssignStmt{Lhs: lh, Tok: s.Tok, Rhs: rh})
		}
		cl.Body = append(cl.Body, r.stmts(cc.Body)...)
		clauses = append(clauses, cl)
	}
	args[0] = id("false")
	if hasDefault {
		args[0] = id("true")
	} else {
		clauses = append(clauses, &ast.CaseClause{Body: []ast.Stmt{exprStmt(call(id("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}))}})
	}
	return &ast.SwitchStmt{
		Init: define(z, call(sel("SelectS"), args...)),
		Tag:  &ast.SelectorExpr{X: id(z), Sel: id("I")},
		Body: &ast.BlockStmt{List: clauses},
	}
}

// ---------------------------------------------------------------- emission

func (u *unit) emit() {
	dir := filepath.Join(*out, strings.TrimPrefix(target[u.p.ImportPath], "zz.test/"))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		die("%v", err)
	}
	base := "zzLoc"
	r := &rw{unit: u, base: base}
	inits := map[types.Object]string{} // variable -> initialiser function
	var zero, initFns []string
	nInit := 0
	outs := make([]*bytes.Buffer, len(u.files))
	for fi, f := range u.files {
		var extra bytes.Buffer
		for _, im := range f.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			np := replaced[path]
			if np == "" {
				np = target[path]
			}
			if np == "" {
				continue
			}
			if im.Name == nil {
				if p := pkgs[path]; p != nil {
					im.Name = id(p.Name)
				}
			}
			im.Path.Value = strconv.Quote(np)
			im.EndPos = 0
		}
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				if x.Recv == nil && x.Name.Name == "init" {
					n := fmt.Sprintf("zzinit%d", nInit)
					nInit++
					x.Name = id(n)
					initFns = append(initFns, n)
				}
				if x.Body != nil {
					r.fn = x.Name.Name
					x.Body.List = r.stmts(x.Body.List)
				}
			case *ast.GenDecl:
				if x.Tok != token.VAR {
					continue
				}
				for _, sp := range x.Specs {
					vs := sp.(*ast.ValueSpec)
					r.fn = "init"
					// original initialisers stay in place (types!), rewritten
					r.exprs(vs.Values)
					if len(vs.Values) == 0 {
						for _, n := range vs.Names {
							if n.Name == "_" {
								continue
							}
							fn := "zzzero_" + n.Name
							fmt.Fprintf(&extra, "\nfunc %s() { %s = *new(%s) }\n", fn, n.Name, src(vs.Type))
							zero = append(zero, fn)
						}
						continue
					}
					if len(vs.Values) == len(vs.Names) {
						for i, n := range vs.Names {
							if n.Name == "_" {
								continue
							}
							fn := "zzset_" + n.Name
							fmt.Fprintf(&extra, "\nfunc %s() { %s = %s }\n", fn, n.Name, src(vs.Values[i]))
							inits[u.info.Defs[n]] = fn
						}
						continue
					}
					var names []string
					fn := ""
					for _, n := range vs.Names {
						names = append(names, n.Name)
						if n.Name != "_" && fn == "" {
							fn = "zzset_" + n.Name
							inits[u.info.Defs[n]] = fn
						}
					}
					if fn != "" {
						fmt.Fprintf(&extra, "\nfunc %s() { %s = %s }\n", fn, strings.Join(names, ", "), src(vs.Values[0]))
					}
				}
			}
		}
		// strip positions so that the printer lays the code out afresh
		var b bytes.Buffer
		f.Comments = nil
		f.Doc = nil
		hasC := false
		for _, im := range f.Imports {
			if im.Path.Value == `"C"` {
				hasC = true
			}
		}
		if hasC {
			die("cgo in %s", u.p.ImportPath)
		}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: id("zzsim"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"zz.test/sim"`}}}}}, f.Decls...)
		if err := printer.Fprint(&b, token.NewFileSet(), f); err != nil {
			die("print %s: %v", u.names[fi], err)
		}
		b.WriteString("\nvar _ = zzsim.Tick\n")
		b.Write(extra.Bytes())
		outs[fi] = &b
	}
	for fi, b := range outs {
		data, err := format.Source(b.Bytes())
		if err != nil {
			data = b.Bytes()
		}
		write(filepath.Join(dir, "zz_"+u.names[fi]), data)
	}
	var g bytes.Buffer
	fmt.Fprintf(&g, "package %s\n\nimport \"zz.test/sim\"\n\n", u.tp.Name())
	fmt.Fprintf(&g, "var %s = sim.AddLocs([]string{", base)
	for _, l := range r.locs {
		fmt.Fprintf(&g, "\n\t%q,", l)
	}
	fmt.Fprintf(&g, "\n})\n\nfunc init() {\n\tsim.RegisterReset(func() {\n")
	for _, z := range zero {
		fmt.Fprintf(&g, "\t\t%s()\n", z)
	}
	for _, in := range u.info.InitOrder {
		for _, v := range in.Lhs {
			if fn := inits[v]; fn != "" {
				fmt.Fprintf(&g, "\t\t%s()\n", fn)
			}
		}
	}
	for _, f := range initFns {
		fmt.Fprintf(&g, "\t\t%s()\n", f)
	}
	fmt.Fprintf(&g, "\t})\n}\n")
	write(filepath.Join(dir, "zz_generated_init.go"), g.Bytes())
}

func src(n ast.Node) string {
	var b bytes.Buffer
	if err := printer.Fprint(&b, token.NewFileSet(), n); err != nil {
		die("%v", err)
	}
	return b.String()
}

func write(path string, data []byte) {
	if err := os.WriteFile(path, data, 0o644); err != nil {
		die("%v", err)
	}
}
