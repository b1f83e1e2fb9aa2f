// Package instr rewrites the sources of the module under test so that every
// scheduling decision, channel operation, lock, timer, file access, command,
// package load and map iteration goes through the simulation runtime. It works
// on the current working tree and writes the result to a scratch directory; the
// rewritten files reach the compiler through a build overlay.
package instr

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

const rt = "zzsimrt"

// RTPath is the import path of the injected runtime.
const RTPath = "github.com/securego/gosec/v2/zz_simrt"

var subst = map[string]map[string]string{
	"sync": {
		"Mutex": "Mutex", "RWMutex": "RWMutex", "WaitGroup": "WaitGroup", "Once": "Once", "Cond": "Cond", "NewCond": "NewCond",
		"Map": "Map", "Pool": "Pool", "OnceFunc": "OnceFunc", "OnceValue": "OnceValue", "OnceValues": "OnceValues",
	},
	"sync/atomic": {
		"AddInt32": "AddInt32", "AddInt64": "AddInt64", "AddUint32": "AddUint32", "AddUint64": "AddUint64",
		"LoadInt32": "LoadInt32", "LoadInt64": "LoadInt64", "LoadUint32": "LoadUint32", "LoadUint64": "LoadUint64",
		"StoreInt32": "StoreInt32", "StoreInt64": "StoreInt64", "StoreUint32": "StoreUint32", "StoreUint64": "StoreUint64",
		"CompareAndSwapInt32": "CompareAndSwapInt32", "CompareAndSwapInt64": "CompareAndSwapInt64", "CompareAndSwapUint32": "CompareAndSwapUint32",
		"Int32": "Int32", "Int64": "Int64", "Uint32": "Uint32", "Uint64": "Uint64", "Bool": "Bool", "Value": "Value", "Pointer": "Pointer",
	},
	"time": {
		"Now": "Now", "Since": "Since", "Until": "Until", "Sleep": "Sleep", "After": "After", "AfterFunc": "AfterFunc",
		"NewTimer": "NewTimer", "NewTicker": "NewTicker", "Tick": "Tick", "Timer": "Timer", "Ticker": "Ticker",
	},
	"context": {
		"WithCancel": "WithCancel", "WithCancelCause": "WithCancelCause", "WithTimeout": "WithTimeout", "WithTimeoutCause": "WithTimeoutCause",
		"WithDeadline": "WithDeadline", "WithDeadlineCause": "WithDeadlineCause", "Cause": "Cause", "AfterFunc": "CtxAfterFunc",
	},
	"os": {
		"File": "File", "Open": "Open", "Create": "Create", "OpenFile": "OpenFile", "CreateTemp": "CreateTemp", "Stat": "Stat", "Lstat": "Lstat",
		"ReadFile": "ReadFile", "WriteFile": "WriteFile", "ReadDir": "ReadDir", "Remove": "Remove", "Rename": "Rename",
		"Exit": "Exit", "Getenv": "Getenv", "LookupEnv": "LookupEnv", "Stdin": "Stdin", "Stdout": "Stdout", "Stderr": "Stderr", "NewFile": "NewFile",
	},
	"io/ioutil":                      {"ReadFile": "ReadFile", "WriteFile": "WriteFile"},
	"runtime":                        {"NumCPU": "NumCPU", "GOMAXPROCS": "GOMAXPROCS", "NumGoroutine": "NumGoroutine", "Gosched": "Gosched", "Version": "GoVersion"},
	"fmt":                            {"Print": "Print", "Println": "Println", "Printf": "Printf"},
	"log":                            {"Fatal": "StdFatal", "Fatalf": "StdFatalf", "Fatalln": "StdFatalln"},
	"path/filepath":                  {"Walk": "Walk", "WalkDir": "WalkDir"},
	"go/build":                       {"Default": "BuildContext", "Import": "BuildImport", "ImportDir": "BuildImportDir"},
	"os/exec":                        {"Command": "Command", "CommandContext": "CommandContext", "Cmd": "Cmd", "LookPath": "LookPath"},
	"maps":                           {"Keys": "MapKeys", "Values": "MapValues", "All": "MapAll"},
	"golang.org/x/tools/go/packages": {"Load": "PackagesLoad"},
	"github.com/google/generative-ai-go/genai": {"NewClient": "GenaiNewClient", "Client": "GenaiClient", "GenerativeModel": "GenaiModel"},
}

// suspicious lists packages whose use is reported as unsimulated nondeterminism.
var suspicious = map[string]bool{
	"math/rand": true, "math/rand/v2": true, "crypto/rand": true, "net": true, "net/http": true, "os/signal": true, "os/user": true,
}

// Options of a rewrite.
type Options struct {
	RepoDir    string
	OutDir     string
	SimrtDir   string
	HarnessDir string // directories below become zz_sim/<name>
	MainExtra  string // file added to the commands as zz_main.go
	Env        []string
	GenaiSim   bool
}

// Result of a rewrite.
type Result struct {
	Overlay  string
	Packages []string
	Files    int
	Sites    int
	Counts   map[string]int
	Census   []string
}

// commands are the programs that are simulated.
var commands = []string{"cmd/gosec", "cmd/tlsconfig"}

// Run performs the rewrite.
func Run(o Options) (*Result, error) {
	args := []string{"list", "-deps", "-f", "{{if .Module}}{{if .Module.Main}}{{.ImportPath}}{{end}}{{end}}"}
	for _, c := range commands {
		if _, err := os.Stat(filepath.Join(o.RepoDir, c)); err == nil {
			args = append(args, "./"+c)
		}
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = o.RepoDir
	cmd.Env = o.Env
	var eb bytes.Buffer
	cmd.Stderr = &eb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, eb.String())
	}
	pats := strings.Fields(string(out))
	cfg := &packages.Config{
		Dir: o.RepoDir, Env: o.Env,
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedSyntax | packages.NeedTypesSizes,
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	res := &Result{Counts: map[string]int{}}
	repl := map[string]string{}
	in := &instrumenter{res: res, opts: o}
	in.site("?")
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	census := map[string]bool{}
	for _, p := range pkgs {
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("package %s does not type-check: %v", p.PkgPath, p.Errors[0])
		}
		res.Packages = append(res.Packages, p.PkgPath)
		for i, f := range p.Syntax {
			name := p.CompiledGoFiles[i]
			src, err := os.ReadFile(name)
			if err != nil {
				return nil, err
			}
			txt := in.file(p, f, src, name)
			dst := filepath.Join(o.OutDir, fmt.Sprintf("%s_%d_%s", strings.ReplaceAll(strings.TrimPrefix(p.PkgPath, "github.com/securego/gosec/"), "/", "_"), i, filepath.Base(name)))
			if err := os.WriteFile(dst, []byte(txt), 0o644); err != nil {
				return nil, err
			}
			repl[name] = dst
			res.Files++
		}
		for _, obj := range p.TypesInfo.Uses {
			if pn := obj.Pkg(); pn != nil && suspicious[pn.Path()] {
				census[p.PkgPath+" uses "+pn.Path()+"."+obj.Name()] = true
			}
		}
	}
	for k := range census {
		res.Census = append(res.Census, k)
	}
	sort.Strings(res.Census)
	add := func(dir, dst string) error {
		es, err := os.ReadDir(dir)
		if err != nil {
			return err
		}
		for _, e := range es {
			if strings.HasSuffix(e.Name(), ".go") {
				repl[filepath.Join(o.RepoDir, dst, e.Name())] = filepath.Join(dir, e.Name())
			}
		}
		return nil
	}
	if err := add(o.SimrtDir, "zz_simrt"); err != nil {
		return nil, err
	}
	es, err := os.ReadDir(o.HarnessDir)
	if err != nil {
		return nil, err
	}
	for _, e := range es {
		if e.IsDir() {
			if err := add(filepath.Join(o.HarnessDir, e.Name()), "zz_sim/"+e.Name()); err != nil {
				return nil, err
			}
		}
	}
	if o.MainExtra != "" {
		for _, c := range commands {
			if _, err := os.Stat(filepath.Join(o.RepoDir, c)); err == nil {
				repl[filepath.Join(o.RepoDir, c, "zz_main.go")] = o.MainExtra
			}
		}
	}
	var sb bytes.Buffer
	sb.WriteString("package zzsimrt\n\nfunc init() {\n\tSites = []string{\n")
	for _, s := range in.sites {
		fmt.Fprintf(&sb, "\t\t%s,\n", strconv.Quote(s))
	}
	sb.WriteString("\t}\n}\n")
	sf := filepath.Join(o.OutDir, "sites_gen.go")
	if err := os.WriteFile(sf, sb.Bytes(), 0o644); err != nil {
		return nil, err
	}
	repl[filepath.Join(o.RepoDir, "zz_simrt/sites_gen.go")] = sf
	if err := staticDictionaries(o, repl); err != nil {
		return nil, err
	}
	js, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	res.Overlay = filepath.Join(o.OutDir, "overlay.json")
	res.Sites = len(in.sites)
	return res, os.WriteFile(res.Overlay, js, 0o644)
}

type instrumenter struct {
	res   *Result
	opts  Options
	sites []string

	// per file
	p        *packages.Package
	info     *types.Info
	fset     *token.FileSet
	src      []byte
	base     token.Pos
	tf       *token.File
	name     string
	used     map[*types.PkgName]int // remaining uses
	replaced map[*types.PkgName]int
	captured map[types.Object]bool
	tmp      int
	imports  []*types.PkgName
}

func (in *instrumenter) site(s string) int {
	in.sites = append(in.sites, s)
	return len(in.sites) - 1
}

func (in *instrumenter) at(n ast.Node) int {
	pos := in.fset.Position(n.Pos())
	rel, err := filepath.Rel(in.opts.RepoDir, pos.Filename)
	if err != nil {
		rel = pos.Filename
	}
	return in.site(fmt.Sprintf("%s:%d", rel, pos.Line))
}

func (in *instrumenter) count(k string) { in.res.Counts[k]++ }

func (in *instrumenter) off(p token.Pos) int { return in.tf.Offset(p) }

func (in *instrumenter) text(a, b token.Pos) string { return string(in.src[in.off(a):in.off(b)]) }

func (in *instrumenter) file(p *packages.Package, f *ast.File, src []byte, name string) string {
	in.p, in.info, in.fset, in.src, in.name = p, p.TypesInfo, p.Fset, src, name
	in.tf = p.Fset.File(f.Pos())
	in.used = map[*types.PkgName]int{}
	in.replaced = map[*types.PkgName]int{}
	in.captured = map[types.Object]bool{}
	in.findCaptured(f)
	for id, obj := range in.info.Uses {
		if pn, ok := obj.(*types.PkgName); ok && in.fset.File(id.Pos()) == in.tf {
			in.used[pn]++
		}
	}
	// Decls first (they decide which imports stay used).
	decls := make([]string, len(f.Decls))
	for i, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		decls[i] = in.render(d)
	}
	var b strings.Builder
	pos := token.Pos(in.tf.Base())
	b.WriteString(in.text(pos, f.Name.End()))
	b.WriteString(`; import ` + rt + ` "` + RTPath + `"; var _ = ` + rt + `.Point`)
	pos = f.Name.End()
	// the import keyword must come before other declarations: emit the import
	// first and the use marker at the end of the file instead.
	out := b.String()
	out = strings.TrimSuffix(out, "; var _ = "+rt+".Point")
	b.Reset()
	b.WriteString(out)
	for i, d := range f.Decls {
		b.WriteString(in.text(pos, d.Pos()))
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			b.WriteString(in.importDecl(g))
		} else {
			b.WriteString(decls[i])
		}
		pos = d.End()
	}
	b.WriteString(in.text(pos, token.Pos(in.tf.Base()+in.tf.Size())))
	b.WriteString("\n\nvar _ = " + rt + ".Point\n")
	return b.String()
}

func (in *instrumenter) importDecl(g *ast.GenDecl) string {
	var b strings.Builder
	pos := g.Pos()
	for _, s := range g.Specs {
		is := s.(*ast.ImportSpec)
		start := is.Path.Pos()
		if is.Name != nil {
			start = is.Name.Pos()
		}
		b.WriteString(in.text(pos, start))
		var pn *types.PkgName
		if is.Name != nil {
			pn, _ = in.info.Defs[is.Name].(*types.PkgName)
		} else {
			pn, _ = in.info.Implicits[is].(*types.PkgName)
		}
		if pn != nil && in.replaced[pn] > 0 && in.replaced[pn] >= in.used[pn] {
			b.WriteString("_ " + is.Path.Value)
		} else {
			b.WriteString(in.text(start, is.Path.End()))
		}
		pos = is.Path.End()
	}
	b.WriteString(in.text(pos, g.End()))
	return b.String()
}

// findCaptured marks local variables shared with function literals and assigned
// more than once.
func (in *instrumenter) findCaptured(f *ast.File) {
	assigned := map[types.Object]int{}
	var stack []ast.Node
	decl := map[types.Object]ast.Node{}
	uses := map[types.Object]map[ast.Node]bool{}
	enc := func() ast.Node {
		for i := len(stack) - 1; i >= 0; i-- {
			switch stack[i].(type) {
			case *ast.FuncLit, *ast.FuncDecl:
				return stack[i]
			}
		}
		return nil
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		stack = append(stack, n)
		switch x := n.(type) {
		case *ast.Ident:
			if o, ok := in.info.Defs[x].(*types.Var); ok && !o.IsField() {
				decl[o] = enc()
			}
			if o, ok := in.info.Uses[x].(*types.Var); ok && !o.IsField() {
				if uses[o] == nil {
					uses[o] = map[ast.Node]bool{}
				}
				uses[o][enc()] = true
			}
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				if id, ok := l.(*ast.Ident); ok {
					if o := in.info.Uses[id]; o != nil {
						assigned[o]++
					}
				}
			}
		case *ast.IncDecStmt:
			if id, ok := x.X.(*ast.Ident); ok {
				if o := in.info.Uses[id]; o != nil {
					assigned[o]++
				}
			}
		}
		return true
	})
	for o, d := range decl {
		if assigned[o] == 0 {
			continue
		}
		for fn := range uses[o] {
			if fn != d {
				in.captured[o] = true
			}
		}
	}
}

func children(n ast.Node) []ast.Node {
	if fd, ok := n.(*ast.FuncDecl); ok {
		var cs []ast.Node
		if fd.Recv != nil {
			cs = append(cs, fd.Recv)
		}
		if fd.Type.TypeParams != nil {
			cs = append(cs, fd.Type.TypeParams)
		}
		cs = append(cs, fd.Type.Params)
		if fd.Type.Results != nil {
			cs = append(cs, fd.Type.Results)
		}
		if fd.Body != nil {
			cs = append(cs, fd.Body)
		}
		return cs
	}
	var cs []ast.Node
	ast.Inspect(n, func(c ast.Node) bool {
		if c == n {
			return true
		}
		if c != nil {
			if _, ok := c.(*ast.CommentGroup); !ok {
				cs = append(cs, c)
			}
		}
		return false
	})
	sort.SliceStable(cs, func(i, j int) bool { return cs[i].Pos() < cs[j].Pos() })
	return cs
}

// generic copies the node's text, rendering the children in place.
func (in *instrumenter) generic(n ast.Node) string {
	var b strings.Builder
	pos := n.Pos()
	for _, c := range children(n) {
		if c.Pos() < pos || !c.Pos().IsValid() {
			continue
		}
		b.WriteString(in.text(pos, c.Pos()))
		b.WriteString(in.render(c))
		pos = c.End()
	}
	end := n.End()
	if int(end) > in.tf.Base()+in.tf.Size() {
		end = token.Pos(in.tf.Base() + in.tf.Size())
	}
	b.WriteString(in.text(pos, end))
	return b.String()
}

func (in *instrumenter) stmts(list []ast.Stmt, from, to token.Pos, loop ast.Node) string {
	var b strings.Builder
	pos := from
	if loop != nil {
		fmt.Fprintf(&b, " %s.Point(%d);", rt, in.at(loop))
	}
	for _, s := range list {
		b.WriteString(in.text(pos, s.Pos()))
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
		default:
			fmt.Fprintf(&b, "%s.Point(%d); ", rt, in.at(s))
			in.count("points")
		}
		b.WriteString(in.stmtInList(s))
		pos = s.End()
	}
	b.WriteString(in.text(pos, to))
	return b.String()
}

// stmtInList renders a statement that stands in a statement list, where other
// statements may be added after it.
func (in *instrumenter) stmtInList(s ast.Stmt) string {
	switch x := s.(type) {
	case *ast.AssignStmt:
		if x.Tok != token.ASSIGN && x.Tok != token.DEFINE {
			if t := in.rmw(x.Lhs[0], strings.TrimSuffix(x.Tok.String(), "="), "("+in.render(x.Rhs[0])+")", x); t != "" {
				return t
			}
		}
		t := in.render(x)
		if x.Tok != token.DEFINE {
			for _, l := range x.Lhs {
				t += in.writeHook(l)
			}
		}
		return t
	case *ast.IncDecStmt:
		op := "+"
		if x.Tok == token.DEC {
			op = "-"
		}
		if t := in.rmw(x.X, op, "1", x); t != "" {
			return t
		}
		return in.render(x) + in.writeHook(x.X)
	}
	return in.render(s)
}

// rmw splits a read-modify-write of a shared location around a preemption point.
func (in *instrumenter) rmw(l ast.Expr, op, val string, at ast.Node) string {
	l = ast.Unparen(l)
	if !in.sharedLoc(l) || !in.simplePath(l) {
		return ""
	}
	in.count("rmw splits")
	n := in.at(at)
	loc := in.plain(l)
	in.tmp++
	v := fmt.Sprintf("zzv%d", in.tmp)
	return fmt.Sprintf("{ %s := %s; %s.Point(%d); %s = %s %s %s%s }", v, in.render(l), rt, n, loc, v, op, val, in.writeHook(l))
}

// plain renders a simple path without read hooks.
func (in *instrumenter) plain(l ast.Expr) string { return in.text(l.Pos(), l.End()) }

// simplePath: evaluating it twice is free of side effects and uses no
// substituted package.
func (in *instrumenter) simplePath(e ast.Expr) bool {
	switch x := ast.Unparen(e).(type) {
	case *ast.Ident:
		_, ok := in.info.ObjectOf(x).(*types.Var)
		return ok
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, ok := in.info.Uses[id].(*types.PkgName); ok {
				_, isv := in.info.Uses[x.Sel].(*types.Var)
				return isv && !in.isSubst(x)
			}
		}
		sel := in.info.Selections[x]
		return sel != nil && sel.Kind() == types.FieldVal && in.simplePath(x.X)
	case *ast.StarExpr:
		return in.simplePath(x.X)
	case *ast.IndexExpr:
		if !in.simplePath(x.X) {
			return false
		}
		if tv, ok := in.info.Types[x.Index]; ok && tv.Value != nil {
			return true
		}
		return in.simplePath(x.Index)
	}
	return false
}

// sharedLoc: a location another goroutine could reach.
func (in *instrumenter) sharedLoc(e ast.Expr) bool {
	switch x := ast.Unparen(e).(type) {
	case *ast.Ident:
		o, ok := in.info.ObjectOf(x).(*types.Var)
		if !ok || o.IsField() {
			return false
		}
		return in.captured[o] || (o.Pkg() != nil && o.Parent() == o.Pkg().Scope())
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, ok := in.info.Uses[id].(*types.PkgName); ok {
				_, isv := in.info.Uses[x.Sel].(*types.Var)
				return isv && !in.isSubst(x)
			}
		}
		sel := in.info.Selections[x]
		if sel == nil || sel.Kind() != types.FieldVal {
			return false
		}
		if _, ok := in.info.TypeOf(x.X).Underlying().(*types.Pointer); ok {
			return true
		}
		if len(sel.Index()) > 1 {
			return false // through an embedded field: keep it simple
		}
		return in.sharedLoc(x.X)
	case *ast.StarExpr:
		return true
	case *ast.IndexExpr:
		return in.isMap(x.X)
	}
	return false
}

func (in *instrumenter) isMap(e ast.Expr) bool {
	t := in.info.TypeOf(e)
	if t == nil {
		return false
	}
	if _, ok := t.(*types.TypeParam); ok {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (in *instrumenter) simType(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "sync/atomic":
		return true
	}
	return false
}

// writeHook reports the write of a shared location to the race detector.
func (in *instrumenter) writeHook(l ast.Expr) string {
	l = ast.Unparen(l)
	if !in.sharedLoc(l) || !in.simplePath(l) {
		return ""
	}
	n := in.at(l)
	if ix, ok := l.(*ast.IndexExpr); ok {
		in.count("map write hooks")
		return fmt.Sprintf("; %s.MapWr(%d, %s)", rt, n, in.plain(ix.X))
	}
	if in.simType(in.info.TypeOf(l)) {
		return ""
	}
	in.count("write hooks")
	return fmt.Sprintf("; %s.Wr(%d, &%s)", rt, n, in.plain(l))
}

func (in *instrumenter) isSubst(x *ast.SelectorExpr) bool {
	id, ok := x.X.(*ast.Ident)
	if !ok {
		return false
	}
	pn, ok := in.info.Uses[id].(*types.PkgName)
	if !ok {
		return false
	}
	_, ok = subst[pn.Imported().Path()][x.Sel.Name]
	return ok
}

func (in *instrumenter) chanType(e ast.Expr) *types.Chan {
	t := in.info.TypeOf(e)
	if t == nil {
		return nil
	}
	c, _ := t.Underlying().(*types.Chan)
	return c
}

func (in *instrumenter) render(n ast.Node) string {
	switch x := n.(type) {
	case *ast.FuncDecl:
		if in.p.Name == "main" && x.Recv == nil && x.Name.Name == "main" {
			return in.text(x.Pos(), x.Name.Pos()) + "zzGosecMain() " + in.render(x.Body)
		}
		return in.generic(x)
	case *ast.BlockStmt:
		if !x.Rbrace.IsValid() {
			return in.generic(x)
		}
		return "{" + in.stmts(x.List, x.Lbrace+1, x.Rbrace, nil) + "}"
	case *ast.CaseClause:
		var b strings.Builder
		pos := x.Case
		for _, e := range x.List {
			b.WriteString(in.text(pos, e.Pos()))
			b.WriteString(in.render(e))
			pos = e.End()
		}
		b.WriteString(in.text(pos, x.Colon+1))
		b.WriteString(in.stmts(x.Body, x.Colon+1, x.End(), nil))
		return b.String()
	case *ast.ForStmt:
		head := token.Pos(x.For)
		var b strings.Builder
		pos := head
		for _, c := range []ast.Node{x.Init, x.Cond, x.Post} {
			if c == nil || c == ast.Stmt(nil) || c == ast.Expr(nil) || isNil(c) {
				continue
			}
			b.WriteString(in.text(pos, c.Pos()))
			b.WriteString(in.render(c))
			pos = c.End()
		}
		b.WriteString(in.text(pos, x.Body.Lbrace))
		b.WriteString("{" + in.stmts(x.Body.List, x.Body.Lbrace+1, x.Body.Rbrace, x) + "}")
		return b.String()
	case *ast.RangeStmt:
		return in.rangeStmt(x)
	case *ast.GoStmt:
		return in.goStmt(x)
	case *ast.SendStmt:
		in.count("channel ops")
		return fmt.Sprintf("%s.Send(%d, %s)(%s)", rt, in.at(x), in.render(x.Chan), in.render(x.Value))
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			in.count("channel ops")
			f := "Recv"
			if _, ok := in.info.TypeOf(x).(*types.Tuple); ok {
				f = "Recv2"
			}
			return fmt.Sprintf("%s.%s(%d, %s)", rt, f, in.at(x), in.render(x.X))
		}
		if x.Op == token.AND {
			return in.text(x.Pos(), x.X.Pos()) + in.renderAddr(x.X)
		}
		return in.generic(x)
	case *ast.SelectStmt:
		return in.selectStmt(x, "")
	case *ast.LabeledStmt:
		if s, ok := x.Stmt.(*ast.SelectStmt); ok {
			return in.selectStmt(s, x.Label.Name+": ")
		}
		return in.text(x.Pos(), x.Stmt.Pos()) + in.render(x.Stmt)
	case *ast.AssignStmt:
		return in.assign(x)
	case *ast.IncDecStmt:
		return in.renderAddr(x.X) + in.text(x.X.End(), x.End())
	case *ast.CallExpr:
		return in.call(x)
	case *ast.SelectorExpr:
		return in.selector(x)
	case *ast.KeyValueExpr:
		// a struct field name is not an expression
		if id, ok := x.Key.(*ast.Ident); ok {
			if v, ok := in.info.Uses[id].(*types.Var); ok && v.IsField() {
				return in.text(x.Pos(), x.Value.Pos()) + in.render(x.Value)
			}
		}
		return in.generic(x)
	case *ast.IndexExpr:
		if in.isMap(x.X) {
			in.count("map read hooks")
			return fmt.Sprintf("%s.MapRd(%d, %s)", rt, in.at(x), in.render(x.X)) + in.text(x.X.End(), x.Index.Pos()) + in.render(x.Index) + in.text(x.Index.End(), x.End())
		}
		return in.generic(x)
	case *ast.SliceExpr:
		t := in.info.TypeOf(x.X)
		if t != nil {
			if _, ok := t.Underlying().(*types.Array); ok {
				return in.renderAddr(x.X) + in.restAfter(x, x.X)
			}
		}
		return in.generic(x)
	case *ast.Ident:
		return in.ident(x)
	case *ast.ImportSpec:
		return in.text(x.Pos(), x.End())
	}
	return in.generic(n)
}

func isNil(n ast.Node) bool {
	switch x := n.(type) {
	case ast.Stmt:
		return x == nil
	case ast.Expr:
		return x == nil
	}
	return n == nil
}

// restAfter renders the part of n after its child c.
func (in *instrumenter) restAfter(n, c ast.Node) string {
	var b strings.Builder
	pos := c.End()
	for _, k := range children(n) {
		if k.Pos() < pos {
			continue
		}
		b.WriteString(in.text(pos, k.Pos()))
		b.WriteString(in.render(k))
		pos = k.End()
	}
	b.WriteString(in.text(pos, n.End()))
	return b.String()
}

func (in *instrumenter) ident(x *ast.Ident) string {
	o, ok := in.info.Uses[x].(*types.Var)
	if !ok || o.IsField() || !in.sharedLoc(x) {
		return x.Name
	}
	if in.simType(o.Type()) {
		return x.Name
	}
	if tv, ok := in.info.Types[x]; !ok || !tv.Addressable() {
		return x.Name
	}
	in.count("read hooks")
	return fmt.Sprintf("(*%s.Rd(%d, &%s))", rt, in.at(x), x.Name)
}

// renderAddr renders an expression used as a location (left-hand side, operand
// of &): the location itself is not read.
func (in *instrumenter) renderAddr(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return "(" + in.renderAddr(x.X) + ")"
	case *ast.Ident:
		return x.Name
	case *ast.SelectorExpr:
		if in.isSubst(x) {
			return in.selector(x)
		}
		if id, ok := x.X.(*ast.Ident); ok {
			if _, ok := in.info.Uses[id].(*types.PkgName); ok {
				return in.text(x.Pos(), x.End())
			}
		}
		if t := in.info.TypeOf(x.X); t != nil {
			if _, ok := t.Underlying().(*types.Pointer); ok {
				return in.render(x.X) + in.text(x.X.End(), x.End())
			}
		}
		return in.renderAddr(x.X) + in.text(x.X.End(), x.End())
	case *ast.IndexExpr:
		t := in.info.TypeOf(x.X)
		base := ""
		if t != nil {
			if _, ok := t.Underlying().(*types.Array); ok {
				base = in.renderAddr(x.X)
			}
		}
		if base == "" {
			base = in.render(x.X)
		}
		return base + in.text(x.X.End(), x.Index.Pos()) + in.render(x.Index) + in.text(x.Index.End(), x.End())
	}
	return in.render(e)
}

func (in *instrumenter) selector(x *ast.SelectorExpr) string {
	if id, ok := x.X.(*ast.Ident); ok {
		if pn, ok := in.info.Uses[id].(*types.PkgName); ok {
			path := pn.Imported().Path()
			if r, ok := subst[path][x.Sel.Name]; ok && (in.opts.GenaiSim || !strings.Contains(path, "genai")) {
				in.replaced[pn]++
				in.count("seam " + path)
				return rt + "." + r
			}
			return in.text(x.Pos(), x.End())
		}
	}
	sel := in.info.Selections[x]
	if sel == nil {
		return in.generic(x)
	}
	if sel.Kind() == types.MethodVal {
		m := sel.Obj()
		if m.Pkg() != nil && m.Pkg().Path() == "log" && (m.Name() == "Fatal" || m.Name() == "Fatalf" || m.Name() == "Fatalln") {
			in.count("seam log")
			return fmt.Sprintf("%s.Log%s(%s)", rt, m.Name(), in.render(x.X))
		}
		// a pointer-receiver method on an addressable value takes its address
		if sig, ok := m.Type().(*types.Signature); ok && sig.Recv() != nil {
			_, ptrRecv := sig.Recv().Type().(*types.Pointer)
			_, isPtr := in.info.TypeOf(x.X).Underlying().(*types.Pointer)
			if ptrRecv && !isPtr {
				return in.renderAddr(x.X) + in.text(x.X.End(), x.End())
			}
		}
		return in.render(x.X) + in.text(x.X.End(), x.End())
	}
	if sel.Kind() != types.FieldVal {
		return in.generic(x)
	}
	tv := in.info.Types[x]
	inner := ""
	_, isPtr := in.info.TypeOf(x.X).Underlying().(*types.Pointer)
	if isPtr {
		inner = in.render(x.X) + in.text(x.X.End(), x.End())
	} else {
		inner = in.renderBase(x.X) + in.text(x.X.End(), x.End())
	}
	if in.sharedLoc(x) && tv.Addressable() && !in.simType(in.info.TypeOf(x)) {
		in.count("read hooks")
		return fmt.Sprintf("(*%s.Rd(%d, &%s))", rt, in.at(x), inner)
	}
	return inner
}

// renderBase renders the struct value a field is selected from; the struct as a
// whole is not read when it is a location.
func (in *instrumenter) renderBase(e ast.Expr) string {
	if tv, ok := in.info.Types[e]; ok && tv.Addressable() {
		switch ast.Unparen(e).(type) {
		case *ast.Ident, *ast.SelectorExpr:
			return in.renderAddr(e)
		}
	}
	return in.render(e)
}

func (in *instrumenter) assign(x *ast.AssignStmt) string {
	var b strings.Builder
	pos := x.Pos()
	for _, l := range x.Lhs {
		b.WriteString(in.text(pos, l.Pos()))
		if x.Tok == token.DEFINE {
			b.WriteString(in.text(l.Pos(), l.End()))
		} else {
			b.WriteString(in.renderAddr(l))
		}
		pos = l.End()
	}
	for i, r := range x.Rhs {
		b.WriteString(in.text(pos, r.Pos()))
		b.WriteString(in.appendRMW(x, i, r))
		pos = r.End()
	}
	return b.String()
}

// appendRMW puts a preemption point between reading the old slice and storing
// the appended one when the target is shared.
func (in *instrumenter) appendRMW(x *ast.AssignStmt, i int, r ast.Expr) string {
	c, ok := r.(*ast.CallExpr)
	if !ok || len(x.Lhs) != len(x.Rhs) || len(c.Args) == 0 || x.Tok == token.DEFINE {
		return in.render(r)
	}
	id, ok := c.Fun.(*ast.Ident)
	if !ok || id.Name != "append" {
		return in.render(r)
	}
	if _, ok := in.info.Uses[id].(*types.Builtin); !ok || !in.sharedLoc(x.Lhs[i]) {
		return in.render(r)
	}
	if in.plain(x.Lhs[i]) != in.plain(c.Args[0]) {
		return in.render(r)
	}
	in.count("rmw splits")
	var b strings.Builder
	b.WriteString(in.text(c.Pos(), c.Args[0].Pos()))
	fmt.Fprintf(&b, "%s.Pt(%d, %s)", rt, in.at(c), in.render(c.Args[0]))
	pos := c.Args[0].End()
	for _, a := range c.Args[1:] {
		b.WriteString(in.text(pos, a.Pos()))
		b.WriteString(in.render(a))
		pos = a.End()
	}
	b.WriteString(in.text(pos, c.End()))
	return b.String()
}

func (in *instrumenter) call(x *ast.CallExpr) string {
	if id, ok := ast.Unparen(x.Fun).(*ast.Ident); ok && len(x.Args) > 0 {
		if _, ok := in.info.Uses[id].(*types.Builtin); ok {
			switch id.Name {
			case "close":
				in.count("channel ops")
				return fmt.Sprintf("%s.Close(%d, %s)", rt, in.at(x), in.render(x.Args[0]))
			case "len":
				if ct := in.chanType(x.Args[0]); ct != nil {
					if ct.Dir() == types.SendOnly {
						return fmt.Sprintf("%s.LenS(%s)", rt, in.render(x.Args[0]))
					}
					return fmt.Sprintf("%s.Len(%s)", rt, in.render(x.Args[0]))
				}
			case "delete", "clear":
				if in.isMap(x.Args[0]) {
					in.count("map write hooks")
					s := fmt.Sprintf("%s(%s.MapWr(%d, %s)", id.Name, rt, in.at(x), in.render(x.Args[0]))
					if len(x.Args) > 1 {
						s += ", " + in.render(x.Args[1])
					}
					return s + ")"
				}
			}
		}
	}
	return in.generic(x)
}

func (in *instrumenter) rangeStmt(x *ast.RangeStmt) string {
	var b strings.Builder
	pos := x.For
	for _, e := range []ast.Expr{x.Key, x.Value} {
		if e == nil {
			continue
		}
		b.WriteString(in.text(pos, e.Pos()))
		b.WriteString(in.text(e.Pos(), e.End()))
		pos = e.End()
	}
	b.WriteString(in.text(pos, x.X.Pos()))
	switch {
	case in.chanType(x.X) != nil:
		in.count("channel ops")
		fmt.Fprintf(&b, "%s.RangeChan(%d, %s)", rt, in.at(x), in.render(x.X))
	case in.isMap(x.X):
		in.count("map ranges")
		n := in.at(x)
		fmt.Fprintf(&b, "%s.RangeMap(%d, %s.MapRd(%d, %s))", rt, n, rt, n, in.render(x.X))
	default:
		b.WriteString(in.render(x.X))
	}
	b.WriteString(in.text(x.X.End(), x.Body.Lbrace))
	b.WriteString("{" + in.stmts(x.Body.List, x.Body.Lbrace+1, x.Body.Rbrace, x) + "}")
	return b.String()
}

func (in *instrumenter) goStmt(x *ast.GoStmt) string {
	in.count("go statements")
	n := in.at(x)
	c := x.Call
	if fl, ok := ast.Unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 {
		if fl.Type.Results == nil || len(fl.Type.Results.List) == 0 {
			return fmt.Sprintf("%s.Go(%d, %s)", rt, n, in.render(fl))
		}
		return fmt.Sprintf("%s.Go(%d, func() { %s() })", rt, n, in.render(fl))
	}
	if id, ok := ast.Unparen(c.Fun).(*ast.Ident); ok {
		if _, ok := in.info.Uses[id].(*types.Builtin); ok {
			return fmt.Sprintf("%s.Go(%d, func() { %s })", rt, n, in.render(c))
		}
	}
	for _, a := range c.Args {
		if _, ok := in.info.TypeOf(a).(*types.Tuple); ok {
			return fmt.Sprintf("%s.Go(%d, func() { %s })", rt, n, in.render(c))
		}
	}
	in.tmp++
	var b strings.Builder
	f := fmt.Sprintf("zzf%d", in.tmp)
	fmt.Fprintf(&b, "{ %s := %s; ", f, in.render(c.Fun))
	var args []string
	for i, a := range c.Args {
		tv := in.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			args = append(args, in.render(a))
			continue
		}
		v := fmt.Sprintf("zza%d_%d", in.tmp, i)
		fmt.Fprintf(&b, "%s := %s; ", v, in.render(a))
		args = append(args, v)
	}
	ell := ""
	if c.Ellipsis.IsValid() {
		ell = "..."
	}
	fmt.Fprintf(&b, "%s.Go(%d, func() { %s(%s%s) }) }", rt, n, f, strings.Join(args, ", "), ell)
	return b.String()
}

func (in *instrumenter) selectStmt(x *ast.SelectStmt, label string) string {
	in.count("selects")
	in.tmp++
	id := in.tmp
	var head, body strings.Builder
	var cases []string
	hasDefault := false
	k := 0
	pos := x.Body.Lbrace + 1
	for _, cs := range x.Body.List {
		cc := cs.(*ast.CommClause)
		body.WriteString(in.text(pos, cc.Case))
		pos = cc.End()
		if cc.Comm == nil {
			hasDefault = true
			body.WriteString("default:")
			body.WriteString(in.stmts(cc.Body, cc.Colon+1, cc.End(), nil))
			continue
		}
		v := fmt.Sprintf("zzc%d_%d", id, k)
		cases = append(cases, v)
		pre := ""
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			fmt.Fprintf(&head, "%s := %s.CaseSend(%s)(%s); ", v, rt, in.render(cm.Chan), in.render(cm.Value))
		case *ast.ExprStmt:
			u := ast.Unparen(cm.X).(*ast.UnaryExpr)
			fmt.Fprintf(&head, "%s := %s.CaseRecv(%s); ", v, rt, in.render(u.X))
		case *ast.AssignStmt:
			u := ast.Unparen(cm.Rhs[0]).(*ast.UnaryExpr)
			fmt.Fprintf(&head, "%s := %s.CaseRecv(%s); ", v, rt, in.render(u.X))
			var ls, rs []string
			for i, l := range cm.Lhs {
				if cm.Tok == token.DEFINE {
					ls = append(ls, in.text(l.Pos(), l.End()))
				} else {
					ls = append(ls, in.renderAddr(l))
				}
				rs = append(rs, v+[]string{".Val", ".Ok"}[i])
			}
			pre = strings.Join(ls, ", ") + " " + cm.Tok.String() + " " + strings.Join(rs, ", ") + ";"
		}
		fmt.Fprintf(&body, "case %d: %s", k, pre)
		body.WriteString(in.stmts(cc.Body, cc.Colon+1, cc.End(), nil))
		k++
	}
	body.WriteString(in.text(pos, x.Body.Rbrace))
	tail := ""
	if !hasDefault {
		tail = "default: panic(\"unreachable\");"
	}
	args := ""
	for _, c := range cases {
		args += ", " + c
	}
	return fmt.Sprintf("{ %s%sswitch %s.Select(%d, %v%s) {%s%s} }", head.String(), label, rt, in.at(x), hasDefault, args, body.String(), tail)
}
