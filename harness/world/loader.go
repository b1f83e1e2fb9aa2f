// Package world is the simulated environment of a gosec scan: the package
// loader, the go command, the file faults and the corpus.
package world

import (
	"bytes"
	"compress/gzip"
	"encoding/gob"
	"errors"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/scanner"
	"go/token"
	"go/types"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/gcexportdata"
	"golang.org/x/tools/go/packages"

	zz "github.com/securego/gosec/v2/zz_simrt"
)

// ---- imports from frozen export data -----------------------------------------

type pkgData struct {
	Name string
	Data []byte
}

const importBase = 1 << 28

type importSet struct {
	data map[string][]byte
	pkgs map[string]*types.Package
	fset *token.FileSet
}

var imports *importSet

// CorpusDir is the directory of the frozen inputs.
func CorpusDir() string {
	if d := os.Getenv("ZZ_CORPUS"); d != "" {
		return d
	}
	return "/verif/corpus"
}

func loadImports() *importSet {
	if imports != nil {
		return imports
	}
	f, err := os.Open(filepath.Join(CorpusDir(), "exports.gob.gz"))
	if err != nil {
		HarnessFail("corpus: %v", err)
	}
	defer f.Close()
	z, err := gzip.NewReader(f)
	if err != nil {
		HarnessFail("corpus: %v", err)
	}
	var ps []pkgData
	if err := gob.NewDecoder(z).Decode(&ps); err != nil {
		HarnessFail("corpus: %v", err)
	}
	is := &importSet{data: map[string][]byte{}, pkgs: map[string]*types.Package{}, fset: token.NewFileSet()}
	is.fset.AddFile("zz-import-base", importBase, 1)
	for _, p := range ps {
		is.data[p.Name] = p.Data
	}
	imports = is
	return is
}

func (is *importSet) get(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if p := is.pkgs[path]; p != nil && p.Complete() {
		return p, nil
	}
	if base, ok := strings.CutPrefix(path, "example.com/zz/"); ok {
		// packages whose name is not the end of their path
		p := types.NewPackage(path, "zz"+base)
		sig := types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(token.NoPos, p, "", types.Typ[types.Int])), false)
		p.Scope().Insert(types.NewFunc(token.NoPos, p, "F", sig))
		p.MarkComplete()
		is.pkgs[path] = p
		return p, nil
	}
	d, ok := is.data[path]
	if !ok {
		return nil, nil
	}
	return gcexportdata.Read(bytes.NewReader(d), is.fset, is.pkgs, path)
}

// HarnessFail reports a defect of the verification machinery, never a violation.
func HarnessFail(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "HARNESS-ERROR: "+format+"\n", args...)
	os.Exit(3)
}

// ---- the loader ----------------------------------------------------------------

// Plan is what the environment does to the load of one package directory.
type Plan struct {
	Delay    time.Duration
	Err      error            // the loader itself fails
	Extra    []packages.Error // additional errors on the returned package
	Missing  map[string]bool  // imports that cannot be resolved
	Before   func()           // runs before files are parsed (after the directory was listed)
	After    func()           // runs after everything was parsed
	NoResult bool             // the loader returns no packages and no error
}

// LoadRec records one loader call.
type LoadRec struct {
	Dir   string
	Files []string
	Flags []string
	G     int
	Start int64
	End   int64
	AtNS  int64
	EndNS int64
	Lines int
	Tests bool
}

// Loader simulates packages.Load for file patterns.
type Loader struct {
	Plan  func(dir string) *Plan
	Recs  []*LoadRec
	Fired map[string]int
	busy  map[*LoadRec]bool
}

// Busy lists the directories whose loads have not ended.
func (l *Loader) Busy() []string {
	var out []string
	for rec := range l.busy {
		out = append(out, rec.Dir)
	}
	sort.Strings(out)
	return out
}

func (l *Loader) fire(k string) {
	if l.Fired == nil {
		l.Fired = map[string]int{}
	}
	l.Fired[k]++
}

func (l *Loader) Load(cfg *packages.Config, patterns ...string) ([]*packages.Package, error) {
	pkgs, err := l.load(cfg, patterns...)
	return pkgs, err
}

func (l *Loader) load(cfg *packages.Config, patterns ...string) ([]*packages.Package, error) {
	rec := &LoadRec{Files: append([]string(nil), patterns...), Flags: append([]string(nil), cfg.BuildFlags...), G: zz.CurID(), Start: zz.Steps(), AtNS: zz.VirtualNS(), Tests: cfg.Tests}
	if len(patterns) == 0 {
		// the go command then takes the package of the current directory
		wd, _ := os.Getwd()
		rec.Dir = wd
		bp, err := build.ImportDir(wd, 0)
		l.Recs = append(l.Recs, rec)
		if err != nil {
			return nil, nil
		}
		for _, f := range bp.GoFiles {
			patterns = append(patterns, filepath.Join(wd, f))
		}
	} else {
		rec.Dir = filepath.Dir(patterns[0])
		l.Recs = append(l.Recs, rec)
	}
	if l.busy == nil {
		l.busy = map[*LoadRec]bool{}
	}
	l.busy[rec] = true
	defer func() { rec.End = zz.Steps(); rec.EndNS = zz.VirtualNS(); delete(l.busy, rec) }()
	for _, f := range cfg.BuildFlags {
		if !strings.HasPrefix(f, "-") {
			return nil, fmt.Errorf("err: exit status 1: stderr: malformed import path %q", f)
		}
	}
	for _, p := range patterns {
		if i := strings.Index(p, "="); i >= 0 {
			return nil, fmt.Errorf("invalid query type %q in query pattern %q", p[:i], p)
		}
	}
	var plan *Plan
	if l.Plan != nil {
		plan = l.Plan(rec.Dir)
	}
	if plan == nil {
		plan = &Plan{}
	}
	if plan.Delay > 0 {
		l.fire("load-delay")
		zz.Sleep(plan.Delay)
	}
	zz.Yield()
	if plan.Err != nil {
		l.fire("load-error")
		return nil, plan.Err
	}
	if plan.NoResult {
		l.fire("load-empty")
		return nil, nil
	}
	if plan.Before != nil {
		plan.Before()
	}
	pkgs := l.build(cfg, plan, patterns, rec)
	if plan.After != nil {
		plan.After()
	}
	zz.Yield()
	return pkgs, nil
}

func (l *Loader) build(cfg *packages.Config, plan *Plan, patterns []string, rec *LoadRec) []*packages.Package {
	const cla = "command-line-arguments"
	for _, p := range patterns {
		if _, err := os.Stat(p); err != nil {
			l.fire("load-file-vanished")
			return []*packages.Package{{ID: cla, PkgPath: cla, Errors: []packages.Error{{Kind: packages.ListError, Msg: fmt.Sprintf("stat %s: no such file or directory", p)}}}}
		}
	}
	var base, intest, xtest []string
	for _, p := range patterns {
		abs, _ := filepath.Abs(p)
		if strings.HasSuffix(p, "_test.go") {
			if strings.HasSuffix(packageClause(abs), "_test") {
				xtest = append(xtest, abs)
			} else {
				intest = append(intest, abs)
			}
		} else {
			base = append(base, abs)
		}
	}
	sort.Strings(base)
	sort.Strings(intest)
	sort.Strings(xtest)
	fset := cfg.Fset
	if fset == nil {
		fset = token.NewFileSet()
	}
	var out []*packages.Package
	out = append(out, l.one(fset, cfg, plan, cla, cla, base, nil, rec))
	if cfg.Tests && len(intest)+len(xtest) > 0 {
		variant := out[0]
		if len(intest) > 0 {
			variant = l.one(fset, cfg, plan, cla+" ["+cla+".test]", cla, append(append([]string(nil), base...), intest...), nil, rec)
			out = append(out, variant)
		}
		if len(xtest) > 0 {
			out = append(out, l.one(fset, cfg, plan, cla+"_test ["+cla+".test]", cla+"_test", xtest, variant.Types, rec))
		}
	}
	cloneImportFiles(fset)
	return out
}

func cloneImportFiles(fset *token.FileSet) {
	is := loadImports()
	have := fset.Base()
	is.fset.Iterate(func(f *token.File) bool {
		if f.Base() >= have {
			nf := fset.AddFile(f.Name(), f.Base(), f.Size())
			nf.SetLines(f.Lines())
		}
		return true
	})
}

func packageClause(p string) string {
	f, _ := parser.ParseFile(token.NewFileSet(), p, nil, parser.PackageClauseOnly)
	if f == nil || f.Name == nil {
		return ""
	}
	return f.Name.Name
}

// ReadSource reads a source file through the simulated file faults.
func readSource(p string) ([]byte, error) {
	if zz.W.FS != nil {
		if ft := zz.W.FS("loadread", p, 0); ft != nil {
			return nil, &os.PathError{Op: "open", Path: p, Err: ft.Err}
		}
	}
	return os.ReadFile(p)
}

type impFunc func(path string) (*types.Package, error)

func (f impFunc) Import(path string) (*types.Package, error) { return f(path) }

func (l *Loader) one(fset *token.FileSet, cfg *packages.Config, plan *Plan, id, path string, files []string, self *types.Package, rec *LoadRec) *packages.Package {
	pkg := &packages.Package{ID: id, PkgPath: path, GoFiles: files, CompiledGoFiles: files, Fset: fset, Imports: map[string]*packages.Package{}}
	pkg.TypesSizes = types.SizesFor("gc", "amd64")
	parsed := make([]*ast.File, len(files))
	perrs := make([][]packages.Error, len(files))
	order := make([]int, len(files))
	for i := range order {
		order[i] = i
	}
	zz.PermuteSlice(order) // the real loader parses the files of a package in parallel
	syntaxErr := false
	for _, i := range order {
		src, err := readSource(files[i])
		if err != nil {
			l.fire("load-file-unreadable")
			var pe *os.PathError
			errors.As(err, &pe)
			perrs[i] = append(perrs[i], packages.Error{Pos: pe.Path + ":1", Msg: pe.Err.Error(), Kind: packages.ParseError})
			pkg.IllTyped = true
			continue
		}
		f, err := parser.ParseFile(fset, files[i], src, parser.AllErrors|parser.ParseComments)
		parsed[i] = f
		if err != nil {
			syntaxErr = true
			var el scanner.ErrorList
			if errors.As(err, &el) {
				for _, e := range el {
					perrs[i] = append(perrs[i], packages.Error{Pos: e.Pos.String(), Msg: e.Msg, Kind: packages.ParseError})
				}
			} else {
				perrs[i] = append(perrs[i], packages.Error{Pos: files[i] + ":1", Msg: err.Error(), Kind: packages.ParseError})
			}
		}
	}
	names := map[string]string{}
	var first string
	for i, f := range parsed {
		if f == nil {
			continue
		}
		pkg.Syntax = append(pkg.Syntax, f)
		rec.Lines += fset.File(f.FileStart).LineCount()
		if f.Name != nil && f.Name.Name != "_" {
			if pkg.Name == "" {
				pkg.Name = f.Name.Name
				first = f.Name.Name
			}
			if names[f.Name.Name] == "" {
				names[f.Name.Name] = filepath.Base(files[i])
			}
		}
	}
	if len(files) == 0 {
		// a package consisting of test files only
		pkg.Name = ""
		if self == nil {
			for _, p := range rec.Files {
				if n := packageClause(p); n != "" {
					pkg.Name = strings.TrimSuffix(n, "_test")
					break
				}
			}
		}
	}
	if len(names) > 1 {
		var ks []string
		for k := range names {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		pkg.Errors = append(pkg.Errors, packages.Error{Kind: packages.ListError, Msg: fmt.Sprintf("found packages %s (%s) and %s (%s) in %s", ks[0], names[ks[0]], ks[1], names[ks[1]], rec.Dir)})
	}
	if syntaxErr {
		pkg.Errors = append(pkg.Errors, packages.Error{Kind: packages.ListError, Msg: "syntax error in the package"})
	}
	for _, e := range perrs {
		pkg.Errors = append(pkg.Errors, e...)
	}
	is := loadImports()
	var terrs []packages.Error
	depsOK := true
	tc := &types.Config{
		Importer: impFunc(func(p string) (*types.Package, error) {
			if self != nil && p == path {
				return self, nil
			}
			if p == "C" {
				depsOK = false
				return nil, fmt.Errorf("no metadata for C")
			}
			if plan.Missing[p] {
				l.fire("load-missing-import")
			} else {
				tp, err := is.get(p)
				if tp != nil || err != nil {
					return tp, err
				}
			}
			depsOK = false
			return nil, fmt.Errorf("invalid package name: %q", "")
		}),
		Error: func(err error) {
			var te types.Error
			if errors.As(err, &te) {
				terrs = append(terrs, packages.Error{Pos: te.Fset.Position(te.Pos).String(), Msg: te.Msg, Kind: packages.TypeError})
			}
		},
		Sizes: pkg.TypesSizes,
	}
	pkg.Types = types.NewPackage(path, pkg.Name)
	pkg.TypesInfo = &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}, Scopes: map[ast.Node]*types.Scope{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, FileVersions: map[*ast.File]string{},
	}
	types.NewChecker(tc, fset, pkg.Types, pkg.TypesInfo).Files(pkg.Syntax)
	if len(terrs) > 0 && depsOK && !syntaxErr {
		// the go command compiles the package and reports the compiler's output
		pkg.Errors = append([]packages.Error{{Kind: packages.ListError, Msg: "# command-line-arguments\n" + terrs[0].Msg}}, pkg.Errors...)
	}
	pkg.Errors = append(pkg.Errors, terrs...)
	pkg.Errors = append(pkg.Errors, plan.Extra...)
	if len(plan.Extra) > 0 {
		l.fire("load-extra-errors")
	}
	if len(pkg.Errors) > 0 {
		pkg.IllTyped = true
	}
	_ = first
	return pkg
}

// ---- fault plans of the file system ------------------------------------------------

// FaultRule injects one failure into matching file operations.
type FaultRule struct {
	Op     string `json:"op"`     // operation, or several separated by |
	Suffix string `json:"suffix"` // path suffix
	Nth    int    `json:"nth"`    // which matching operation fails (0: first)
	Sticky bool   `json:"sticky"` // all later ones fail, too
	Err    string `json:"err"`
	At     int    `json:"at"`    // for reads and writes: fail once this many bytes have passed
	Short  bool   `json:"short"` // reads: deliver short instead of failing
	// Transient: a write fails once, later ones succeed.
	Transient bool `json:"transient,omitempty"`
	seen      int
	Fired     int `json:"fired"`
}

var errs = map[string]error{
	"EIO": errors.New("input/output error"), "ENOSPC": errors.New("no space left on device"), "EACCES": fs.ErrPermission, "ENOENT": fs.ErrNotExist,
	"EDQUOT": errors.New("disk quota exceeded"), "EPIPE": errors.New("broken pipe"), "EMFILE": errors.New("too many open files"), "EOF": io.ErrUnexpectedEOF,
}

// ErrOf names the injectable errors.
func ErrOf(n string) error {
	if e := errs[n]; e != nil {
		return e
	}
	return errs["EIO"]
}

// FaultFS builds a fault function of rules; fired counts what was injected.
func FaultFS(rules []*FaultRule, fired map[string]int) func(op, path string, n int) *zz.Fault {
	if len(rules) == 0 {
		return nil
	}
	return func(op, path string, n int) *zz.Fault {
		if !filepath.IsAbs(path) {
			if p, err := filepath.Abs(path); err == nil {
				path = p
			}
		}
		path = filepath.Clean(path)
		for _, r := range rules {
			if !hasOp(r.Op, op) || !strings.HasSuffix(path, r.Suffix) {
				continue
			}
			if r.At > 0 && (op == "write" || op == "read") {
				// the harness sees transferred bytes, not the size of this transfer:
				// a write that starts before At and would pass it is cut at At
				if op == "write" {
					if n > r.At || (r.Transient && r.Fired > 0) {
						continue
					}
					rem := r.At - n
					return &zz.Fault{Err: ErrOf(r.Err), Bytes: rem, Limit: true, Transient: r.Transient, OnFire: func() { r.Fired++; fired[op+":"+r.Err]++ }}
				}
				if r.Short {
					r.Fired++
					fired["read:short"]++
					return &zz.Fault{Bytes: r.At, Short: true}
				}
				if n < r.At {
					return &zz.Fault{Bytes: r.At - n, Short: true}
				}
				r.Fired++
				fired[op+":"+r.Err]++
				return &zz.Fault{Err: ErrOf(r.Err)}
			}
			r.seen++
			if r.seen-1 < r.Nth || (!r.Sticky && r.seen-1 > r.Nth) {
				continue
			}
			r.Fired++
			fired[op+":"+r.Err]++
			return &zz.Fault{Err: ErrOf(r.Err), Transient: r.Transient}
		}
		return nil
	}
}

func hasOp(ops, op string) bool {
	for _, o := range strings.Split(ops, "|") {
		if o == op {
			return true
		}
	}
	return false
}

// Compiles reports whether the files form a package without errors.
func Compiles(files map[string]string) bool {
	fset := token.NewFileSet()
	var fs []*ast.File
	var ks []string
	for k := range files {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if strings.HasSuffix(k, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fset, k, files[k], parser.AllErrors|parser.ParseComments)
		if err != nil {
			return false
		}
		fs = append(fs, f)
	}
	if len(fs) == 0 {
		return false
	}
	for _, f := range fs {
		if f.Name.Name != fs[0].Name.Name {
			return false
		}
	}
	is := loadImports()
	tc := &types.Config{Importer: impFunc(func(p string) (*types.Package, error) {
		tp, err := is.get(p)
		if tp == nil && err == nil {
			err = errors.New("missing")
		}
		return tp, err
	}), Sizes: types.SizesFor("gc", "amd64")}
	_, err := tc.Check("x", fset, fs, nil)
	return err == nil
}

// Typed is a package checked from source text.
type Typed struct {
	Fset  *token.FileSet
	Files map[string]*ast.File
	Names []string // of the files, sorted
	Info  *types.Info
	Pkg   *types.Package
	OK    bool // without any error
}

// TypeCheck parses and checks the non-test files; errors leave the result incomplete.
func TypeCheck(files map[string]string) *Typed {
	t := &Typed{Fset: token.NewFileSet(), Files: map[string]*ast.File{}, OK: true}
	var ks []string
	for k := range files {
		if strings.HasSuffix(k, ".go") && !strings.HasSuffix(k, "_test.go") {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var fs []*ast.File
	for _, k := range ks {
		f, err := parser.ParseFile(t.Fset, k, files[k], parser.AllErrors|parser.ParseComments)
		if err != nil {
			t.OK = false
		}
		if f != nil {
			t.Files[k] = f
			t.Names = append(t.Names, k)
			fs = append(fs, f)
		}
	}
	t.OK = t.OK && len(fs) > 0
	for _, f := range fs {
		t.OK = t.OK && f.Name.Name == fs[0].Name.Name
	}
	is := loadImports()
	t.Info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}}
	tc := &types.Config{Importer: impFunc(func(p string) (*types.Package, error) {
		tp, err := is.get(p)
		if tp == nil && err == nil {
			err = errors.New("missing")
		}
		return tp, err
	}), Sizes: types.SizesFor("gc", "amd64"), Error: func(error) { t.OK = false }}
	t.Pkg, _ = tc.Check("x", t.Fset, fs, t.Info)
	return t
}
