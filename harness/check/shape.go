package check

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"github.com/securego/gosec/v2/zz_sim/world"
)

// reshape rewrites a package into one that says the same in an unusual way: the
// edits keep the types right, so that most results still compile.
//
// It returns the new files and the names of the edits applied. With keep, only
// edits after which the package still compiles are applied.
func (r *Run) reshape(files map[string]string, n int, keep bool) (map[string]string, []string) {
	files = copyFiles(files)
	var done []string
	for k := 0; k < n; k++ {
		t := world.TypeCheck(files)
		if t.Pkg == nil || len(t.Names) == 0 {
			break
		}
		for try := 0; try < 4; try++ {
			s := &shaper{r: r, t: t, files: copyFiles(files)}
			name := s.edit()
			if name == "" {
				continue
			}
			if keep || r.P(7, 8) {
				if !world.Compiles(s.files) {
					continue
				}
			}
			files = s.files
			done = append(done, name)
			r.Fired["shape-"+name]++
			break
		}
	}
	return files, done
}

type shaper struct {
	r     *Run
	t     *world.Typed
	files map[string]string
	es    map[string][]edit
}

func (s *shaper) off(p token.Pos) int { return s.t.Fset.Position(p).Offset }

func (s *shaper) text(file string, from, to token.Pos) string {
	a, b := s.off(from), s.off(to)
	src := s.files[file]
	if a < 0 || b < a || b > len(src) {
		return ""
	}
	return src[a:b]
}

// sub replaces a range; edits of one file are applied together.
func (s *shaper) sub(file string, from, to token.Pos, with string) {
	if s.es == nil {
		s.es = map[string][]edit{}
	}
	s.es[file] = append(s.es[file], edit{s.off(from), s.off(to), with})
}

func (s *shaper) commit() {
	for f, es := range s.es {
		sort.SliceStable(es, func(i, j int) bool { return es[i].from > es[j].from })
		src := s.files[f]
		for _, e := range es {
			if e.from >= 0 && e.from <= e.to && e.to <= len(src) {
				src = src[:e.from] + e.with + src[e.to:]
			}
		}
		s.files[f] = src
	}
	s.es = nil
}

// decl adds a declaration to the package: behind the others of the file or in a
// file of its own (then identifiers of imported packages need imports there).
func (s *shaper) decl(file, text string, imports map[string]string) {
	if s.r.P(1, 2) {
		s.files[file] += "\n" + text + "\n"
		return
	}
	name := fmt.Sprintf("zz_h%d.go", s.r.uniq())
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\n", s.t.Files[file].Name.Name)
	for _, n := range sortedKeys(imports) {
		if n == "." {
			fmt.Fprintf(&b, "import . %q\n", imports[n])
		} else {
			fmt.Fprintf(&b, "import %s %q\n", n, imports[n])
		}
	}
	b.WriteString("\n" + text + "\n")
	s.files[name] = b.String()
}

// site is one expression with its surroundings.
type site struct {
	file  string
	e     ast.Expr
	tv    types.TypeAndValue
	stack []ast.Node // parents, outermost first
	hot   bool
}

func (s *shaper) sites() (hot, all []site) {
	for _, name := range s.t.Names {
		f := s.t.Files[name]
		var stack []ast.Node
		ast.Inspect(f, func(n ast.Node) bool {
			if n == nil {
				stack = stack[:len(stack)-1]
				return true
			}
			if e, ok := n.(ast.Expr); ok {
				if tv, ok := s.t.Info.Types[e]; ok && (tv.IsValue() || tv.IsNil()) && tv.Type != nil && usable(e, stack) {
					if _, tup := tv.Type.(*types.Tuple); !tup {
						x := site{file: name, e: e, tv: tv, stack: append([]ast.Node(nil), stack...)}
						x.hot = isHot(stack)
						all = append(all, x)
						if x.hot {
							hot = append(hot, x)
						}
					}
				}
			}
			stack = append(stack, n)
			return true
		})
	}
	return
}

// usable tells whether the expression may be replaced by another of its type.
func usable(e ast.Expr, stack []ast.Node) bool {
	if len(stack) == 0 {
		return false
	}
	switch p := stack[len(stack)-1].(type) {
	case *ast.SelectorExpr:
		return p.X == e
	case *ast.AssignStmt:
		for _, l := range p.Lhs {
			if l == e {
				return false
			}
		}
	case *ast.KeyValueExpr:
		if p.Key == e {
			if cl, ok := stack[len(stack)-2].(*ast.CompositeLit); ok {
				_, isMap := cl.Type.(*ast.MapType)
				return isMap
			}
		}
	case *ast.RangeStmt:
		return p.X == e
	case *ast.ImportSpec, *ast.Field, *ast.LabeledStmt, *ast.BranchStmt, *ast.TypeSpec, *ast.FuncDecl, *ast.File:
		return false
	case *ast.ValueSpec:
		for _, n := range p.Names {
			if n == e {
				return false
			}
		}
	case *ast.UnaryExpr:
		return p.Op != token.AND || true
	case *ast.CallExpr:
		return p.Fun != e
	case *ast.ExprStmt:
		return false
	}
	return true
}

// isHot tells whether rules look at the place: call arguments, composite
// literals, operands, indexes.
func isHot(stack []ast.Node) bool {
	for i := len(stack) - 1; i >= 0 && i > len(stack)-4; i-- {
		switch stack[i].(type) {
		case *ast.CallExpr, *ast.CompositeLit, *ast.IndexExpr, *ast.SliceExpr, *ast.ValueSpec, *ast.AssignStmt:
			return true
		case *ast.BlockStmt:
			return false
		}
	}
	return false
}

func (s *shaper) edit() string {
	var name string
	switch s.r.Int(12) {
	default:
		name = s.exprEdit()
	case 8:
		name = s.stmtEdit()
	case 9:
		name = s.declEdit()
	case 10:
		name = s.callEdit()
	case 11:
		name = s.importEdit()
	}
	if name != "" {
		s.commit()
	}
	return name
}

// typeText writes a type as it is named in the file.
func (s *shaper) typeText(file string, t types.Type) (string, bool) {
	ok := true
	f := s.t.Files[file]
	q := func(p *types.Package) string {
		if p == s.t.Pkg {
			return ""
		}
		for _, i := range f.Imports {
			if i.Path != nil && strings.Trim(i.Path.Value, "\"`") == p.Path() {
				if i.Name == nil {
					return p.Name()
				}
				if i.Name.Name == "." {
					return ""
				}
				if i.Name.Name != "_" {
					return i.Name.Name
				}
			}
		}
		n := fmt.Sprintf("zzi%d", s.r.uniq())
		s.sub(file, f.Name.End(), f.Name.End(), fmt.Sprintf("; import %s %q", n, p.Path()))
		return n
	}
	if b, isB := t.(*types.Basic); isB {
		if b.Kind() == types.UntypedNil || b.Kind() == types.Invalid {
			return "", false
		}
	}
	return types.TypeString(types.Default(t), q), ok
}

// importsUsed collects the package names an expression refers to.
func (s *shaper) importsUsed(n ast.Node) map[string]string {
	out := map[string]string{}
	ast.Inspect(n, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if p, ok := s.t.Info.Uses[id].(*types.PkgName); ok {
				out[p.Name()] = p.Imported().Path()
			}
		}
		return true
	})
	return out
}

// local tells whether the expression depends on function-local declarations.
func (s *shaper) local(e ast.Node) bool {
	loc := false
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if o := s.t.Info.Uses[id]; o != nil && o.Parent() != nil && o.Parent() != types.Universe && o.Parent() != s.t.Pkg.Scope() {
				if _, isPkg := o.(*types.PkgName); !isPkg && (o.Pos() < e.Pos() || o.Pos() > e.End()) {
					loc = true
				}
			}
		}
		return !loc
	})
	return loc
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

var intPool = []string{"0", "-1", "1", "0o777", "0777", "0666", "0x1FF", "0b111", "'a'", "4096", "1 << 31", "1<<63 - 1", "1_000", "2147483648", "0600", "1 << 10", "255", "771", "772", "0x0304"}
var strPool = []string{`""`, `"/tmp/x"`, "`/tmp/x`", `"select * from t where a = "`, `"SELECT * FROM t WHERE a = '%s'"`, `"%s"`, `"0.0.0.0:80"`, `":80"`, `"\x00\xff"`, `"é€"`, `"http://localhost"`, `"f62e5bcda4fae4f82370da0c6f20697b8f8447ef"`, `"tcp"`, "`a\nb`", `"../x"`, `"/"`, `"%"`, `"a" + "b"`}

// exprEdit replaces one expression.
func (s *shaper) exprEdit() string {
	r := s.r
	hot, all := s.sites()
	if len(all) == 0 {
		return ""
	}
	var x site
	if len(hot) > 0 && r.P(3, 4) {
		x = pick(r, hot)
	} else {
		x = pick(r, all)
	}
	e := s.text(x.file, x.e.Pos(), x.e.End())
	if e == "" {
		return ""
	}
	u := fmt.Sprint(r.uniq())
	put := func(text string) { s.sub(x.file, x.e.Pos(), x.e.End(), text) }
	if x.tv.IsNil() {
		switch r.Int(3) {
		case 0:
			put("(nil)")
			return "paren"
		case 1:
			s.decl(x.file, "var zzN"+u+" any", nil)
			return ""
		}
		return ""
	}
	t, _ := s.typeText(x.file, x.tv.Type)
	if t == "" {
		return ""
	}
	pt := t // the type where a prefix operator could bind
	if strings.ContainsAny(t, "*<( ") {
		pt = "(" + t + ")"
	}
	tt := types.Default(x.tv.Type)
	switch r.Int(34) {
	case 0:
		k := 1 + r.Int(3)
		put(strings.Repeat("(", k) + e + strings.Repeat(")", k))
		return "paren"
	case 1:
		put("func() " + t + " { return " + e + " }()")
		return "function-literal"
	case 2:
		put("func(zz " + t + ") " + t + " { return zz }(" + e + ")")
		return "function-argument"
	case 3:
		put("[]" + t + "{" + e + "}[0]")
		return "slice-element"
	case 4:
		put("map[string]" + t + "{\"k\": " + e + "}[\"k\"]")
		return "map-element"
	case 5:
		put("struct{ v " + t + " }{" + e + "}.v")
		return "struct-field"
	case 6:
		put("*(&[]" + t + "{" + e + "}[0])")
		return "dereference"
	case 7:
		put("any(" + pt + "(" + e + ")).(" + t + ")")
		return "assertion"
	case 8:
		put(pt + "(" + e + ")")
		return "conversion"
	case 9:
		s.decl(x.file, "func zzId"+u+"[Z any](z Z) Z { return z }", nil)
		put("zzId" + u + "[" + t + "](" + e + ")")
		return "generic-call"
	case 10:
		s.decl(x.file, "func zzRec"+u+"[Z any](z Z, n int) Z {\n\tif n > 0 {\n\t\treturn zzRec"+u+"(z, n-1)\n\t}\n\treturn z\n}", nil)
		put("zzRec" + u + "[" + t + "](" + e + ", 3)")
		return "recursive-call"
	case 11, 12:
		// a package-level variable
		if s.local(x.e) {
			// without its value
			s.decl(x.file, "var zzV"+u+" "+t, s.typeImports(x.file, tt))
			put("zzV" + u)
			return "global-variable-without-value"
		}
		im := addSetsStr(s.importsUsed(x.e), s.typeImports(x.file, tt))
		if r.P(1, 2) {
			im = s.importsUsed(x.e)
			s.decl(x.file, "var zzV"+u+" = "+e, im)
		} else {
			s.decl(x.file, "var zzV"+u+" "+t+" = "+e, im)
		}
		put("zzV" + u)
		return "global-variable"
	case 13:
		if x.tv.Value == nil || s.local(x.e) {
			return ""
		}
		s.decl(x.file, "const zzC"+u+" = "+e, s.importsUsed(x.e))
		put("zzC" + u)
		return "global-constant"
	case 14:
		put("*new(" + t + ")")
		return "zero-value"
	case 15:
		switch tt.Underlying().(type) {
		case *types.Struct, *types.Slice, *types.Map, *types.Array:
			put("(" + t + "{})")
			return "empty-literal"
		case *types.Pointer, *types.Interface, *types.Chan, *types.Signature:
			put("nil")
			return "nil"
		}
		return ""
	case 16, 17, 18:
		return s.otherIdent(x, tt, put)
	case 19, 20, 21, 22, 23:
		return s.localVar(x, e, t, put)
	case 24:
		v := pick(r, []string{"zzS" + u + ".f", "zzP" + u + ".f", "zzT" + u + "{}.get()", "(&zzT" + u + "{}).get()", "zzE" + u + ".f", "zzA" + u + "[0].f"})
		im := s.typeImports(x.file, tt)
		d := "type zzT" + u + " struct{ f " + t + " }\n"
		switch v[2] {
		case 'S':
			d += "var zzS" + u + " zzT" + u
		case 'P':
			d += "var zzP" + u + " = &zzT" + u + "{}"
		case 'T', '&':
			d += "func (z zzT" + u + ") get() " + t + " { return z.f }"
		case 'E':
			d += "var zzE" + u + " struct{ zzT" + u + " }"
		case 'A':
			d += "var zzA" + u + " [1]zzT" + u
		}
		if strings.HasPrefix(v, "(&") {
			d += "\nfunc (z *zzT" + u + ") set(f " + t + ") { z.f = f }"
		}
		s.decl(x.file, d, im)
		put(v)
		return "global-field"
	case 25:
		put("<-func() chan " + t + " { c := make(chan " + t + ", 1); c <- " + e + "; return c }()")
		return "channel"
	case 26:
		put("func(zz ..." + t + ") " + t + " { return zz[len(zz)-1] }(" + e + ")")
		return "variadic"
	case 27:
		put("func() " + t + " { switch v := any(" + pt + "(" + e + ")).(type) { case " + t + ": return v }; panic(0) }()")
		return "type-switch"
	case 28, 29:
		switch {
		case isString(tt):
			put(pick(r, []string{e + ` + ""`, `"" + ` + e, "(" + e + ")[0:]", t + "([]byte(" + e + "))", t + "([]rune(" + e + "))", "(" + e + " + " + e + ")", pick(r, strPool)}))
			return "string"
		case isInt(tt):
			put(pick(r, []string{"(" + e + " + 0)", "(" + e + " | 0)", "(" + e + ")<<0", "-(-(" + e + "))", "^^(" + e + ")", "(" + e + ")*1", "(" + e + ")%7", t + "(len(\"abc\"))", pick(r, intPool)}))
			return "integer"
		case isBool(tt):
			put(pick(r, []string{"!!(" + e + ")", "(" + e + ") && true", "!(" + e + ")", "true", "false", "(" + e + " == true)"}))
			return "boolean"
		}
		return ""
	case 30:
		// constants of other magnitude
		if x.tv.Value == nil {
			return ""
		}
		if isInt(tt) {
			put(pick(r, intPool))
			return "other-constant"
		}
		if isString(tt) {
			put(pick(r, strPool))
			return "other-constant"
		}
		return ""
	case 31:
		// the same constant, written differently
		if x.tv.Value == nil {
			return ""
		}
		switch x.tv.Value.Kind() {
		case constant.Int:
			if v, ok := constant.Int64Val(x.tv.Value); ok && v >= 0 {
				put(pick(r, []string{fmt.Sprintf("%d", v), fmt.Sprintf("0x%X", v), fmt.Sprintf("0o%o", v), fmt.Sprintf("0b%b", v), fmt.Sprintf("(%d + 1 - 1)", v), fmt.Sprintf("%d.0", v)}))
				return "constant-form"
			}
		case constant.String:
			v := constant.StringVal(x.tv.Value)
			k := r.Int(len(v) + 1)
			put(pick(r, []string{fmt.Sprintf("%q", v), fmt.Sprintf("(%q + %q)", v[:k], v[k:])}))
			return "constant-form"
		}
		return ""
	case 32:
		put("func() (zz " + t + ") { defer func() { zz = " + e + " }(); return }()")
		return "deferred-result"
	case 33:
		s.decl(x.file, "type zzAl"+u+" = "+t, s.typeImports(x.file, tt))
		put("zzAl" + u + "(" + e + ")")
		return "alias-conversion"
	}
	return ""
}

func addSetsStr(ms ...map[string]string) map[string]string {
	out := map[string]string{}
	for _, m := range ms {
		for k, v := range m {
			out[k] = v
		}
	}
	return out
}

// typeImports lists the imports a type's text needs.
func (s *shaper) typeImports(file string, t types.Type) map[string]string {
	out := map[string]string{}
	types.TypeString(t, func(p *types.Package) string {
		if p != s.t.Pkg {
			n := p.Name()
			for _, i := range s.t.Files[file].Imports {
				if i.Path != nil && strings.Trim(i.Path.Value, "\"`") == p.Path() && i.Name != nil {
					n = i.Name.Name
				}
			}
			out[n] = p.Path()
		}
		return ""
	})
	return out
}

// otherIdent puts another variable of the same type in place.
func (s *shaper) otherIdent(x site, t types.Type, put func(string)) string {
	sc := s.t.Pkg.Scope().Innermost(x.e.Pos())
	var names []string
	seen := map[string]bool{}
	for ; sc != nil && sc != types.Universe; sc = sc.Parent() {
		for _, n := range sc.Names() {
			o := sc.Lookup(n)
			if seen[n] || n == "_" {
				continue
			}
			seen[n] = true
			switch o.(type) {
			case *types.Var, *types.Const, *types.Func:
			default:
				continue
			}
			if o.Parent() != s.t.Pkg.Scope() && o.Pos() >= x.e.Pos() {
				continue
			}
			if types.AssignableTo(o.Type(), t) {
				names = append(names, n)
			} else if types.ConvertibleTo(o.Type(), t) && s.r.P(1, 4) {
				if tx, ok := s.typeText(x.file, t); ok && tx != "" {
					names = append(names, "("+tx+")("+n+")")
				}
			} else if sg, ok := o.Type().(*types.Signature); ok && sg.Params().Len() == 0 && sg.Results().Len() == 1 && sg.Recv() == nil && types.AssignableTo(sg.Results().At(0).Type(), t) {
				names = append(names, n+"()")
			}
		}
	}
	if len(names) == 0 {
		return ""
	}
	put(pick(s.r, names))
	return "other-identifier"
}

// stmtOf finds the innermost statement in a statement list around the site.
func stmtOf(stack []ast.Node) (ast.Stmt, int) {
	for i := len(stack) - 1; i > 0; i-- {
		st, ok := stack[i].(ast.Stmt)
		if !ok {
			continue
		}
		var list []ast.Stmt
		switch p := stack[i-1].(type) {
		case *ast.BlockStmt:
			list = p.List
		case *ast.CaseClause:
			list = p.Body
		case *ast.CommClause:
			list = p.Body
		}
		for _, l := range list {
			if l == st {
				return st, i
			}
		}
	}
	return nil, 0
}

// localVar hoists the expression into local variables in front of its statement.
func (s *shaper) localVar(x site, e, t string, put func(string)) string {
	st, _ := stmtOf(x.stack)
	if st == nil {
		return ""
	}
	r := s.r
	v := fmt.Sprintf("zzL%d", r.uniq())
	var pre string
	name := "local-variable"
	switch r.Int(20) {
	default:
		pre = v + " := " + pt(t) + "(" + e + ")"
	case 1:
		pre = v + " := " + e
	case 2:
		pre = "var " + v + " " + t + " = " + e
	case 3:
		pre = "var " + v + " " + t + "; " + v + " = " + e
	case 4:
		pre = v + ", " + v + "b := " + e + ", 1; _ = " + v + "b"
	case 5:
		pre = v + "b, " + v + " := 1, " + e + "; _ = " + v + "b"
	case 6:
		pre = "var " + v + " " + t + "; if len(\"x\") > 0 { " + v + " = " + e + " }"
		name = "conditional-variable"
	case 7:
		pre = "var " + v + " " + t + "; for zzi := 0; zzi < 2; zzi++ { " + v + " = " + e + " }"
		name = "loop-variable"
	case 8:
		pre = "const " + v + " = " + e
		name = "local-constant"
	case 9:
		pre = v + "c := " + e + "; " + v + "b := " + v + "c; " + v + " := " + v + "b"
		name = "variable-chain"
	case 10:
		pre = v + "p := &[]" + t + "{" + e + "}[0]"
		put("*" + v + "p")
		s.sub(x.file, st.Pos(), st.Pos(), pre+"; ")
		return "local-pointer"
	case 11:
		pre = v + " := func() " + t + " { return " + e + " }"
		put(v + "()")
		s.sub(x.file, st.Pos(), st.Pos(), pre+"; ")
		return "local-closure"
	case 12:
		pre = "var " + v + " " + t + "; func() { " + v + " = " + e + " }()"
		name = "captured-variable"
	case 13:
		pre = "var " + v + " " + t + "; _ = func() { " + v + " = " + e + " }"
		name = "captured-variable"
	case 14:
		pre = v + "m := map[int]" + t + "{0: " + e + "}; " + v + ", " + v + "ok := " + v + "m[0]; _ = " + v + "ok"
		name = "comma-ok"
	case 15:
		pre = v + ", " + v + "ok := any(" + pt(t) + "(" + e + ")).(" + t + "); _ = " + v + "ok"
		name = "comma-ok"
	case 16:
		pre = v + ", _ := func() (" + t + ", error) { return " + e + ", nil }()"
		name = "two-results"
	case 17:
		pre = "var " + v + ", " + v + "b " + t + " = " + e + ", " + e + "; _ = " + v + "b"
	case 18:
		// wrap the statement in a range
		put(v)
		s.sub(x.file, st.Pos(), st.Pos(), "for _, "+v+" := range []"+t+"{"+e+"} { ")
		s.sub(x.file, st.End(), st.End(), " }")
		return "range-variable"
	case 19:
		put(v)
		s.sub(x.file, st.Pos(), st.Pos(), "if "+v+" := "+e+"; len(\"x\") > 0 { ")
		s.sub(x.file, st.End(), st.End(), " }")
		return "if-variable"
	}
	put(v)
	s.sub(x.file, st.Pos(), st.Pos(), pre+"; ")
	return name
}

func pt(t string) string {
	if strings.ContainsAny(t, "*<( ") {
		return "(" + t + ")"
	}
	return t
}

// stmtEdit wraps or repeats one statement.
func (s *shaper) stmtEdit() string {
	type sst struct {
		file string
		st   ast.Stmt
		next ast.Stmt
	}
	var all []sst
	for _, name := range s.t.Names {
		ast.Inspect(s.t.Files[name], func(n ast.Node) bool {
			var list []ast.Stmt
			switch p := n.(type) {
			case *ast.BlockStmt:
				list = p.List
			case *ast.CaseClause:
				list = p.Body
			}
			for i, st := range list {
				x := sst{file: name, st: st}
				if i+1 < len(list) {
					x.next = list[i+1]
				}
				all = append(all, x)
			}
			return true
		})
	}
	if len(all) == 0 {
		return ""
	}
	r := s.r
	x := pick(r, all)
	t := s.text(x.file, x.st.Pos(), x.st.End())
	u := fmt.Sprint(r.uniq())
	put := func(text string) { s.sub(x.file, x.st.Pos(), x.st.End(), text) }
	switch r.Int(18) {
	case 0:
		put("{ " + t + " }")
		return "block"
	case 1:
		put("if len(\"x\") > 0 { " + t + " }")
		return "if"
	case 2:
		put("if len(\"x\") > 0 { " + t + " } else { " + t + " }")
		return "if-else"
	case 3:
		put("for zzi" + u + " := 0; zzi" + u + " < 2; zzi" + u + "++ { " + t + " }")
		return "for"
	case 4:
		put("for range 3 { " + t + " }")
		return "range-int"
	case 5:
		put("func() { " + t + " }()")
		return "closure"
	case 6:
		put("defer func() { " + t + " }()")
		return "defer"
	case 7:
		put("go func() { " + t + " }()")
		return "go"
	case 8:
		put("switch { case len(\"x\") > 0: " + t + "; default: }")
		return "switch"
	case 9:
		put("select { default: " + t + " }")
		return "select"
	case 10:
		put("zzLab" + u + ": for { " + t + "; break zzLab" + u + " }")
		return "label"
	case 11:
		put("if len(\"y\") > 5 { goto zzLab" + u + " }; " + t + "; zzLab" + u + ": ; if len(\"z\") > 7 { goto zzLab" + u + " }")
		return "goto"
	case 12:
		put(t + "; " + t)
		return "repeat"
	case 13:
		if x.next == nil {
			return ""
		}
		n := s.text(x.file, x.next.Pos(), x.next.End())
		put(n)
		s.sub(x.file, x.next.Pos(), x.next.End(), t)
		return "swap"
	case 14:
		put(t + "; if len(\"x\") > 9 { panic(\"x\") }")
		return "panic"
	case 15:
		if es, ok := x.st.(*ast.ExprStmt); ok {
			if _, ok := es.X.(*ast.CallExpr); ok {
				put(pick(r, []string{"defer ", "go "}) + t)
				return "deferred-call"
			}
		}
		return ""
	case 16:
		put("")
		return "drop"
	case 17:
		put("for { if len(\"x\") > 0 { " + t + "; break }; continue }")
		return "loop"
	}
	return ""
}

// callEdit changes how a function is called.
func (s *shaper) callEdit() string {
	type sc struct {
		file string
		c    *ast.CallExpr
	}
	var all []sc
	for _, name := range s.t.Names {
		ast.Inspect(s.t.Files[name], func(n ast.Node) bool {
			if c, ok := n.(*ast.CallExpr); ok {
				all = append(all, sc{name, c})
			}
			return true
		})
	}
	if len(all) == 0 {
		return ""
	}
	r := s.r
	x := pick(r, all)
	fun := s.text(x.file, x.c.Fun.Pos(), x.c.Fun.End())
	u := fmt.Sprint(r.uniq())
	sg, _ := s.t.Info.TypeOf(x.c.Fun).(*types.Signature)
	put := func(text string) { s.sub(x.file, x.c.Fun.Pos(), x.c.Fun.End(), text) }
	switch r.Int(9) {
	case 0:
		put("(" + fun + ")")
		return "callee-paren"
	case 1:
		if sg == nil || s.local(x.c.Fun) {
			return ""
		}
		s.decl(x.file, "var zzF"+u+" = "+fun, s.importsUsed(x.c.Fun))
		put("zzF" + u)
		return "callee-global"
	case 2:
		if sg == nil {
			return ""
		}
		put("[]any{" + fun + "}[0].(" + first(s.typeText(x.file, sg)) + ")")
		return "callee-assertion"
	case 3:
		if sg == nil {
			return ""
		}
		put("func() " + first(s.typeText(x.file, sg)) + " { return " + fun + " }()")
		return "callee-returned"
	case 4, 5:
		// f(g()): the arguments come from one call with several results
		if sg == nil || len(x.c.Args) < 2 || sg.Variadic() && x.c.Ellipsis.IsValid() {
			return ""
		}
		var ts []string
		for i := range x.c.Args {
			var pt types.Type
			switch {
			case i < sg.Params().Len()-1 || !sg.Variadic() && i < sg.Params().Len():
				pt = sg.Params().At(i).Type()
			case sg.Variadic():
				pt = sg.Params().At(sg.Params().Len() - 1).Type().(*types.Slice).Elem()
			default:
				return ""
			}
			ts = append(ts, first(s.typeText(x.file, pt)))
		}
		args := s.text(x.file, x.c.Args[0].Pos(), x.c.Args[len(x.c.Args)-1].End())
		s.sub(x.file, x.c.Args[0].Pos(), x.c.Args[len(x.c.Args)-1].End(), "func() ("+strings.Join(ts, ", ")+") { return "+args+" }()")
		return "arguments-from-call"
	case 6:
		if sg == nil || !sg.Variadic() || x.c.Ellipsis.IsValid() {
			return ""
		}
		k := sg.Params().Len() - 1
		el, ok := sg.Params().At(k).Type().(*types.Slice)
		if !ok || len(x.c.Args) < k {
			return ""
		}
		lit := "[]" + first(s.typeText(x.file, el.Elem())) + "{"
		if len(x.c.Args) == k {
			s.sub(x.file, x.c.Rparen, x.c.Rparen, map[bool]string{true: ", ", false: ""}[k > 0]+lit+"}...")
		} else {
			s.sub(x.file, x.c.Args[k].Pos(), x.c.Args[k].Pos(), lit)
			s.sub(x.file, x.c.Args[len(x.c.Args)-1].End(), x.c.Args[len(x.c.Args)-1].End(), "}...")
		}
		return "spread"
	case 7:
		// method expression
		se, ok := x.c.Fun.(*ast.SelectorExpr)
		if !ok {
			return ""
		}
		sel := s.t.Info.Selections[se]
		if sel == nil || sel.Kind() != types.MethodVal {
			return ""
		}
		recv := first(s.typeText(x.file, sel.Recv()))
		rx := s.text(x.file, se.X.Pos(), se.X.End())
		put("(" + recv + ")." + se.Sel.Name)
		sep := ""
		if len(x.c.Args) > 0 {
			sep = ", "
		}
		s.sub(x.file, x.c.Lparen+1, x.c.Lparen+1, rx+sep)
		return "method-expression"
	case 8:
		// a wrapper around the called function
		if sg == nil || s.local(x.c.Fun) || sg.Variadic() || sg.TypeParams() != nil {
			return ""
		}
		var ps, as []string
		im := s.importsUsed(x.c.Fun)
		for i := 0; i < sg.Params().Len(); i++ {
			ps = append(ps, fmt.Sprintf("zz%d %s", i, first(s.typeText(x.file, sg.Params().At(i).Type()))))
			as = append(as, fmt.Sprintf("zz%d", i))
			im = addSetsStr(im, s.typeImports(x.file, sg.Params().At(i).Type()))
		}
		res, ret := "", ""
		if sg.Results().Len() > 0 {
			var rs []string
			for i := 0; i < sg.Results().Len(); i++ {
				rs = append(rs, first(s.typeText(x.file, sg.Results().At(i).Type())))
				im = addSetsStr(im, s.typeImports(x.file, sg.Results().At(i).Type()))
			}
			res, ret = "("+strings.Join(rs, ", ")+")", "return "
		}
		rec := ""
		if r.P(1, 2) && len(ps) > 0 {
			rec = "\tif len(\"x\") > 3 {\n\t\t" + ret + "zzW" + u + "(" + strings.Join(as, ", ") + ")\n\t\t" + map[bool]string{true: "", false: "return"}[ret != ""] + "\n\t}\n"
		}
		s.decl(x.file, "func zzW"+u+"("+strings.Join(ps, ", ")+") "+res+" {\n"+rec+"\t"+ret+fun+"("+strings.Join(as, ", ")+")\n}", im)
		put("zzW" + u)
		return "wrapper"
	}
	return ""
}

func first(s string, _ bool) string { return s }

// declEdit changes one declaration.
func (s *shaper) declEdit() string {
	type sd struct {
		file string
		d    ast.Decl
	}
	var all []sd
	for _, name := range s.t.Names {
		for _, d := range s.t.Files[name].Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
				continue
			}
			all = append(all, sd{name, d})
		}
	}
	if len(all) == 0 {
		return ""
	}
	r := s.r
	x := pick(r, all)
	u := fmt.Sprint(r.uniq())
	f := s.t.Files[x.file]
	fd, _ := x.d.(*ast.FuncDecl)
	switch r.Int(8) {
	case 0, 1, 2:
		// another file
		from := x.d.Pos()
		var doc *ast.CommentGroup
		switch d := x.d.(type) {
		case *ast.FuncDecl:
			doc = d.Doc
		case *ast.GenDecl:
			doc = d.Doc
		}
		if doc != nil {
			from = doc.Pos()
		}
		to := x.d.End()
		for _, g := range f.Comments {
			if g.Pos() >= to && s.t.Fset.Position(g.Pos()).Line == s.t.Fset.Position(to).Line {
				to = g.End()
			}
		}
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n\n", f.Name.Name)
		inside, outside := map[*types.PkgName]bool{}, map[*types.PkgName]bool{}
		ast.Inspect(f, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if p, ok := s.t.Info.Uses[id].(*types.PkgName); ok {
					if id.Pos() >= from && id.End() <= to {
						inside[p] = true
					} else {
						outside[p] = true
					}
				}
			}
			return true
		})
		for _, i := range f.Imports {
			var p *types.PkgName
			if i.Name != nil {
				p, _ = s.t.Info.Defs[i.Name].(*types.PkgName)
			} else {
				p, _ = s.t.Info.Implicits[i].(*types.PkgName)
			}
			if p == nil || p.Name() == "." {
				continue
			}
			if inside[p] {
				fmt.Fprintf(&b, "import %s\n", s.text(x.file, i.Pos(), i.End()))
				if !outside[p] {
					// keep the import but unused
					if i.Name != nil {
						s.sub(x.file, i.Name.Pos(), i.Name.End(), "_")
					} else {
						s.sub(x.file, i.Path.Pos(), i.Path.Pos(), "_ ")
					}
				}
			}
		}
		b.WriteString("\n" + s.text(x.file, from, to) + "\n")
		s.sub(x.file, from, to, "")
		s.files[pick(r, []string{"aa", "zz"})+"_m"+u+".go"] = b.String()
		return "other-file"
	case 3:
		if fd == nil || fd.Recv != nil || fd.Type.TypeParams != nil {
			return ""
		}
		s.sub(x.file, fd.Name.Pos(), fd.Name.Pos(), pick(r, []string{"(zzr zzR" + u + ") ", "(*zzR" + u + ") ", "(_ zzR" + u + ") "}))
		s.commit()
		s.decl(x.file, "type zzR"+u+" struct{}", nil)
		return "method"
	case 4:
		if fd == nil || fd.Recv != nil || fd.Type.TypeParams != nil || fd.Name.Name == "main" || fd.Name.Name == "init" {
			return ""
		}
		s.sub(x.file, fd.Name.End(), fd.Name.End(), pick(r, []string{"[Z any]", "[Z ~int | ~string]", "[Z interface{ String() string }]"}))
		return "generic"
	case 5:
		if fd == nil || fd.Recv != nil || fd.Type.TypeParams != nil || fd.Body == nil || fd.Name.Name == "main" || fd.Name.Name == "init" {
			return ""
		}
		s.sub(x.file, fd.Pos(), fd.Type.Params.Pos(), "var "+fd.Name.Name+" = func")
		return "function-variable"
	case 6:
		if fd == nil || fd.Recv != nil || fd.Type.Results != nil || fd.Body == nil || len(fd.Type.Params.List) > 0 {
			return ""
		}
		s.sub(x.file, fd.Pos(), fd.Body.Pos(), "func init() ")
		return "init"
	case 7:
		// grouped or doubled value declarations
		g, ok := x.d.(*ast.GenDecl)
		if !ok || g.Lparen.IsValid() || len(g.Specs) != 1 {
			return ""
		}
		s.sub(x.file, g.Specs[0].Pos(), g.Specs[0].Pos(), "( ")
		s.sub(x.file, g.Specs[0].End(), g.Specs[0].End(), "\n)")
		return "group"
	}
	return ""
}

// importEdit imports a package under another name.
func (s *shaper) importEdit() string {
	type si struct {
		file string
		i    *ast.ImportSpec
	}
	var all []si
	for _, name := range s.t.Names {
		for _, i := range s.t.Files[name].Imports {
			all = append(all, si{name, i})
		}
	}
	if len(all) == 0 {
		return ""
	}
	r := s.r
	x := pick(r, all)
	var p *types.PkgName
	if x.i.Name != nil {
		p, _ = s.t.Info.Defs[x.i.Name].(*types.PkgName)
	} else {
		p, _ = s.t.Info.Implicits[x.i].(*types.PkgName)
	}
	if p == nil {
		return ""
	}
	if base := p.Imported().Path(); r.P(1, 3) {
		// another package whose path ends like this one, but which has another name
		base = base[strings.LastIndex(base, "/")+1:]
		f := s.t.Files[x.file]
		s.sub(x.file, f.Name.End(), f.Name.End(), fmt.Sprintf("\n\nimport %q", "example.com/zz/"+base))
		s.files[x.file] += fmt.Sprintf("\nvar zzLook%d = zz%s.F()\n", r.uniq(), base)
		return "lookalike-import"
	}
	name := pick(r, []string{fmt.Sprintf("zza%d", r.uniq()), ".", "os", "exec", "rand", "http", "fmt", "tls"})
	old := p.Name()
	ast.Inspect(s.t.Files[x.file], func(n ast.Node) bool {
		se, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		if id, ok := se.X.(*ast.Ident); ok && s.t.Info.Uses[id] == p {
			if name == "." {
				s.sub(x.file, id.Pos(), se.Sel.Pos(), "")
			} else {
				s.sub(x.file, id.Pos(), id.End(), name)
			}
		}
		return true
	})
	_ = old
	if x.i.Name != nil {
		s.sub(x.file, x.i.Name.Pos(), x.i.Name.End(), name)
	} else {
		s.sub(x.file, x.i.Path.Pos(), x.i.Path.Pos(), name+" ")
	}
	if name == "." {
		return "dot-import"
	}
	return "renamed-import"
}
