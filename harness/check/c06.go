package check

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/scanner"
	"go/token"
	"sort"
	"strconv"
	"strings"

	"github.com/securego/gosec/v2/zz_sim/world"
)

func init() {
	register(&Prop{ID: "C06", Run: runC06})
}

type edit struct {
	from, to int
	with     string
}

type tokSpan struct {
	from, to int
	lit      string
	tok      token.Token
}

func tokenize(src string) []tokSpan {
	fset := token.NewFileSet()
	f := fset.AddFile("x", -1, len(src))
	var sc scanner.Scanner
	sc.Init(f, []byte(src), func(token.Position, string) {}, 0)
	var out []tokSpan
	for {
		p, t, l := sc.Scan()
		if t == token.EOF {
			break
		}
		if t == token.SEMICOLON && l == "\n" {
			continue
		}
		from := f.Offset(p)
		if l == "" {
			l = t.String()
		}
		out = append(out, tokSpan{from, min(from+len(l), len(src)), l, t})
	}
	return out
}

// oddExprs rarely fit where they are put.
var oddExprs = []string{
	"nil", "\"a\"", "1.5", "1i", "true", "'a'", "int", "struct{}{}", "[]int{1}", "undefinedName", "interface{}(1)", "-1 << 70",
	"[2]int{}", "map[string]int{}", "(func())(nil)", "(*int)(nil)", "len", "new(int)", "\"\"[0:1]", "undefined.Name", "f()", "_",
	"iota", "[...]int{}", "chan int(nil)", "func() int { return 1 }()", "*p", "&x", "<-c", "x.(int)", "x.(type)", "[]int", "len(nil)",
	"make([]int)", "append()", "-\"a\"", "!1", "^1.5", "struct{ x int }{1}.x", "map[int]int{}[0]", "1/0", "9223372036854775808",
}

// mutate breaks a source text in one of many ways.
func (r *Run) mutate(src string) (string, string) {
	toks := tokenize(src)
	if len(toks) < 6 {
		return src + "\nfunc (", "append"
	}
	apply := func(e edit) string { return src[:e.from] + e.with + src[e.to:] }
	switch r.F(16) {
	default:
		fset := token.NewFileSet()
		f, _ := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
		if f == nil {
			return src[:len(src)/2], "truncate"
		}
		var es []edit
		names := map[int]string{}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		add := func(name string, from, to int, with string) {
			if from >= 0 && from <= to && to <= len(src) {
				names[len(es)] = name
				es = append(es, edit{from, to, with})
			}
		}
		kind := r.F(20)
		if kind >= 14 {
			var texts []string
			expr := func(e ast.Expr) {
				if e == nil {
					return
				}
				if from, to := off(e.Pos()), off(e.End()); from >= 0 && from < to && to <= len(src) {
					texts = append(texts, src[from:to])
					names[len(es)] = "expression replaced"
					es = append(es, edit{from, to, ""})
				}
			}
			ast.Inspect(f, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BinaryExpr:
					if kind < 18 {
						expr(n.X)
						expr(n.Y)
					}
				case *ast.CaseClause:
					if kind < 18 {
						for _, e := range n.List {
							expr(e)
						}
					}
				case *ast.SwitchStmt:
					if kind < 18 {
						expr(n.Tag)
					}
				case *ast.IfStmt:
					if kind < 18 {
						expr(n.Cond)
					}
				case ast.Expr:
					if kind >= 18 {
						expr(n)
					}
				}
				return true
			})
			if len(es) > 0 {
				i := r.F(len(es))
				if kind%2 == 0 {
					es[i].with = pickF(r, oddExprs)
				} else {
					es[i].with = pickF(r, texts)
				}
				return apply(es[i]), names[i]
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.CallExpr:
				l, q := off(n.Lparen)+1, off(n.Rparen)
				switch kind {
				case 0:
					add("no arguments", l, q, "")
				case 1:
					if len(n.Args) > 1 {
						add("first argument only", off(n.Args[0].End()), q, "")
					} else {
						add("extra argument", q, q, ", nil")
					}
				case 2:
					if len(n.Args) > 0 {
						a := n.Args[r.F(len(n.Args))]
						add("argument replaced", off(a.Pos()), off(a.End()), pickF(r, []string{"undefinedName", "\"text\"", "0", "nil", "func() {}", "undefined.Name", "(1 + \"a\")", "[]int{}", "undefinedCall()", "x.y.z", "struct{}{}", "-1", "1 << 100", "[3]int{}[:]", "interface{}(nil)"}))
					}
				case 3:
					add("callee replaced", off(n.Fun.Pos()), off(n.Fun.End()), pickF(r, []string{"undefinedName", "undefined.Name", "func() {}", "(3)", "\"s\"", "nil", "[]byte", "x.y.z", "undefinedCall()()", "struct{ f func() }{}.f", "map[string]func(){}[\"a\"]"}))
				}
			case *ast.CompositeLit:
				switch kind {
				case 4:
					if n.Type != nil {
						add("literal type replaced", off(n.Type.Pos()), off(n.Type.End()), pickF(r, []string{"Undefined", "undefined.Type", "[]Undefined", "map[Undefined]int", "struct{}", "[...]int", "*Undefined", "interface{}", "[Undefined]int"}))
					}
				case 5:
					add("literal emptied", off(n.Lbrace)+1, off(n.Rbrace), "")
				}
			case *ast.KeyValueExpr:
				if kind == 4 || kind == 5 {
					add("value replaced", off(n.Value.Pos()), off(n.Value.End()), pickF(r, []string{"undefinedName", "undefined.Name", "\"s\"", "nil", "f()", "1.5"}))
					add("key replaced", off(n.Key.Pos()), off(n.Key.End()), pickF(r, []string{"undefinedName", "undefined.Name", "\"s\"", "1", "(x)"}))
				}
			case *ast.Ident:
				if kind == 6 {
					add("identifier replaced", off(n.Pos()), off(n.End()), pickF(r, []string{"undefinedName", "_", "nil", "true", "int", "main", "os", "len", "iota"}))
				}
			case *ast.ImportSpec:
				if kind == 7 {
					add("import replaced", off(n.Path.Pos()), off(n.Path.End()), pickF(r, []string{"\"example.com/nowhere\"", "\"\"", "\"C\"", "\"./x\"", "\"unsafe\"", "\"os\"", "\"a b\""}))
					add("import removed", off(n.Pos()), off(n.End()), "")
					add("import aliased", off(n.Path.Pos()), off(n.Path.Pos()), pickF(r, []string{". ", "_ ", "undefinedalias "}))
				}
			case *ast.SelectorExpr:
				if kind == 8 {
					add("selector replaced", off(n.Sel.Pos()), off(n.Sel.End()), pickF(r, []string{"Undefined", "String", "x", "_"}))
					add("selector operand replaced", off(n.X.Pos()), off(n.X.End()), pickF(r, []string{"undefinedName", "undefinedCall()", "a.b", "(*undefinedName)", "[]int{}", "func() {}"}))
				}
			case *ast.AssignStmt:
				if kind == 9 {
					add("right side removed", off(n.Rhs[0].Pos()), off(n.Rhs[len(n.Rhs)-1].End()), pickF(r, []string{"undefinedName", "f()", "1, 2, 3", "nil", "", "<-undefinedName"}))
					add("left side doubled", off(n.Lhs[0].Pos()), off(n.Lhs[0].Pos()), "zzz, ")
				}
			case *ast.FuncDecl:
				if kind == 10 {
					if n.Body != nil {
						add("body removed", off(n.Body.Pos()), off(n.Body.End()), "")
					}
					if n.Type.Results != nil {
						add("results removed", off(n.Type.Results.Pos()), off(n.Type.Results.End()), "")
					}
					add("receiver added", off(n.Name.Pos()), off(n.Name.Pos()), pickF(r, []string{"(x Undefined) ", "(x undefined.T) ", "(x *int) ", "(x []int) "}))
					add("parameters replaced", off(n.Type.Params.Pos()), off(n.Type.Params.End()), pickF(r, []string{"()", "(a Undefined)", "(a ...undefined.T)", "(a, b, c int, d ...string)"}))
				}
			case *ast.BasicLit:
				if kind == 11 {
					add("literal replaced", off(n.Pos()), off(n.End()), pickF(r, []string{"undefinedName", "\"\"", "0777777777777777777777777", "1e400", "'x'", "0x", "\"a", "-1", "\"\\xff\\xfe\"", "9223372036854775808", "1i"}))
				}
			case *ast.IndexExpr:
				if kind == 12 {
					add("index replaced", off(n.Index.Pos()), off(n.Index.End()), pickF(r, []string{"undefinedName", "\"s\"", "-1", "1<<70", "f()"}))
				}
			case *ast.SliceExpr:
				if kind == 12 {
					add("slice bounds replaced", off(n.Lbrack)+1, off(n.Rbrack), pickF(r, []string{"undefinedName:", "5:1", ":-1", "::", "1:2:1", ":1<<70"}))
				}
			case *ast.RangeStmt:
				if kind == 12 {
					add("range operand replaced", off(n.X.Pos()), off(n.X.End()), pickF(r, []string{"undefinedName", "10", "f()", "nil"}))
				}
			case *ast.ReturnStmt:
				if kind == 12 && len(n.Results) > 0 {
					add("results replaced", off(n.Results[0].Pos()), off(n.Results[len(n.Results)-1].End()), pickF(r, []string{"", "undefinedName", "1, 2, 3, 4"}))
				}
			case *ast.ValueSpec:
				if kind == 13 {
					if len(n.Values) > 0 {
						add("value replaced", off(n.Values[0].Pos()), off(n.Values[len(n.Values)-1].End()), pickF(r, []string{"undefinedName", "f()", "1, 2", "nil", "undefined.Name"}))
					}
					if n.Type != nil {
						add("type replaced", off(n.Type.Pos()), off(n.Type.End()), pickF(r, []string{"Undefined", "undefined.T", "[]Undefined", "chan Undefined"}))
					}
				}
			case *ast.TypeSpec:
				if kind == 13 {
					add("type replaced", off(n.Type.Pos()), off(n.Type.End()), pickF(r, []string{n.Name.Name, "Undefined", "undefined.T", "struct{ a Undefined }", "interface{ Undefined }", "[]" + n.Name.Name, "struct{ " + n.Name.Name + " }"}))
				}
			}
			return true
		})
		if len(es) == 0 {
			i := r.F(len(toks))
			return apply(edit{toks[i].from, toks[i].to, ""}), "token removed"
		}
		i := r.F(len(es))
		return apply(es[i]), names[i]
	case 10, 11:
		i := r.F(len(toks))
		j := min(len(toks)-1, i+r.F(6))
		return apply(edit{toks[i].from, toks[j].to, ""}), "tokens removed"
	case 12:
		i, j := r.F(len(toks)), r.F(len(toks))
		return apply(edit{toks[i].from, toks[i].to, toks[j].lit}), "token replaced"
	case 13:
		i := r.F(len(toks))
		return apply(edit{toks[i].from, toks[i].from, toks[r.F(len(toks))].lit + " "}), "token inserted"
	case 14:
		return src[:r.F(len(src))], "torn read"
	case 15:
		// one identifier everywhere
		var ids []string
		seen := map[string]bool{}
		for _, t := range toks {
			if t.tok == token.IDENT && !seen[t.lit] {
				seen[t.lit] = true
				ids = append(ids, t.lit)
			}
		}
		if len(ids) == 0 {
			return src[:len(src)/2], "torn read"
		}
		id := ids[r.F(len(ids))]
		w := pickF(r, []string{"undefinedName", "_", "nil", "string", "init", "main"})
		var b strings.Builder
		at := 0
		for _, t := range toks {
			if t.tok == token.IDENT && t.lit == id {
				b.WriteString(src[at:t.from])
				b.WriteString(w)
				at = t.to
			}
		}
		b.WriteString(src[at:])
		return b.String(), "name replaced everywhere"
	}
}

func importsOf(files map[string]string) []string {
	seen := map[string]bool{}
	for _, k := range sortedKeys(files) {
		f, _ := parser.ParseFile(token.NewFileSet(), k, files[k], parser.ImportsOnly)
		if f == nil {
			continue
		}
		for _, i := range f.Imports {
			if i.Path != nil {
				seen[strings.Trim(i.Path.Value, "\"`")] = true
			}
		}
	}
	out := sortedKeys(seen)
	sort.Strings(out)
	return out
}

// brokenCase draws a package with broken sources.
func (r *Run) brokenCase(name string) *pkgCase {
	c := &pkgCase{name: name, mkdir: true, plan: &world.PlanSpec{}}
	all := Corpus()
	var it *Item
	if r.P(1, 6) {
		c.files, c.kind = r.stressPkg()
		if r.P(2, 3) {
			return c
		}
	} else if r.P(1, 5) {
		c.files = r.genPkg(name)
		c.kind = "generated"
	} else {
		it = all[r.Int(len(all))]
		c.files = copyFiles(it.Files)
		c.kind = it.Name
	}
	n := 1 + r.F(3)
	if r.P(2, 3) {
		var how []string
		c.files, how = r.reshape(c.files, 1+r.Int(5), false)
		for _, h := range how {
			c.kind += "; " + h
		}
		if r.P(2, 3) {
			n = 0
		}
	}
	gs := goNames(c.files)
	for k := 0; k < n && len(gs) > 0; k++ {
		switch r.F(8) {
		case 5:
			im := importsOf(c.files)
			if len(im) > 0 {
				for _, p := range im {
					if r.FP(1, 2) {
						c.plan.Missing = append(c.plan.Missing, p)
					}
				}
				if len(c.plan.Missing) == 0 {
					c.plan.Missing = append(c.plan.Missing, pickF(r, im))
				}
				c.kind += "; missing " + strings.Join(c.plan.Missing, ",")
			}
		case 6:
			f := pickF(r, gs)
			switch r.F(3) {
			case 0:
				c.plan.Remove = append(c.plan.Remove, f)
				c.kind += "; removed " + f
			case 1:
				c.faults = append(c.faults, world.FaultRule{Op: "loadread", Suffix: "/" + f, Sticky: true, Err: "EIO"})
				c.kind += "; unreadable " + f
			case 2:
				c.plan.RemoveAft = append(c.plan.RemoveAft, f)
				c.kind += "; removed later " + f
			}
		case 7:
			// declarations move to another file
			f := pickF(r, gs)
			toks := tokenize(c.files[f])
			depth := 0
			cut := -1
			for _, t := range toks {
				switch t.tok {
				case token.LBRACE, token.LPAREN:
					depth++
				case token.RBRACE, token.RPAREN:
					depth--
				case token.FUNC, token.VAR, token.CONST, token.TYPE:
					if depth == 0 && (cut < 0 || r.FP(1, 2)) {
						cut = t.from
					}
				}
			}
			if cut > 0 {
				c.files["zz_split.go"] = "package " + clauseOf(map[string]string{f: c.files[f]}) + "\n\n" + c.files[f][cut:]
				c.files[f] = c.files[f][:cut]
				c.kind += "; split " + f
				r.Fired["source-split"]++
			}
		default:
			f := pickF(r, gs)
			var how string
			c.files[f], how = r.mutate(c.files[f])
			r.Fired["source-"+strings.ReplaceAll(how, " ", "-")]++
			c.kind += "; " + f + ": " + how
		}
	}
	return c
}

// placed fails unless every finding names a rule and lines of a source file.
func (r *Run) placed(root string, cs []*pkgCase, s *Scan) {
	for _, f := range s.Findings {
		src, ok := "", false
		for _, c := range cs {
			for n, t := range c.files {
				if f.File == c.name+"/"+n {
					src, ok = t, true
				}
			}
		}
		if !ok || f.Rule == "" || f.What == "" {
			r.Fail("misplaced-finding", "the finding %q (%s) names no scanned file or no rule", f.ID(), f.What)
		}
		if strings.Contains(src, "//line ") || strings.Contains(src, "/*line ") {
			continue
		}
		lines := strings.Count(src, "\n") + 1
		from, to, multi := strings.Cut(f.Line, "-")
		a, err := strconv.Atoi(from)
		b := a
		if err == nil && multi {
			b, err = strconv.Atoi(to)
		}
		col, err2 := strconv.Atoi(f.Col)
		if err != nil || err2 != nil || a < 1 || b < a || b > lines || col < 1 {
			r.Fail("misplaced-finding", "the finding %q names no place of its file, which has %d lines", f.ID(), lines)
		}
	}
}

func runC06(r *Run) {
	var cs []*pkgCase
	healthyN := r.Int(3)
	o := Opts{Conc: 1, Track: r.P(1, 5), Audit: r.P(1, 3), Tests: r.P(1, 10)}
	r.oldGo()
	var parts []*Scan
	for i := 0; i < healthyN; i++ {
		c := &pkgCase{name: fmt.Sprintf("h%d", i), mkdir: true}
		c.files, c.kind = r.goodFiles(c.name)
		r.Log("package %s: %s", c.name, c.kind)
		cs = append(cs, c)
		root, paths := r.fresh([]*pkgCase{c})
		r.install(root, []*pkgCase{c}, false)
		var s *Scan
		r.Ref("scan of "+c.name+" alone", func() { s = DoScan(root, o, paths) })
		parts = append(parts, s)
	}
	bad := 1 + r.Int(2)
	var kinds []string
	for i := 0; i < bad; i++ {
		c := r.brokenCase(fmt.Sprintf("b%d", i))
		cs = append(cs, c)
		r.Log("package %s: %s", c.name, c.kind)
		if r.Verbose {
			for _, f := range goNames(c.files) {
				r.Log("--- %s/%s\n%s", c.name, f, c.files[f])
			}
		}
		kinds = append(kinds, c.kind)
	}
	hs := append([]*pkgCase(nil), cs...)
	shuffle(r, cs)
	root, paths := r.fresh(cs)
	r.install(root, cs, true)
	o2 := o
	o2.Conc = 1 + r.Int(4)
	var got *Scan
	r.Sim("scan of "+strings.Join(kinds, " | "), r.SimCfg(), func() { got = DoScan(root, o2, paths) })
	if got.Err != "" {
		r.Fail("scan-aborted", "the scan of %v returned %s", kinds, got.Err)
	}
	r.placed(root, cs, got)
	for i, s := range parts {
		name := hs[i].name
		mf, me := under(got, name)
		if d := diffSets(name+" alone", multiset(s.Findings, Finding.WithSupp), "the scan with broken packages", mf); d != "" {
			r.Fail("healthy-findings-lost", "findings in package %s (%s) differ next to %v:%s", name, hs[i].kind, kinds, d)
		}
		if len(me) > 0 {
			r.Fail("healthy-errors", "package %s has errors %v next to %v", name, me, kinds)
		}
	}
	broken := 0
	for _, c := range cs {
		if c.plan == nil || len(goNames(c.files)) == 0 {
			continue
		}
		ill := !world.Compiles(c.files) || len(c.plan.Remove) > 0
		for _, p := range importsOf(c.files) {
			ill = ill || contains(c.plan.Missing, p)
		}
		for _, f := range c.faults {
			ill = ill || f.Op == "loadread"
		}
		if !ill {
			continue
		}
		broken++
		_, me := under(got, c.name)
		if len(me) == 0 {
			r.Fail("silent-loss", "package %s (%s) does not compile, but no error is recorded for it: %v", c.name, c.kind, got.Errors)
		}
	}
	shaped := false
	for k := range r.Fired {
		shaped = shaped || strings.HasPrefix(k, "shape-")
	}
	r.Trivial = broken == 0 && !shaped
	r.Key = fmt.Sprint(kinds, o2, len(got.Findings), r.Sync)
	r.Sample = fmt.Sprintf("%v next to %d healthy packages: %d findings, %d errors", kinds, healthyN, len(got.Findings), len(got.Errors))
}
