package check

import (
	"fmt"
	"go/parser"
	"go/token"
	"path/filepath"
	"slices"
	"strings"

	"github.com/securego/gosec/v2/zz_sim/world"
)

func init() {
	register(&Prop{ID: "C02", Run: runC02})
}

// genCase draws a package directory, healthy or failing in one of many ways.
func (r *Run) genCase(i int, healthyOnly bool) *pkgCase {
	c := &pkgCase{name: fmt.Sprintf("p%d", i), mkdir: true, expect: "ok"}
	if (r.Prop.ID == "C02" || r.Prop.ID == "C04") && r.P(1, 4) {
		// Paths which differ only in their beginning.
		c.name = fmt.Sprintf("n%d/%s", i, pick(r, []string{"x", "x/y", "internal/x/y"}))
	}
	kind := 0
	if !healthyOnly && r.FP(3, 5) {
		kinds := 17
		if r.Prop.ID == "C02" {
			kinds++
		}
		kind = 1 + r.F(kinds)
	}
	c.files, c.from = r.goodFiles(c.name)
	c.kind = "ok"
	oneFile := func() string { return "/" + pickF(r, goNames(c.files)) }
	switch kind {
	case 1:
		c.kind, c.expect, c.files, c.mkdir = "missing", "skip", nil, false
	case 2:
		c.kind, c.expect, c.files = "empty", "skip", map[string]string{"README.md": "x"}
	case 3:
		c.kind, c.expect = "only-tests", "skip"
		src, _ := r.genFile("p", 2)
		c.files = map[string]string{"x_test.go": src}
	case 4:
		c.kind, c.expect = "tagged-out", "skip"
		src, _ := r.genFile("p", 2)
		c.files = map[string]string{"x.go": "//go:build never\n\n" + src, "y_windows.go": src}
	case 5:
		c.kind, c.expect = "two-clauses", "error"
		c.files["zz_other.go"] = "package otherclause\n"
	case 6:
		c.kind, c.expect, c.files, c.mkdir, c.asFile = "not-a-directory", "error", nil, false, true
	case 7:
		c.kind, c.expect = "readdir-fault", "error"
		c.faults = []world.FaultRule{{Op: "readdir", Sticky: true, Err: pickF(r, []string{"EIO", "EACCES", "EMFILE"})}}
	case 8, 9:
		c.kind, c.expect = "open-fault", "error"
		c.faults = []world.FaultRule{{Op: "open|read|loadread", Suffix: oneFile(), Sticky: true, Err: pickF(r, []string{"EIO", "EACCES", "EMFILE"})}}
	case 10, 11:
		c.kind, c.expect = "loader-error", "error"
		c.plan = &world.PlanSpec{Err: pickF(r, []string{"err: exit status 2: stderr: go: cannot find main module", "fork/exec /usr/bin/go: resource temporarily unavailable", "context deadline exceeded", "go list: signal: killed", "exit status 1", "x"})}
	case 12:
		c.kind, c.expect = "package-errors", "partial"
		f := oneFile()
		c.plan = &world.PlanSpec{}
		for k := 0; k <= r.F(3); k++ {
			es := world.ErrSpec{Msg: fmt.Sprintf("injected problem %d", r.F(3)), Kind: 1 + r.F(3)}
			switch r.F(4) {
			case 0:
			case 1:
				es.Pos = "-"
			default:
				es.Pos = fmt.Sprintf("%s:%d:%d", strings.TrimPrefix(f, "/"), 1+r.F(3), 1+r.F(2))
			}
			c.plan.Extra = append(c.plan.Extra, es)
		}
	case 13:
		c.kind, c.expect = "vanished-file", "error"
		c.plan = &world.PlanSpec{Remove: []string{strings.TrimPrefix(oneFile(), "/")}}
	case 14:
		c.kind, c.expect = "unreadable-at-load", "partial"
		c.faults = []world.FaultRule{{Op: "loadread", Suffix: oneFile(), Sticky: true, Err: "EIO"}}
	case 15:
		c.kind, c.expect = "type-error", "partial"
		c.files = map[string]string{"a.go": fmt.Sprintf("package a\n\nimport \"os\"\n\nfunc A() {\n\tos.Chdir(\"/\")\n\tvar x int = %q\n\t_ = x\n\tundefined%d()\n}\n", "s", i)}
	case 16:
		c.kind, c.expect = "missing-import", "partial"
		c.files["zz_dep.go"] = "package " + clauseOf(c.files) + "\n\nimport \"example.com/nowhere\"\n\nvar zzDep = nowhere.X\n"
	case 17:
		c.kind, c.expect = "syntax-error", "partial"
		c.files["zz_syntax.go"] = "package " + clauseOf(c.files) + "\n\nfunc ( {\n"
	case 18:
		c.kind, c.expect = "not-examined", "any"
		c.faults = []world.FaultRule{{Op: "stat", Suffix: "", Sticky: r.FP(1, 2), Err: pickF(r, []string{"EIO", "EACCES", "EMFILE"})}}
	}
	if kind > 0 {
		r.Fired["case-"+c.kind]++
	}
	r.Log("path %s: %s (%s), expected %s", c.name, c.kind, c.from, c.expect)
	return c
}

// clauseOf is the name in the package clause of the files.
func clauseOf(fs map[string]string) string {
	for _, k := range goNames(fs) {
		if f, _ := parser.ParseFile(token.NewFileSet(), k, fs[k], parser.PackageClauseOnly); f != nil && f.Name != nil && f.Name.Name != "_" {
			return f.Name.Name
		}
	}
	return "p"
}

// checkAccounting decides whether the lone scan of a case accounts for it.
func (r *Run) checkAccounting(c *pkgCase, o Opts, s *Scan) {
	nerr := 0
	for _, es := range s.Errors {
		nerr += len(es)
	}
	where := fmt.Sprintf("package of kind %q (%s)", c.kind, strings.Join(fileNames(c.files), " "))
	if s.Err != "" {
		r.Fail("scan-aborted", "%s: the scan returned %s", where, s.Err)
	}
	for f := range s.errs {
		if c.expect == "error" && c.kind != "vanished-file" && (!filepath.IsAbs(f) || !strings.Contains(f+"/", "/"+c.name+"/")) {
			r.Fail("misattributed-error", "%s: errors are recorded for %q, which is neither the path nor a file below it", where, f)
		}
	}
	switch c.expect {
	case "ok":
		n := 0
		for _, f := range goNames(c.files) {
			if !(o.ExclGen && isGeneratedSource(c.files[f])) {
				n++
			}
		}
		if nerr > 0 {
			r.Fail("unexpected-error", "%s: errors %v are recorded", where, s.Errors)
		}
		if s.Files != n && !o.Tests {
			r.Fail("not-analysed", "%s: %d files were analysed, want %d", where, s.Files, n)
		}
		for _, f := range sortedKeys(c.files) {
			if o.Tests && strings.HasPrefix(f, "zz_mark") && !slices.ContainsFunc(s.Findings, func(x Finding) bool { return x.File == c.name+"/"+f }) {
				r.Fail("not-analysed", "%s: nothing is found in %s", where, f)
			}
			if strings.HasSuffix(f, "_test.go") || o.ExclGen && isGeneratedSource(c.files[f]) {
				continue
			}
			for _, l := range marksOf(c, f) {
				if !slices.ContainsFunc(s.Findings, func(x Finding) bool {
					lo, hi := lineRange(x.Line)
					return x.File == c.name+"/"+f && lo <= l && l <= hi
				}) {
					r.Fail("not-analysed", "%s: nothing is found at line %d of %s:\n%s", where, l, f, c.files[f])
				}
			}
		}
	case "skip":
		if c.kind == "only-tests" && o.Tests {
			return
		}
		if nerr > 0 || s.Files > 0 || len(s.Findings) > 0 {
			r.Fail("not-skipped", "%s: errors %v, %d files, %d findings", where, s.Errors, s.Files, len(s.Findings))
		}
	case "error":
		if nerr == 0 {
			r.Fail("silent-loss", "%s: nothing is recorded for it (%d files analysed)", where, s.Files)
		}
		if s.Files > 0 {
			r.Fail("half-analysed", "%s: failed, but %d files count as analysed", where, s.Files)
		}
	case "any":
		if nerr == 0 && s.Files == 0 {
			r.Fail("silent-loss", "%s: neither an error is recorded for it nor are its files analysed", where)
		}
	case "partial":
		if nerr == 0 {
			r.Fail("silent-loss", "%s: no error is recorded for it (%d files analysed)", where, s.Files)
		}
		if c.plan == nil {
			return
		}
		for _, es := range c.plan.Extra {
			want := "0:0 " + es.Msg
			if f := strings.Split(es.Pos, ":"); len(f) == 3 {
				want = f[1] + ":" + f[2] + " " + es.Msg
			}
			found := false
			for _, l := range s.Errors {
				found = found || slices.Contains(l, want)
			}
			if !found {
				r.Fail("lost-error", "%s: the loader's error %q at %q is not recorded: %v", where, es.Msg, es.Pos, s.Errors)
			}
		}
	}
}

// marksOf are the lines of a generated file which a rule reports.
func marksOf(c *pkgCase, f string) []int {
	if c.from != "generated" {
		return nil
	}
	return marks(c.files[f])
}

func isGeneratedSource(src string) bool {
	return strings.Contains(src, "// Code generated ") && strings.Contains(src, " DO NOT EDIT.")
}

func runC02(r *Run) {
	n := 1 + r.Int(6)
	o := Opts{Conc: 1, Track: r.P(1, 5), ExclGen: r.P(1, 6), ShowIgnored: r.P(1, 8), Tests: r.P(1, 10)}
	var cs []*pkgCase
	for i := 0; i < n; i++ {
		c := r.genCase(i, false)
		if o.Tests && c.expect == "ok" {
			for k := r.Int(4); k > 0; k-- {
				ext := pick(r, []string{"", "_test"})
				c.files[fmt.Sprintf("zz_mark%d_test.go", k)] = fmt.Sprintf("package %s%s\n\nimport \"os\"\n\nfunc zzMark%d() {\n\tos.Chdir(\"/\")\n}\n", clauseOf(c.files), ext, k)
			}
		}
		cs = append(cs, c)
	}
	var parts []*Scan
	failing := 0
	for _, c := range cs {
		root, paths := r.fresh([]*pkgCase{c})
		r.install(root, []*pkgCase{c}, false)
		var s *Scan
		r.Ref("scan of "+c.name+" alone", func() { s = DoScan(root, o, paths) })
		r.checkAccounting(c, o, s)
		parts = append(parts, s)
		if c.expect != "ok" {
			failing++
		}
	}
	if r.P(1, 50) {
		var one *Scan // of the first which has a file, the others are the same
		for _, c := range r.crowd() {
			cs = append(cs, c)
			if c.kind != "ok" {
				continue
			}
			if one == nil {
				root, paths := r.fresh([]*pkgCase{c})
				r.install(root, []*pkgCase{c}, false)
				r.Ref("scan of "+c.name+" alone", func() { one = DoScan(root, o, paths) })
				r.checkAccounting(c, o, one)
			}
			s := *one
			s.Findings = nil
			for _, f := range one.Findings {
				f.File = c.name + "/a.go"
				s.Findings = append(s.Findings, f)
			}
			parts = append(parts, &s)
		}
	}
	shuffle(r, cs)
	root, paths := r.fresh(cs)
	r.install(root, cs, true)
	o2 := o
	o2.Conc = 1 + r.Int(6)
	var got *Scan
	r.Sim(fmt.Sprintf("scan of all with concurrency %d", o2.Conc), r.SimCfg(), func() { got = DoScan(root, o2, paths) })
	if got.Err != "" {
		r.Fail("scan-aborted", "the scan returned %s", got.Err)
	}
	r.sameSum("not-accounted", "the scan of all paths", got, "the scans of each path alone", parts)
	r.Trivial = failing == 0 || failing == n
	var kinds []string
	for _, c := range cs {
		if c.name[0] != 'q' {
			kinds = append(kinds, c.kind)
		}
	}
	if len(kinds) < len(cs) {
		kinds = append(kinds, fmt.Sprintf("%d more", len(cs)-len(kinds)))
	}
	r.Key = fmt.Sprint(kinds, o2, r.Sync)
	r.Sample = fmt.Sprintf("paths %v with concurrency %d: %s, errors %d", kinds, o2.Conc, metricsString(got), len(got.Errors))
}
