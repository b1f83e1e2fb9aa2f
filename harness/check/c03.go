package check

import (
	"fmt"
	"go/build/constraint"
	"path/filepath"
	"sort"
	"strings"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/zz_sim/world"
)

func init() {
	register(&Prop{ID: "C03", Run: runC03})
}

var tagPool = []string{"alpha", "beta", "gamma", "delta", "integration_2", "E2E", "v1.2"}

// genExpr draws a build constraint.
func (r *Run) genExpr(depth int) string {
	switch k := r.Int(7); {
	case depth > 0 && k == 4:
		return "(" + r.genExpr(depth-1) + " && " + r.genExpr(depth-1) + ")"
	case depth > 0 && k == 5:
		return "(" + r.genExpr(depth-1) + " || " + r.genExpr(depth-1) + ")"
	case k == 6:
		return "!" + pick(r, tagPool)
	case k == 3:
		return pick(r, []string{"linux", "!windows", "gc", "go1.18", "ignore"})
	}
	return pick(r, tagPool)
}

// named decides the constraint in the name of a file.
func named(f string, tags []string) bool {
	ok := func(x string) bool { return x == "linux" || x == "amd64" || contains(tags, x) }
	isOS := func(x string) bool { return x == "windows" || x == "linux" || x == "js" }
	isArch := func(x string) bool { return x == "amd64" || x == "arm64" || x == "wasm" }
	l := strings.Split(strings.TrimSuffix(strings.TrimSuffix(f, ".go"), "_test"), "_")[1:]
	n := len(l)
	switch {
	case n >= 2 && isOS(l[n-2]) && isArch(l[n-1]):
		return ok(l[n-2]) && ok(l[n-1])
	case n >= 1 && (isOS(l[n-1]) || isArch(l[n-1])):
		return ok(l[n-1])
	}
	return true
}

func selected(expr string, tags []string) bool {
	if expr == "" {
		return true
	}
	e, err := constraint.Parse("//go:build " + expr)
	if err != nil {
		world.HarnessFail("constraint %q: %v", expr, err)
	}
	return e.Eval(func(t string) bool {
		switch t {
		case "linux", "gc", "go1.18", "amd64", "unix":
			return true
		}
		for _, x := range tags {
			if x == t {
				return true
			}
		}
		return false
	})
}

type taggedPkg struct {
	name  string
	files map[string]string
	exprs map[string]string
}

// expected builds the packages that remain when the constraints are decided by
// the model; the constraint lines are blanked in place.
func (p *taggedPkg) expected(tags []string) *pkgCase {
	c := &pkgCase{name: p.name, files: map[string]string{}, mkdir: true}
	for f, src := range p.files {
		if selected(p.exprs[f], tags) && named(f, tags) {
			if e := p.exprs[f]; e != "" {
				src = strings.Replace(src, "//go:build "+e, "//xgo:buil "+e, 1)
			}
			c.files[f] = src
		}
	}
	return c
}

func flagTags(flags []string) []string {
	var out []string
	for i, f := range flags {
		v := ""
		switch {
		case strings.HasPrefix(f, "-tags="):
			v = strings.TrimPrefix(f, "-tags=")
		case strings.HasPrefix(f, "--tags="):
			v = strings.TrimPrefix(f, "--tags=")
		case (f == "-tags" || f == "--tags") && i+1 < len(flags):
			v = flags[i+1]
		}
		for _, t := range strings.FieldsFunc(v, func(c rune) bool { return c == ',' || c == ' ' || c == '"' || c == '\'' }) {
			out = append(out, t)
		}
	}
	sort.Strings(out)
	return out
}

// strip restores the constraint lines in the code snippets, which the model
// blanks.
func strip(s *Scan) *Scan {
	for i := range s.Findings {
		s.Findings[i].Code = strings.ReplaceAll(s.Findings[i].Code, "//xgo:buil ", "//go:build ")
	}
	return s
}

// c03CLI gives the tags to the command.
func (r *Run) c03CLI(ps []*taggedPkg, cs []*pkgCase, tags []string) {
	o := CLIOpts{Opts: Opts{Conc: 1 + r.Int(5), Tags: tags, Tests: r.P(1, 5)}, Format: "json", NoFail: true}
	var ex []*pkgCase
	var dirs []string
	for _, p := range ps {
		ex = append(ex, p.expected(tags))
	}
	t := r.newTree(ex)
	for _, c := range ex {
		dirs = append(dirs, filepath.Join(t.root, c.name))
	}
	ro := o
	ro.Tags = nil
	want := strip(r.refScan(t, ro, dirs))
	t = r.newTree(cs)
	o.Paths = t.dirs()
	if r.P(1, 2) {
		o.Paths = []string{"./..."}
	}
	got := r.CLI("gosec", r.spec(t, o, true), false)
	args := strings.Join(o.Args(), " ")
	if got.Code != 0 {
		r.Fail("tags-not-applied", "gosec %s: status %d, %s", args, got.Code, firstN(string(got.Stderr), 800))
	}
	j, fs, err := parseJSON(t.root, got.Stdout)
	if err != nil {
		r.Fail("tags-not-applied", "gosec %s: %v", args, err)
	}
	if d := diffSets("the model for the tags", multiset(want.Findings, Finding.Full), "the report", multiset(fs, Finding.Full)); d != "" {
		r.Fail("tags-not-applied", "gosec %s: the findings differ:%s", args, d)
	}
	if j.Stats.Files != want.Files {
		r.Fail("tags-not-applied", "gosec %s: %d files were analysed, the tags select %d", args, j.Stats.Files, want.Files)
	}
	if got.Trailer != nil {
		for _, rec := range got.Trailer.Loads {
			if fmt.Sprint(flagTags(rec.Flags)) != fmt.Sprint(sortedCopy(tags)) {
				r.Fail("load-without-tags", "gosec %s loaded %s with flags %q", args, relTo(t.root, rec.Dir), rec.Flags)
			}
		}
	}
	r.Key = fmt.Sprint(args, len(ps), r.Sync)
	r.Trivial = len(tags) == 0
	r.Sample = fmt.Sprintf("gosec %s: %d files, %d findings", args, want.Files, len(want.Findings))
}

func runC03(r *Run) {
	n := 1 + r.Int(5)
	var tags []string
	for _, t := range tagPool {
		if r.P(1, 2) {
			tags = append(tags, t)
		}
	}
	shuffle(r, tags)
	var ps []*taggedPkg
	var cs []*pkgCase
	for i := 0; i < n; i++ {
		p := r.taggedCase(fmt.Sprintf("p%d", i))
		ps = append(ps, p)
		cs = append(cs, &pkgCase{name: p.name, files: p.files, mkdir: true})
	}
	r.Log("tags %v", tags)
	tagSets := [][]string{tags}
	// a scan without tags, or with other tags, follows or runs in the same analyzer
	follow := r.Int(3)
	if follow > 0 {
		tagSets = append(tagSets, nil)
	}
	if follow == 2 {
		tagSets = append(tagSets, []string{pick(r, tagPool)})
	}
	o := Opts{Conc: 1, Tests: r.P(1, 5)}
	if r.P(1, 8) {
		r.c03CLI(ps, cs, tags)
		return
	}
	scanned := func(fs map[string]string) []string {
		if o.Tests {
			return allGo(fs)
		}
		return goNames(fs)
	}
	var want []*Scan
	for _, ts := range tagSets {
		var ex []*pkgCase
		for _, p := range ps {
			ex = append(ex, p.expected(ts))
		}
		root, paths := r.fresh(ex)
		r.install(root, ex, false)
		var s *Scan
		r.Ref("scan of the packages the model selects", func() { s = DoScan(root, o, paths) })
		want = append(want, strip(s))
	}
	root, paths := r.fresh(cs)
	ld := r.install(root, cs, true)
	o2 := o
	o2.Conc = 1 + r.Int(5)
	same := r.P(1, 2)
	var got []*Scan
	var cuts []int
	r.Sim(fmt.Sprintf("scans with concurrency %d (one analyzer: %v)", o2.Conc, same), r.SimCfg(), func() {
		lg, _ := NewLogger()
		var a *gosec.Analyzer
		for _, ts := range tagSets {
			if a == nil || !same {
				a = o2.New(lg)
			} else {
				a.Reset()
				o2.Arm(a)
			}
			err := a.Process(append([]string(nil), ts...), paths...)
			s := Collect(root, a)
			if err != nil {
				s.Err = err.Error()
			}
			got = append(got, strip(s))
			cuts = append(cuts, len(ld.Recs))
		}
	})
	from := 0
	for k, ts := range tagSets {
		r.sameScan("tags-not-applied", fmt.Sprintf("the model for tags %v", ts), want[k], fmt.Sprintf("scan %d with tags %v", k, ts), got[k])
		loadedDirs := map[string]bool{}
		for _, rec := range ld.Recs[from:cuts[k]] {
			sorted := sortedCopy(ts)
			if fmt.Sprint(flagTags(rec.Flags)) != fmt.Sprint(sorted) {
				r.Fail("load-without-tags", "scan %d with tags %v loaded %s with flags %q", k, ts, relTo(root, rec.Dir), rec.Flags)
			}
			loadedDirs[filepath.Base(rec.Dir)] = true
			var files []string
			for _, f := range rec.Files {
				files = append(files, filepath.Base(f))
			}
			sort.Strings(files)
			var exp []string
			for _, p := range ps {
				if p.name == filepath.Base(rec.Dir) {
					exp = scanned(p.expected(ts).files)
				}
			}
			if fmt.Sprint(files) != fmt.Sprint(exp) {
				r.Fail("wrong-files", "scan %d with tags %v loaded files %v of %s, the constraints select %v", k, ts, files, relTo(root, rec.Dir), exp)
			}
		}
		from = cuts[k]
	}
	r.Key = fmt.Sprint(n, tagSets, o2.Conc, same, r.Sync)
	r.Trivial = n < 2 || len(tags) == 0
	r.Sample = fmt.Sprintf("%d packages, tag sets %v, concurrency %d: %s", n, tagSets, o2.Conc, metricsString(got[0]))
}
