package check

import (
	"fmt"
	"strings"

	"github.com/securego/gosec/v2/zz_sim/world"
	zz "github.com/securego/gosec/v2/zz_simrt"
)

func init() {
	register(&Prop{ID: "C01", Race: true, Run: runC01,
		Rule: "a run counts when at least two packages were loaded by at least two workers; distinct by package set, options and the order of synchronisation operations"})
}

// delays draws load latencies so that loads finish in arbitrary order.
func (r *Run) delays(dirs []string) []*world.PlanSpec {
	var out []*world.PlanSpec
	for _, d := range dirs {
		p := &world.PlanSpec{Dir: base(d)}
		if r.FP(2, 3) {
			p.DelayMS = 1 + r.F(200)
		}
		out = append(out, p)
	}
	return out
}

func base(p string) string { return p[strings.LastIndex(p, "/")+1:] }

// taggedCase draws a package whose files have build constraints.
func (r *Run) taggedCase(name string) *taggedPkg {
	p := &taggedPkg{name: name, files: map[string]string{}, exprs: map[string]string{}}
	for k := 0; k <= r.Int(4); k++ {
		src, _ := r.genFile("p", 1+r.Int(2))
		f := fmt.Sprintf("f%d.go", k)
		if r.P(1, 6) {
			// constrained by its name
			f = fmt.Sprintf("f%d%s.go", k, pick(r, []string{"_windows", "_linux", "_amd64", "_linux_arm64", "_linux_amd64", "_alpha", "_js_wasm"}))
		}
		if r.P(1, 8) {
			f = strings.TrimSuffix(f, ".go") + "_test.go"
		}
		if r.P(3, 4) {
			p.exprs[f] = r.genExpr(1)
			src = "//go:build " + p.exprs[f] + "\n\n" + src
		}
		p.files[f] = src
	}
	r.Log("package %s: constraints %v", p.name, p.exprs)
	return p
}

// mixedCases draws packages of all kinds: from the corpus, generated, reshaped,
// constrained, incomplete and failing.
func (r *Run) mixedCases(n int) ([]*pkgCase, []string) {
	var cs []*pkgCase
	var tags []string
	if r.P(1, 3) {
		for _, t := range tagPool {
			if r.P(1, 2) {
				tags = append(tags, t)
			}
		}
		shuffle(r, tags)
	}
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("p%d", i)
		switch k := r.Int(9); {
		case k == 0 || (len(tags) > 0 && k < 4):
			t := r.taggedCase(name)
			cs = append(cs, &pkgCase{name: name, files: t.files, mkdir: true, kind: "tagged"})
		case k == 8:
			cs = append(cs, r.directiveCase(name))
		case k == 4 || k == 5:
			cs = append(cs, r.brokenCase(name))
		default:
			cs = append(cs, r.genCase(i, false))
		}
	}
	return cs, tags
}

// stable reports whether loading the package leaves its directory as it was.
func (c *pkgCase) stable() bool {
	return c.plan == nil || len(c.plan.Remove)+len(c.plan.RemoveAft) == 0
}

func kinds(cs []*pkgCase) []string {
	var out []string
	for _, c := range cs {
		out = append(out, c.kind)
	}
	return out
}

func runC01(r *Run) {
	n := 1 + r.Int(6)
	if r.P(1, 10) {
		n += 6
	}
	o := r.ScanOpts()
	o.Tests = r.P(1, 6)
	r.oldGo()
	o.Conc = 1
	o2 := o
	var what string
	var ref *Scan
	var setup func(delay bool) (string, []string)
	if r.P(1, 2) {
		items := r.PickItems(n)
		what = fmt.Sprint(names(items))
		setup = func(delay bool) (string, []string) {
			var paths []string
			for _, it := range items {
				paths = append(paths, r.PoolDir(it))
			}
			if delay {
				r.World(r.delays(paths))
			} else {
				r.World(nil)
			}
			return r.Scratch + "/pool", paths
		}
	} else {
		var cs []*pkgCase
		cs, o.Tags = r.mixedCases(n)
		o2.Tags = o.Tags
		what = fmt.Sprint(kinds(cs))
		var again []int
		for r.P(1, 6) {
			if k := r.Int(n); cs[k].stable() {
				again = append(again, k)
			}
		}
		setup = func(delay bool) (string, []string) {
			root, paths := r.fresh(cs)
			r.install(root, cs, delay)
			for _, k := range again {
				paths = append(paths, paths[k])
			}
			return root, paths
		}
	}
	r.Log("packages %s, options %v", what, o)
	root, paths := setup(false)
	r.Ref("reference scan", func() { ref = DoScan(root, o, paths) })

	concs := []int{1, 2, 3, 4, 8, 5, 7, 12}
	o2.Conc = concs[r.Int(len(concs))]
	cfg := r.SimCfg()
	var got *Scan
	reps := 1
	if r.P(1, 5) {
		reps = 2
	}
	for k := 0; k < reps; k++ {
		// the finishing order is decided by latencies and scheduling; the list stays
		root, paths = setup(true)
		r.Sim(fmt.Sprintf("scan with concurrency %d", o2.Conc), cfg, func() { got = DoScan(root, o2, paths) })
		r.sameScan("outcome-differs", "the reference scan (concurrency 1)", ref, fmt.Sprintf("the simulated scan (concurrency %d)", o2.Conc), got)
	}
	r.Key = fmt.Sprint(what, o2, r.Sync)
	r.Trivial = n < 2 || o2.Conc < 2
	if len(ref.Findings) > 0 {
		r.Probe("findings")
	}
	if len(ref.Errors) > 0 {
		r.Probe("source-errors")
	}
	r.Sample = fmt.Sprintf("packages %s, %v: %d findings, %s", what, o2, len(got.Findings), metricsString(got))
}

// oldGo sometimes selects a Go version for which version-dependent rules apply.
func (r *Run) oldGo() {
	if r.P(1, 4) {
		zz.W.Env["GOSECGOVERSION"] = "go1.20"
		r.Probe("old-go-version")
	}
}
