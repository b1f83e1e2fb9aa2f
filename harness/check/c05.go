package check

import (
	"fmt"
	"strings"

	"github.com/securego/gosec/v2/zz_sim/world"
)

func init() {
	register(&Prop{ID: "C05", Run: runC05, Race: true})
}

// runC05Growth scans packages in which some construction grows far.
func runC05Growth(r *Run) {
	o := Opts{Conc: 1 + r.Int(4), Track: r.P(1, 6)}
	n := 1 + r.Int(3)
	var cs []*pkgCase
	var kinds []string
	for i := 0; i < n; i++ {
		c := &pkgCase{name: fmt.Sprintf("p%d", i), mkdir: true}
		c.files, c.kind = r.stressPkg()
		if r.P(1, 4) {
			var how []string
			c.files, how = r.reshape(c.files, 1+r.Int(3), true)
			c.kind += "; " + strings.Join(how, "; ")
		}
		if world.Compiles(c.files) {
			r.Probe("growth-compiles")
		} else {
			r.Probe("growth-ill-typed")
		}
		if r.Verbose {
			r.Log("--- %s (%s)\n%s", c.name, c.kind, c.files["a.go"])
		}
		cs = append(cs, c)
		kinds = append(kinds, c.kind)
	}
	root, paths := r.fresh(cs)
	r.install(root, cs, true)
	var got *Scan
	r.Sim(fmt.Sprintf("scan of %v with concurrency %d", kinds, o.Conc), r.SimCfg(), func() { got = DoScan(root, o, paths) })
	if got.Err != "" {
		r.Fail("fatal-error", "the scan of %v returned %s", kinds, got.Err)
	}
	r.Key = fmt.Sprint(kinds, o.Conc, r.Sync)
	r.Sample = fmt.Sprintf("%v, concurrency %d: %d findings, %d errors", kinds, o.Conc, len(got.Findings), len(got.Errors))
}

func runC05(r *Run) {
	if r.P(1, 4) {
		runC05Growth(r)
		return
	}
	n := r.Int(8)
	o := Opts{Conc: 1 + r.Int(8), Track: r.P(1, 6), Tests: r.P(1, 10)}
	if r.P(1, 10) {
		o.Conc = 20 + r.Int(40)
	}
	o.Include = []string{"G104", "G304", "G401", "G602"}
	var cs []*pkgCase
	fatal := -1
	nf := 0
	for i := 0; i < n; i++ {
		c := r.genCase(i, false)
		if r.FP(1, 4) && len(goNames(c.files)) > 0 && (c.kind == "ok" || c.kind == "type-error") {
			pos := pickF(r, []string{"a.go:x", "a.go:1:y", "C:\\a.go:1:1", "a.go:12x:3", "a.go:1:", "go.mod: bad", "99999999999999999999.go:99999999999999999999"})
			c.plan = &world.PlanSpec{Extra: []world.ErrSpec{{Pos: pos, Msg: "uninterpretable", Kind: 2}}}
			c.kind = "fatal"
			r.Fired["case-uninterpretable-error"]++
			fatal = i
			nf++
		}
		if c.kind == "ok" && r.FP(1, 12) {
			c.plan, c.kind = &world.PlanSpec{NoResult: true}, "no-result"
			r.Fired["case-no-result"]++
		}
		cs = append(cs, c)
	}
	if r.P(1, 60) {
		cs = append(cs, r.crowd()...)
		shuffle(r, cs)
	}
	root, paths := r.fresh(cs)
	ld := r.install(root, cs, true)
	cfg := r.SimCfg()
	if r.P(1, 2) {
		cfg.RootFirst = true
		cfg.RunLen = 0
	}
	var got *Scan
	var busy []string
	loads := 0
	r.Sim(fmt.Sprintf("scan of %d packages with concurrency %d", len(cs), o.Conc), cfg, func() {
		got = DoScan(root, o, paths)
		busy, loads = ld.Busy(), len(ld.Recs)
	})
	if len(busy) > 0 {
		r.Fail("loads-left-behind", "the scan returned %q while the loads of %d packages were in progress: %v", got.Err, len(busy), relAll(root, busy))
	}
	if len(ld.Recs) > loads {
		r.Fail("loads-left-behind", "%d packages were loaded after the scan had returned %q", len(ld.Recs)-loads, got.Err)
	}
	if (got.Err != "") != (fatal >= 0) {
		r.Fail("fatal-error", "%d packages have errors which cannot be interpreted, the scan returned %q", nf, got.Err)
	}
	if fatal >= 0 {
		r.Probe("fatal-error")
		if cfg.RootFirst {
			// the collector acts as soon as it can: bound the loads that follow
			var first *world.LoadRec
			for _, rec := range ld.Recs {
				for _, c := range cs {
					if c.kind == "fatal" && c.name == base(rec.Dir) && (first == nil || rec.End < first.End) {
						first = rec
					}
				}
			}
			after := map[int]int{}
			total := 0
			for _, rec := range ld.Recs {
				if rec.Start > first.End {
					after[rec.G]++
					total++
				}
			}
			for g, k := range after {
				if k > 1 {
					r.Fail("late-stop", "goroutine %d started %d package loads after the fatal error was found (in %s)", g, k, relTo(root, first.Dir))
				}
			}
			if total > 0 {
				r.Probe("load-after-fatal-error")
			}
		}
	} else {
		// every package that can be loaded was
		for _, c := range cs {
			if c.kind == "ok" && len(goNames(c.files)) > 0 {
				seen := 0
				for _, rec := range ld.Recs {
					if base(rec.Dir) == c.name {
						seen++
					}
				}
				if seen != 1 {
					r.Fail("not-loaded-once", "package %s was loaded %d times", c.name, seen)
				}
			}
		}
	}
	var kinds []string
	for _, c := range cs {
		if c.name[0] != 'q' {
			kinds = append(kinds, c.kind)
		}
	}
	if len(kinds) < len(cs) {
		kinds = append(kinds, fmt.Sprintf("%d more", len(cs)-len(kinds)))
	}
	r.Key = fmt.Sprint(kinds, o.Conc, cfg.RootFirst, r.Sync)
	r.Trivial = n == 0
	r.Sample = fmt.Sprintf("[%s], concurrency %d: returned %q", strings.Join(kinds, " "), o.Conc, got.Err)
}
