package check

import (
	"fmt"
	"strings"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/zz_sim/world"
)

func init() {
	register(&Prop{ID: "C15", Run: runC15})
}

// segStep is one scan of a history.
type segStep struct {
	cs    []*pkgCase
	fatal bool
}

func runC15(r *Run) {
	o := r.ScanOpts()
	o.Tests = r.P(1, 8)
	o.Config = r.RuleConfig()
	r.oldGo()
	nseg := 1 + r.Int(4)
	lg, _ := NewLogger()
	var a *gosec.Analyzer
	var trace []string
	found := 0
	// every package of a history has its own name, some appear again
	var pool []*pkgCase
	newCase := func() *pkgCase {
		if len(pool) > 0 && r.P(1, 3) {
			c := *pick(r, pool)
			if len(c.files) > 0 && r.P(1, 2) {
				// edited since the last scan
				c.files = copyFiles(c.files)
				f := pick(r, fileNames(c.files))
				src := c.files[f]
				switch r.Int(5) {
				case 0:
					src = strings.NewReplacer("#nosec", "# nothing", "gosec:disable", "gosec:nothing").Replace(src)
				case 1:
					src = "// one line more\n" + src
				case 2:
					src = "// Code generated by x. DO NOT EDIT.\n\n" + src
				case 3:
					src = strings.ReplaceAll(src, "os.Chdir(\"/\")", "os.Chdir(\"/\") // #nosec G104 -- edited")
				case 4:
					src = strings.ReplaceAll(src, "os.Chdir(\"/\")", "os.Chdir(\"/\") // #falsepositive")
				}
				c.files[f] = src
				r.Probe("edited-between-scans")
			}
			return &c
		}
		c := r.genCase(len(pool), false)
		if r.P(1, 5) {
			c = r.brokenCase(c.name)
		}
		if c.kind == "ok" && r.P(1, 3) {
			it := r.pickStateful(1)[0]
			if world.Compiles(it.Files) {
				c.files = copyFiles(it.Files)
			}
		}
		pool = append(pool, c)
		return c
	}
	conc := func(o Opts, fatal bool) Opts {
		o.Conc = 1
		if !fatal {
			o.Conc += r.Int(4)
		}
		return o
	}
	scan := func(an *gosec.Analyzer, st segStep) func() error {
		root, paths := r.fresh(st.cs)
		_ = root
		return func() error { return an.Process(o.Tags, paths...) }
	}
	root := r.Dir + "/w"
	type kept struct {
		s    *Scan
		text string
		seg  int
	}
	var earlier []kept
	for g := 0; g < nseg; g++ {
		so := o
		nscan := 1 + r.Int(3)
		var steps []segStep
		segFatal := false
		for k := 0; k < nscan; k++ {
			var st segStep
			for i := 0; i < 1+r.Int(3); i++ {
				c := newCase()
				dup := false
				for _, x := range st.cs {
					dup = dup || x.name == c.name
				}
				if !dup {
					st.cs = append(st.cs, c)
				}
			}
			if r.FP(1, 6) {
				c := pickF(r, st.cs)
				if c.kind == "ok" && c.plan == nil {
					cc := *c
					cc.kind = "fatal"
					cc.plan = &world.PlanSpec{Extra: []world.ErrSpec{{Pos: pickF(r, []string{"a.go:x", "a.go:1:y"}), Msg: "uninterpretable", Kind: 2}}}
					for i := range st.cs {
						if st.cs[i] == c {
							st.cs[i] = &cc
						}
					}
					st.fatal, segFatal = true, true
					r.Fired["case-uninterpretable-error"]++
				}
			}
			steps = append(steps, st)
		}
		so = conc(so, segFatal)
		if g == 0 {
			r.Ref("new analyzer", func() { a = so.New(lg) })
		} else {
			if r.P(1, 3) { // other rule settings from here on
				so.Config = r.RuleConfig()
				o.Config = so.Config
			}
			if r.P(1, 3) {
				so.AltTag = pick(r, []string{"", "falsepositive"})
				o.AltTag = so.AltTag
			}
			if r.P(1, 3) {
				x := r.ScanOpts()
				so.Include, so.Exclude = x.Include, x.Exclude
				o.Include, o.Exclude = x.Include, x.Exclude
			}
			r.Sim("reset", r.SimCfg(), func() {
				a.Reset()
				if r.P(1, 8) {
					a.Reset()
				}
				a.SetConfig(so.Conf())
				so.Arm(a)
			})
			for _, k := range earlier {
				if t := dumpScan(k.s); t != k.text {
					r.Fail("old-results-changed", "the results reported before the reset changed: %s", diffBytes("before", []byte(k.text), "after", []byte(t)))
				}
			}
		}
		var desc []string
		for _, st := range steps {
			var ks []string
			for _, c := range st.cs {
				ks = append(ks, c.name+":"+c.kind)
			}
			desc = append(desc, "["+strings.Join(ks, " ")+"]")
		}
		trace = append(trace, strings.Join(desc, " "))
		history := fmt.Sprintf("history %s with %v", strings.Join(trace, " reset "), so)
		// the history continues
		concurrency := so.Conc
		if g > 0 {
			concurrency = 1 // that of the analyzer is what it was created with
		}
		_ = concurrency
		var errs []string
		for _, st := range steps {
			f := scan(a, st)
			r.install(root, st.cs, true)
			var err error
			r.Sim("scan of "+history, r.SimCfg(), func() { err = f() })
			if (err != nil) != st.fatal {
				r.Fail("fatal-error", "%s: the scan returned %v", history, err)
			}
			errs = append(errs, fmt.Sprint(err))
		}
		got := Collect(root, a)
		if segFatal {
			r.Probe("aborted-scan")
			// which packages were scanned before the abort depends on the schedule,
			// but not what is known of each of them
		}
		// the same scans on a new analyzer
		var b *gosec.Analyzer
		lg2, _ := NewLogger()
		bo := so
		bo.Conc = 1
		var parts []*Scan
		r.Ref("new analyzer", func() { b = bo.New(lg2) })
		for _, st := range steps {
			f := scan(b, st)
			r.install(root, st.cs, false)
			r.Ref("the same scan on a new analyzer", func() { f() })
			var c *gosec.Analyzer
			r.Ref("new analyzer", func() { c = bo.New(lg2) })
			f = scan(c, st)
			r.install(root, st.cs, false)
			r.Ref("the same scan alone", func() { f() })
			parts = append(parts, Collect(root, c))
		}
		want := Collect(root, b)
		if !segFatal {
			r.sameScan("differs-from-new", "a new analyzer", want, history, got)
			r.sameSum("not-the-sum", history, got, "the scans alone", parts)
		} else {
			r.sameSum("not-the-sum", "a new analyzer", want, "the scans alone", parts)
			r.part(history, got, want, steps, so, scan)
		}
		found += len(got.Findings)
		earlier = append(earlier, kept{got, dumpScan(got), g})
		r.Probe(fmt.Sprintf("segments-%d", g+1))
	}
	r.Key = fmt.Sprint(trace, o, r.Sync)
	r.Trivial = found == 0
	r.Sample = fmt.Sprintf("%s with %v: %d findings", strings.Join(trace, " reset "), o, found)
}

// part decides the results of a history with aborted scans: they lie between
// nothing and everything, and the findings are those of the packages alone.
func (r *Run) part(history string, got, want *Scan, steps []segStep, o Opts, scan func(*gosec.Analyzer, segStep) func() error) {
	most := map[string]int{}
	root := r.Dir + "/w"
	o.Conc = 1
	for _, st := range steps {
		for _, c := range st.cs {
			one := segStep{cs: []*pkgCase{c}}
			var b *gosec.Analyzer
			lg, _ := NewLogger()
			r.Ref("new analyzer", func() { b = o.New(lg) })
			f := scan(b, one)
			r.install(root, one.cs, false)
			r.Ref("scan of one package", func() { f() })
			for k, v := range multiset(Collect(root, b).Findings, Finding.WithSupp) {
				most[k] += v
			}
		}
	}
	for k, v := range multiset(got.Findings, Finding.WithSupp) {
		if v > most[k] {
			r.Fail("differs-from-new", "%s: %d× the finding %s, new analyzers find it %d×", history, v, k, most[k])
		}
	}
}

// dumpScan is a picture of the raw results of an analyzer.
func dumpScan(s *Scan) string {
	ri := gosec.NewReportInfo(s.raw, s.metrics, s.errs)
	return dump(ri)
}
