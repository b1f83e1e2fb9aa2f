package check

import (
	"fmt"
	"strings"

	"github.com/securego/gosec/v2"
	zz "github.com/securego/gosec/v2/zz_simrt"
)

func init() {
	register(&Prop{ID: "C14", Race: true, Run: runC14})
}

// ruleConfigs are settings of single rules.
var ruleConfigs = []string{
	`"G101":{"pattern":"(?i)token|key|zz"}`, `"G101":{"ignore_entropy":true}`, `"G101":{"entropy_threshold":"10.0","per_char_threshold":"1.0","truncate":"4"}`,
	`"G104":{"os":["Chdir","Setenv"]}`, `"G104":{"io/ioutil":["WriteFile"],"fmt":["Println"]}`, `"G104":{"Buffer":["Read"],"os":"Chdir"}`,
	`"G111":{"pattern":"http\\.Dir\\(\"/x\"\\)"}`, `"G301":"0700"`, `"G302":"0777"`, `"G306":"0644"`, `"G307":"0600"`, `"G306":"0777"`,
}

// RuleConfig draws a configuration text with settings of rules.
func (r *Run) RuleConfig() string {
	var parts []string
	seen := map[string]bool{}
	for k := 0; k < r.Int(5); k++ {
		c := pick(r, ruleConfigs)
		id := c[:6]
		if !seen[id] {
			seen[id] = true
			parts = append(parts, c)
		}
	}
	if len(parts) == 0 {
		return ""
	}
	return "{" + strings.Join(parts, ",") + "}"
}

func runC14(r *Run) {
	type job struct {
		o     Opts
		idx   []int
		paths []string
		got   *Scan
	}
	type rep struct {
		format string
		color  bool
		ri     *gosec.ReportInfo
		roots  []string
		got    []byte
		err    error
	}
	r.oldGo()
	n := 2 + r.Int(2)
	var jobs []*job
	var w *workset
	m := 2 + r.Int(3)
	pool := r.P(2, 3)
	if pool {
		w = r.pooledSet(r.pickStateful(m))
	} else {
		cs := r.statefulCases(m)
		for _, c := range cs {
			if !c.stable() {
				c.plan.Remove, c.plan.RemoveAft = nil, nil // analyzers may share packages
			}
		}
		w = r.caseSet(cs)
	}
	root, paths := w.setup(true)
	for i := 0; i < n; i++ {
		j := &job{o: r.ScanOpts()}
		j.o.Config = r.RuleConfig()
		j.o.Conc = 1 + r.Int(3)
		for k := 0; k < 1+r.Int(2); k++ {
			if x := r.Int(m); !containsInt(j.idx, x) {
				j.idx = append(j.idx, x)
				j.paths = append(j.paths, paths[x])
			}
		}
		jobs = append(jobs, j)
	}
	var reps []*rep
	var shared *gosec.ReportInfo
	for k := 0; k < r.Int(4); k++ {
		p := &rep{format: pick(r, formats), color: r.P(1, 4)}
		if shared != nil && r.P(1, 2) {
			p.ri, p.roots = shared, reps[0].roots
			r.Probe("shared-findings")
		} else {
			p.ri, p.roots = r.genReport(6)
		}
		if shared == nil {
			shared = p.ri
		}
		reps = append(reps, p)
	}
	var desc []string
	for _, j := range jobs {
		var of []string
		for _, x := range j.idx {
			of = append(of, w.desc[x])
		}
		desc = append(desc, fmt.Sprintf("%v with %v", of, j.o))
	}
	for _, p := range reps {
		desc = append(desc, p.format+" report")
	}
	r.Sim("concurrent use: "+strings.Join(desc, "; "), r.SimCfg(), func() {
		var wg zz.WaitGroup
		for i, j := range jobs {
			wg.Add(1)
			zz.GoNamed(fmt.Sprintf("analyzer %d", i), func() {
				j.got = DoScan(root, j.o, j.paths)
				wg.Done()
			})
		}
		for i, p := range reps {
			wg.Add(1)
			zz.GoNamed(fmt.Sprintf("report %d", i), func() {
				p.got, p.err = render(p.format, p.color, p.roots, p.ri)
				wg.Done()
			})
		}
		wg.Wait()
	})
	found := 0
	fresh := pool && r.P(1, 10)
	for i, j := range jobs {
		var ref *Scan
		how := "alone"
		if fresh {
			how = "alone in a new process"
			ref = r.FreshScan(root, j.o, j.paths)
			r.Probe("fresh-process-reference")
		} else {
			w.setup(false)
			o := j.o
			o.Conc = 1
			r.Ref("scan alone", func() { ref = DoScan(root, o, j.paths) })
		}
		r.sameScan("influenced", desc[i]+" "+how, ref, "concurrent use with the others ("+strings.Join(desc, "; ")+")", j.got)
		found += len(ref.Findings)
	}
	for i, p := range reps {
		var want []byte
		var err error
		r.Ref("report alone", func() { want, err = render(p.format, p.color, p.roots, cloneReport(p.ri)) })
		if (err == nil) != (p.err == nil) {
			r.Fail("report-influenced", "the %s report returns %v, alone %v", p.format, p.err, err)
		}
		if d := diffBytes("alone", want, "concurrently", p.got); d != "" {
			r.Fail("report-influenced", "%s differs when created concurrently (%s): %s", desc[len(jobs)+i], strings.Join(desc, "; "), d)
		}
	}
	r.Key = fmt.Sprint(desc, r.Sync)
	r.Trivial = found == 0
	r.Sample = fmt.Sprintf("%s: %d findings", strings.Join(desc, "; "), found)
}
