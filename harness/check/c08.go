package check

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/securego/gosec/v2/zz_sim/world"
)

func init() {
	register(&Prop{ID: "C08", Run: runC08})
}

func runC08(r *Run) {
	cs := r.cliCases(5, true)
	if r.P(1, 2) {
		for i := range cs {
			parent := false
			for _, c := range cs {
				parent = parent || strings.HasPrefix(c.name, fmt.Sprintf("p%d/", i)) || strings.Contains(c.name, fmt.Sprintf("/p%d/", i))
			}
			if r.P(1, 3) && !parent {
				if c := r.genCase(i, false); c.stable() {
					cs[i] = c
				}
			}
		}
	}
	t := r.newTree(cs)
	o := r.CLIOpts()
	o.Paths = r.roots(t)
	if r.P(1, 6) {
		o.Paths = append(o.Paths, t.dirs()...) // packages named twice
	}
	o.Tests = r.P(1, 8)
	toFile := r.P(1, 3)
	if toFile {
		o.Stdout = r.P(1, 2)
		o.Verbose = pick(r, append([]string{""}, formats...))
	}
	type out struct {
		res  *CLIResult
		file []byte
	}
	var outs []out
	n := 2
	for i := 0; i < n; i++ {
		oo := o
		oo.Conc = pick(r, []int{1, 2, 3, 4, 8, 16})
		if toFile {
			oo.Out = filepath.Join(r.Dir, "report")
			os.Remove(oo.Out)
		}
		if i == 1 && r.P(1, 4) {
			// another order of the arguments
			oo.Paths = append([]string(nil), o.Paths...)
			if len(o.Tags) == 0 {
				shuffle(r, oo.Paths)
			}
		}
		if fmt.Sprint(oo.Paths) != fmt.Sprint(o.Paths) && (o.Format == "sonarqube" || o.Format == "sarif" || o.Verbose == "sonarqube" || o.Verbose == "sarif") {
			oo.Paths = o.Paths // the roots of these reports follow the arguments
		}
		sp := r.spec(t, oo, true)
		x := out{res: r.CLI(fmt.Sprintf("execution %d", i), sp, i == 0 && r.P(1, 4))}
		if toFile {
			x.file, _ = os.ReadFile(oo.Out)
		}
		outs = append(outs, x)
	}
	a, b := outs[0], outs[1]
	args := fmt.Sprint(o.Args())
	if a.res.Code != b.res.Code {
		r.Fail("exit-status-differs", "gosec %s ended with status %d and %d", args, a.res.Code, b.res.Code)
	}
	if d := diffBytes("first", a.res.Stdout, "second", b.res.Stdout); d != "" {
		r.Fail("report-differs", "two executions of gosec %s wrote different reports on standard output: %s", args, d)
	}
	if d := diffBytes("first", a.file, "second", b.file); d != "" {
		r.Fail("report-differs", "two executions of gosec %s wrote different report files: %s", args, d)
	}
	r.Key = fmt.Sprint(args, r.Sync)
	r.Trivial = len(t.cs) < 2 || len(a.res.Stdout)+len(a.file) == 0
	r.Sample = fmt.Sprintf("%d packages, %s: %d bytes", len(t.cs), args, len(a.res.Stdout)+len(a.file))
	_ = world.CLISpec{}
}
