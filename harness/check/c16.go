package check

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/securego/gosec/v2/report"
)

func init() {
	register(&Prop{ID: "C16", Run: runC16})
}

func runC16(r *Run) {
	if r.P(1, 8) {
		r.c16CLI()
		return
	}
	ri, roots := r.genReport(7)
	type step struct {
		format string
		color  bool
		fail   *faultyWriter
		want   []byte
	}
	var steps []step
	for k := 0; k < 2+r.Int(5); k++ {
		s := step{format: pick(r, formats), color: r.P(1, 4)}
		if r.FP(1, 4) {
			s.fail = &faultyWriter{mode: pickF(r, []string{"cut", "call"}), sticky: true}
			if s.fail.mode == "cut" {
				s.fail.at = r.F(4000)
			}
		}
		var err error
		r.Ref(s.format+" report alone", func() { s.want, err = render(s.format, s.color, roots, cloneReport(ri)) })
		if err != nil {
			r.Fail("report-fails", "the %s report fails: %v", s.format, err)
		}
		steps = append(steps, s)
	}
	before := dump(ri)
	var order []string
	for n, s := range steps {
		order = append(order, s.format)
		what := fmt.Sprintf("report %d of %s", n+1, strings.Join(order, ", "))
		var got []byte
		var err error
		r.Sim(what, r.SimCfg(), func() {
			if s.fail != nil {
				err = report.CreateReport(s.fail, s.format, s.color, roots, ri)
			} else {
				got, err = render(s.format, s.color, roots, ri)
			}
		})
		if s.fail != nil {
			if s.fail.fired > 0 {
				r.Fired["writer-"+s.fail.mode]++
			}
			order[n] += " (failing)"
		} else if err != nil {
			r.Fail("report-fails", "%s fails: %v", what, err)
		} else if d := diffBytes("alone", s.want, "now", got); d != "" {
			r.Fail("report-differs", "%s (%s) differs from the one created alone: %s", what, s.format, d)
		}
		if after := dump(ri); after != before {
			r.Fail("input-changed", "creating %s (%s) changed the data it was given: %s", what, s.format, diffBytes("before", []byte(before), "after", []byte(after)))
		}
	}
	r.Key = fmt.Sprint(order, hashString(before))
	r.Trivial = len(ri.Issues) == 0
	r.Sample = fmt.Sprintf("%d findings: %s", len(ri.Issues), strings.Join(order, ", "))
}

// c16CLI compares the two outputs of one execution with those of executions that
// write one.
func (r *Run) c16CLI() {
	t := r.newTree(r.cliCases(2, true))
	o := r.CLIOpts()
	o.Paths = r.roots(t)
	o.Quiet = false
	o.Verbose = ""
	f1, f2 := o.Format, pick(r, formats)
	file := filepath.Join(r.Dir, "report")
	solo := o
	solo.Format = f2
	if r.P(1, 2) {
		solo.Format, solo.Verbose = f1, f2 // the other way to choose the format
	}
	a := r.CLI("standard output alone", r.spec(t, solo, false), true)
	only := o
	only.Out = file
	b := r.CLI("file alone", r.spec(t, only, false), true)
	wantFile, err := os.ReadFile(file)
	if err != nil {
		r.Fail("report-missing", "gosec %s: %v", strings.Join(only.Args(), " "), err)
	}
	os.Remove(file)
	both := o
	both.Out, both.Stdout, both.Verbose = file, true, f2
	c := r.CLI("both", r.spec(t, both, true), false)
	gotFile, _ := os.ReadFile(file)
	args := strings.Join(both.Args(), " ")
	if d := diffBytes("alone", a.Stdout, "with the file", c.Stdout); d != "" {
		r.Fail("report-differs", "gosec %s: standard output differs from an execution without output file: %s", args, d)
	}
	if d := diffBytes("alone", wantFile, "with standard output", gotFile); d != "" {
		r.Fail("report-differs", "gosec %s: the report file differs from an execution that writes it alone: %s", args, d)
	}
	if a.Code != c.Code || b.Code != c.Code {
		r.Fail("exit-status-differs", "gosec %s: status %d, %d with standard output alone, %d with the file alone", args, c.Code, a.Code, b.Code)
	}
	if len(b.Stdout) > 0 {
		r.Fail("report-differs", "gosec %s wrote %d bytes to standard output", strings.Join(only.Args(), " "), len(b.Stdout))
	}
	r.Key = fmt.Sprint(args, r.Sync)
	r.Sample = fmt.Sprintf("gosec %s: %d and %d bytes", args, len(c.Stdout), len(gotFile))
}
