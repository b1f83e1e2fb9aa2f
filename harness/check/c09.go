package check

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/securego/gosec/v2/report"
	"github.com/securego/gosec/v2/zz_sim/world"
)

func init() {
	register(&Prop{ID: "C09", Run: runC09})
}

func runC09(r *Run) {
	if r.P(1, 8) {
		r.c09CLI()
		return
	}
	ri, roots := r.genReport(6)
	color := r.P(1, 4)
	var sample []string
	wrote := 0
	for k := 0; k < 3; k++ {
		format := pick(r, append([]string{"unknown"}, formats...))
		var want []byte
		var werr error
		r.Ref(format+" report", func() { want, werr = render(format, color, roots, cloneReport(ri)) })
		if werr != nil {
			r.Fail("healthy-write-fails", "creating the %s report fails without faults: %v", format, werr)
		}
		wrote += len(want)
		for j := 0; j < 6; j++ {
			w := &faultyWriter{mode: pickF(r, []string{"cut", "cut", "call", "late", "short"}), sticky: r.FP(1, 2)}
			if w.mode == "cut" {
				switch r.F(4) {
				case 0:
					w.at = r.F(len(want) + 2)
				case 1:
					w.at = max(len(want)-1-r.F(8), 0)
				case 2:
					w.at = r.F(64)
				case 3:
					w.at = min(4096*(1+r.F(3)), len(want))
				}
			} else {
				w.at = r.F(4)
				if r.FP(1, 2) {
					w.at = r.F(120)
				}
			}
			var err error
			what := fmt.Sprintf("%s report, %s at %d, sticky %v", format, w.mode, w.at, w.sticky)
			r.Sim(what, r.SimCfg(), func() { err = report.CreateReport(w, format, color, roots, cloneReport(ri)) })
			if w.fired > 0 {
				r.Fired["writer-"+w.mode]++
				if !w.sticky {
					r.Fired["writer-transient"]++
				}
			}
			switch {
			case w.fired > 0 && err == nil:
				r.Fail("write-error-lost", "%s: the destination failed after %d of %d bytes, but creating the report returned no error", what, w.got.Len(), len(want))
			case w.fired == 0 && err != nil:
				r.Fail("healthy-write-fails", "%s: the destination did not fail, but creating the report returned %v", what, err)
			case err == nil && !bytes.Equal(w.got.Bytes(), want):
				r.Fail("incomplete", "%s: success was returned, but the destination holds other bytes: %s", what, diffBytes("without faults", want, "now", w.got.Bytes()))
			}
			sample = append(sample, fmt.Sprintf("%s/%s@%d", format, w.mode, w.at))
		}
	}
	r.Key = fmt.Sprint(sample, wrote)
	r.Trivial = wrote == 0
	r.Sample = fmt.Sprintf("%d findings; %s", len(ri.Issues), strings.Join(sample, " "))
}

// c09CLI lets writes of the command's report file or standard output fail.
func (r *Run) c09CLI() {
	t := r.newTree(r.cliCases(2, true))
	o := r.CLIOpts()
	o.Paths = []string{"./..."}
	o.NoFail = true // the status then only tells whether the outputs were produced
	o.Quiet = false
	o.Out = filepath.Join(r.Dir, "report")
	o.Stdout = r.P(1, 3)
	if o.Stdout {
		o.Verbose = pick(r, append([]string{""}, formats...))
	}
	ref := r.CLI("without faults", r.spec(t, o, false), true)
	want, err := os.ReadFile(o.Out)
	if err != nil || ref.Code != 0 {
		r.Fail("healthy-write-fails", "gosec %s: status %d, report: %v, stderr: %s", strings.Join(o.Args(), " "), ref.Code, err, firstN(string(ref.Stderr), 600))
	}
	os.Remove(o.Out)
	var f *world.FaultRule
	size, suffix := len(want), "/report"
	if o.Stdout && r.FP(1, 2) {
		size, suffix = len(ref.Stdout), "/dev/stdout"
	}
	errName := pickF(r, []string{"ENOSPC", "EIO", "EDQUOT", "EPIPE"})
	switch k := r.F(6); {
	case k == 0 && suffix == "/report":
		f = &world.FaultRule{Op: "create", Suffix: suffix, Sticky: true, Err: errName}
	case k == 1 && suffix == "/report":
		f = &world.FaultRule{Op: "close", Suffix: suffix, Sticky: true, Err: errName}
	case k == 2:
		f = &world.FaultRule{Op: "write", Suffix: suffix, Nth: r.F(5), Err: errName, Transient: r.FP(1, 2)}
	default:
		f = &world.FaultRule{Op: "write", Suffix: suffix, At: 1 + r.F(size+1), Err: errName, Transient: r.FP(1, 2)}
	}
	if r.FP(1, 3) {
		// something is in the place of the report already
		writeItem(r.Dir, map[string]string{"report": strings.Repeat("old report\n", 1+r.F(6000))})
		r.Fired["old-report"]++
	}
	sp := r.spec(t, o, true)
	at := len(sp.Faults)
	sp.Faults = append(sp.Faults, f)
	got := r.CLI("with faults", sp, false)
	fired := len(got.Trailer.Rules) > at && got.Trailer.Rules[at] > 0
	args := strings.Join(o.Args(), " ")
	what := fmt.Sprintf("%s of %s fails with %s (nth %d, at byte %d)", f.Op, suffix, errName, f.Nth, f.At)
	have, _ := os.ReadFile(o.Out)
	switch {
	case fired && got.Code == 0:
		r.Fail("write-error-lost", "gosec %s: %s, but the status is 0", args, what)
	case !fired && got.Code != 0:
		r.Fail("healthy-write-fails", "gosec %s ends with status %d without any fault: %s", args, got.Code, firstN(string(got.Stderr), 600))
	case got.Code == 0:
		if d := diffBytes("without faults", want, "now", have); d != "" {
			r.Fail("incomplete", "gosec %s: the status is 0, but the report file differs: %s", args, d)
		}
		if d := diffBytes("without faults", ref.Stdout, "now", got.Stdout); d != "" {
			r.Fail("incomplete", "gosec %s: the status is 0, but standard output differs: %s", args, d)
		}
	}
	r.Key = fmt.Sprint(args, f, r.Sync)
	r.Trivial = !fired
	r.Sample = fmt.Sprintf("gosec %s, %s: status %d", args, what, got.Code)
}
