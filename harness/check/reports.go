package check

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/cwe"
	"github.com/securego/gosec/v2/issue"
	"github.com/securego/gosec/v2/report"
	"github.com/securego/gosec/v2/zz_sim/world"
)

var issueRules = []string{"G101", "G102", "G103", "G104", "G107", "G110", "G114", "G115", "G201", "G202", "G204", "G301", "G304", "G306", "G307", "G401", "G402", "G403", "G404", "G407", "G501", "G505", "G601", "G602"}

var issueTexts = []string{"Errors unhandled", "Use of weak cryptographic primitive", "Potential file inclusion via variable", "a < b && c > d \"quoted\" 'single'", "multi\nline\ttext", "ünïcödé ☃ 漢字", "percent %d %s {{.}} $x", "", "trailing space ", "comma, semicolon; and | pipe", "x", "0", "errors unhandled"}

var issueCodes = []string{"4: \n5: func A() {\n6: \tos.Chdir(\"/\")\n", "5: x := \"<script>alert(1)</script>\"\n", "", "12: a\n13: b\n14: c\n15: d\n", "no line numbers here", "7: ünïcödé ☃\n"}

var suppressionTexts = []string{"", "Globally suppressed.", "false positive", "multi word -- with dashes", "<b>&amp;</b>", "ünïcödé"}

// reportDirs are the folders of the findings; the name of one is the start of
// another's.
var reportDirs = []string{"p", "p1", "p10", "p.v1", "p-old", "p p", "q & r", "p/src/project/p", "src/project"}

// ownRules are rules which the user of the library has added.
var ownRules = map[string]string{"X001": "79", "X002": "22", "OWN": "295"}

func cweOf(id string) *cwe.Weakness {
	if w, ok := ownRules[id]; ok {
		return cwe.Get(w)
	}
	return issue.GetCweByRule(id)
}

// genIssues draws findings as a scan could yield them.
func (r *Run) genIssues(root string, n int) []*issue.Issue {
	var out []*issue.Issue
	rulesOfUser := 0
	if (r.Prop.ID == "C17" || r.Prop.ID == "C22") && r.P(1, 100) {
		// more rules than gosec has
		rulesOfUser, n = 150, n+50+r.Int(200)
		r.Probe("many-rules")
	}
	for i := 0; i < n; i++ {
		id := pick(r, issueRules)
		if rulesOfUser > 0 {
			id = fmt.Sprintf("U%d", r.Int(rulesOfUser))
		}
		if r.P(1, 12) {
			id = pick(r, sortedKeys(ownRules))
		}
		x := &issue.Issue{
			Severity: issue.Score(r.Int(3)), Confidence: issue.Score(r.Int(3)),
			Cwe: cweOf(id), RuleID: id, What: pick(r, issueTexts),
			File: fmt.Sprintf("%s/%s/f%d.go", root, pick(r, reportDirs), r.Int(3)),
			Code: pick(r, issueCodes), Col: fmt.Sprint(1 + r.Int(40)),
		}
		l := 1 + r.Int(30)
		x.Line = fmt.Sprint(l)
		if r.P(1, 4) {
			x.Line = fmt.Sprintf("%d-%d", l, l+1+r.Int(4))
		}
		if r.P(1, 4) {
			for k := 0; k < 1+r.Int(3); k++ {
				x.Suppressions = append(x.Suppressions, issue.SuppressionInfo{Kind: pick(r, []string{"inSource", "external"}), Justification: pick(r, suppressionTexts)})
			}
			x.NoSec = r.P(1, 2)
		} else if r.P(1, 12) {
			x.NoSec = true
		}
		if r.P(1, 8) {
			x.Autofix = pick(r, issueTexts)
		}
		out = append(out, x)
		if r.P(1, 10) {
			d := *x // the same finding twice
			out = append(out, &d)
		}
	}
	return out
}

// genReport draws the input of a report.
func (r *Run) genReport(max int) (*gosec.ReportInfo, []string) {
	root := "/src/project"
	n := r.Int(max + 1)
	switch p := r.Prop.ID; {
	case (p == "C17" || p == "C22") && r.P(1, 250):
		n = pick(r, []int{300, 1200, 6000})
		r.Probe("many-findings")
	case p == "C09" && r.P(1, 100):
		n = 300
		r.Probe("many-findings")
	}
	is := r.genIssues(root, n)
	m := &gosec.Metrics{NumFiles: r.Int(50), NumLines: r.Int(5000), NumNosec: r.Int(9), NumFound: len(is)}
	errs := map[string][]gosec.Error{}
	for k := 0; k < r.Int(4); k++ {
		f := fmt.Sprintf("%s/%s/e%d.go", root, pick(r, reportDirs), r.Int(3))
		errs[f] = append(errs[f], gosec.Error{Line: r.Int(9), Column: r.Int(9), Err: pick(r, issueTexts)})
	}
	ri := gosec.NewReportInfo(is, m, errs).WithVersion(pick(r, []string{"dev", "v2.22.3", ""}))
	roots := []string{root}
	if r.P(1, 4) {
		roots = nil
		for _, d := range reportDirs {
			roots = append(roots, root+"/"+d)
		}
		shuffle(r, roots)
	}
	return ri, roots
}

// cloneReport copies a report's input completely.
func cloneReport(ri *gosec.ReportInfo) *gosec.ReportInfo {
	m := *ri.Stats
	out := gosec.NewReportInfo(nil, &m, map[string][]gosec.Error{}).WithVersion(ri.GosecVersion)
	out.Issues = make([]*issue.Issue, 0, len(ri.Issues))
	if ri.Issues == nil {
		out.Issues = nil
	}
	for _, i := range ri.Issues {
		c := *i
		if i.Suppressions != nil {
			c.Suppressions = append([]issue.SuppressionInfo{}, i.Suppressions...)
		}
		out.Issues = append(out.Issues, &c)
	}
	for f, es := range ri.Errors {
		out.Errors[f] = append([]gosec.Error(nil), es...)
	}
	return out
}

// dump is a complete picture of a report's input.
func dump(ri *gosec.ReportInfo) string {
	var b strings.Builder
	for n, i := range ri.Issues {
		w := ""
		if i.Cwe != nil {
			w = fmt.Sprintf("%s|%s|%s", i.Cwe.ID, i.Cwe.Name, i.Cwe.Description)
		}
		fmt.Fprintf(&b, "issue %d %s %v %v %s %q %s %q %s %s %v %q %q\n", n, i.RuleID, i.Severity, i.Confidence, w, i.What, i.File, i.Code, i.Line, i.Col, i.NoSec, i.Suppressions, i.Autofix)
	}
	js, err := json.Marshal(map[string]any{"e": ri.Errors, "m": ri.Stats, "v": ri.GosecVersion})
	if err != nil {
		world.HarnessFail("dump: %v", err)
	}
	b.Write(js)
	return b.String()
}

// faultyWriter is a destination that fails as planned.
type faultyWriter struct {
	mode   string
	at     int // byte offset or number of the call
	got    bytes.Buffer
	calls  int
	fired  int
	dead   bool
	sticky bool
}

var errWriter = errors.New("no space left on device")

func (w *faultyWriter) Write(b []byte) (int, error) {
	n := w.calls
	w.calls++
	if w.dead {
		return 0, errWriter
	}
	fail := func(k int) (int, error) {
		w.got.Write(b[:k])
		w.fired++
		w.dead = w.sticky
		return k, errWriter
	}
	switch w.mode {
	case "cut": // the destination takes no more than at bytes
		if (w.sticky || w.fired == 0) && w.got.Len()+len(b) > w.at {
			return fail(max(w.at-w.got.Len(), 0))
		}
	case "call": // call number at fails without taking anything
		if n == w.at {
			return fail(0)
		}
	case "late": // call number at takes everything and fails
		if n == w.at {
			return fail(len(b))
		}
	case "short": // call number at takes a part, with the error of a short write
		if n == w.at && len(b) > 0 {
			w.got.Write(b[:len(b)-1])
			w.fired++
			w.dead = w.sticky
			return len(b) - 1, io.ErrShortWrite
		}
	}
	w.got.Write(b)
	return len(b), nil
}

// renderTo creates one report inside the running execution.
func renderTo(w io.Writer, format string, roots []string, ri *gosec.ReportInfo) error {
	return report.CreateReport(w, format, false, roots, ri)
}

// render creates one report inside the running execution.
func render(format string, color bool, roots []string, ri *gosec.ReportInfo) ([]byte, error) {
	var b bytes.Buffer
	err := report.CreateReport(&b, format, color, roots, ri)
	return b.Bytes(), err
}
