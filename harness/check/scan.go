package check

import (
	"bytes"
	"encoding/json"
	"fmt"
	"log"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/analyzers"
	"github.com/securego/gosec/v2/issue"
	"github.com/securego/gosec/v2/rules"
	"github.com/securego/gosec/v2/zz_sim/world"
	zz "github.com/securego/gosec/v2/zz_simrt"
)

// Opts are the settings of a scan.
type Opts struct {
	Conc        int
	Tests       bool
	ExclGen     bool
	Track       bool
	NoSec       bool // ignore directives
	ShowIgnored bool
	AltTag      string
	Audit       bool
	Config      string // JSON
	Include     []string
	Exclude     []string
	Tags        []string
}

func (o Opts) String() string {
	return fmt.Sprintf("conc=%d tests=%v exclgen=%v track=%v nosec=%v showignored=%v alt=%q audit=%v conf=%s include=%v exclude=%v tags=%v", o.Conc, o.Tests, o.ExclGen, o.Track, o.NoSec, o.ShowIgnored, o.AltTag, o.Audit, o.Config, o.Include, o.Exclude, o.Tags)
}

// Conf builds the configuration.
func (o Opts) Conf() gosec.Config {
	c := gosec.NewConfig()
	if o.Config != "" {
		if _, err := c.ReadFrom(strings.NewReader(o.Config)); err != nil {
			world.HarnessFail("config: %v", err)
		}
	}
	if o.NoSec {
		c.SetGlobal(gosec.Nosec, "true")
	}
	if o.ShowIgnored {
		c.SetGlobal(gosec.ShowIgnored, "true")
	}
	if o.AltTag != "" {
		c.SetGlobal(gosec.NoSecAlternative, o.AltTag)
	}
	if o.Audit {
		c.SetGlobal(gosec.Audit, "true")
	}
	return c
}

// Arm gives an analyzer its rules and analyzers.
func (o Opts) Arm(a *gosec.Analyzer) {
	var rf []rules.RuleFilter
	var af []analyzers.AnalyzerFilter
	if len(o.Include) > 0 {
		rf = append(rf, rules.NewRuleFilter(false, o.Include...))
		af = append(af, analyzers.NewAnalyzerFilter(false, o.Include...))
	}
	if len(o.Exclude) > 0 {
		rf = append(rf, rules.NewRuleFilter(true, o.Exclude...))
		af = append(af, analyzers.NewAnalyzerFilter(true, o.Exclude...))
	}
	a.LoadRules(rules.Generate(o.Track, rf...).RulesInfo())
	a.LoadAnalyzers(analyzers.Generate(o.Track, af...).AnalyzersInfo())
}

// New builds an armed analyzer.
func (o Opts) New(logger *log.Logger) *gosec.Analyzer {
	a := gosec.NewAnalyzer(o.Conf(), o.Tests, o.ExclGen, o.Track, o.Conc, logger)
	o.Arm(a)
	return a
}

// Finding is the comparable form of an issue.
type Finding struct {
	Rule, File, Line, Col, Sev, Conf, What, Code, CWE string
	NoSec                                             bool
	Supp                                              []string
	Fix                                               string
}

// ID identifies what was found where.
func (f Finding) ID() string {
	return fmt.Sprintf("%s %s:%s:%s sev=%s conf=%s", f.Rule, f.File, f.Line, f.Col, f.Sev, f.Conf)
}

// Full is everything that is reported, except suppressions.
func (f Finding) Full() string {
	return f.ID() + " " + f.CWE + " " + f.What + " | " + f.Code + fmt.Sprintf(" nosec=%v", f.NoSec)
}

// WithSupp adds the suppressions.
func (f Finding) WithSupp() string { return f.Full() + fmt.Sprintf(" supp=%q", f.Supp) }

// Active reports whether the finding counts as unsuppressed.
func (f Finding) Active() bool { return len(f.Supp) == 0 && !f.NoSec }

// Outcome of a scan.
type Scan struct {
	Findings                   []Finding
	Files, Lines, Nosec, Found int
	Errors                     map[string][]string
	Err                        string
	Log                        string
	raw                        []*issue.Issue
	metrics                    *gosec.Metrics
	errs                       map[string][]gosec.Error
}

func relTo(root, p string) string {
	if rel, err := filepath.Rel(root, p); err == nil && !strings.HasPrefix(rel, "../../..") {
		return rel
	}
	return p
}

func relAll(root string, ps []string) []string {
	var out []string
	for _, p := range ps {
		out = append(out, relTo(root, p))
	}
	return out
}

func toFinding(root string, i *issue.Issue) Finding {
	f := Finding{Rule: i.RuleID, File: relTo(root, i.File), Line: i.Line, Col: i.Col, Sev: i.Severity.String(), Conf: i.Confidence.String(), What: i.What, Code: i.Code, NoSec: i.NoSec, Fix: i.Autofix}
	if i.Cwe != nil {
		f.CWE = i.Cwe.ID
	}
	for _, s := range i.Suppressions {
		f.Supp = append(f.Supp, s.Kind+":"+s.Justification)
	}
	return f
}

// Collect reads the results out of an analyzer.
func Collect(root string, a *gosec.Analyzer) *Scan {
	is, m, errs := a.Report()
	s := &Scan{Errors: map[string][]string{}, raw: is, metrics: m, errs: errs}
	for _, i := range is {
		s.Findings = append(s.Findings, toFinding(root, i))
	}
	s.Files, s.Lines, s.Nosec, s.Found = m.NumFiles, m.NumLines, m.NumNosec, m.NumFound
	for f, es := range errs {
		k := f
		if f != "" && filepath.IsAbs(f) {
			k = relTo(root, f)
		}
		for _, e := range es {
			s.Errors[k] = append(s.Errors[k], fmt.Sprintf("%d:%d %s", e.Line, e.Column, strings.ReplaceAll(e.Err, root, "")))
		}
	}
	return s
}

// World installs the loader and go command of the simulated environment.
func (r *Run) World(specs []*world.PlanSpec) *world.Loader {
	l := &world.Loader{Plan: world.MakePlan(specs), Fired: r.Fired}
	zz.W.Load = l.Load
	zz.W.Exec = world.ExecFunc(world.GoodGoList("1.24"), nil)
	return l
}

// NewLogger is a logger over a private buffer.
func NewLogger() (*log.Logger, *bytes.Buffer) {
	var b bytes.Buffer
	return log.New(&b, "", 0), &b
}

// DoScan creates an analyzer and scans; it must run inside an execution.
func DoScan(root string, o Opts, paths []string) *Scan {
	lg, buf := NewLogger()
	a := o.New(lg)
	err := a.Process(o.Tags, paths...)
	s := Collect(root, a)
	if err != nil {
		s.Err = strings.ReplaceAll(err.Error(), root, "")
	}
	s.Log = buf.String()
	return s
}

// ---- comparing -----------------------------------------------------------------

func multiset(fs []Finding, f func(Finding) string) map[string]int {
	m := map[string]int{}
	for _, x := range fs {
		m[f(x)]++
	}
	return m
}

func addSets(ms ...map[string]int) map[string]int {
	out := map[string]int{}
	for _, m := range ms {
		for k, v := range m {
			out[k] += v
		}
	}
	return out
}

func errSet(s *Scan) map[string]int {
	m := map[string]int{}
	for f, es := range s.Errors {
		for _, e := range es {
			m[f+" "+e]++
		}
	}
	return m
}

// diffSets describes how two multisets differ ("" if equal).
func diffSets(wantName string, want map[string]int, gotName string, got map[string]int) string {
	var b strings.Builder
	keys := map[string]bool{}
	for k := range want {
		keys[k] = true
	}
	for k := range got {
		keys[k] = true
	}
	n := 0
	for _, k := range sortedKeys(keys) {
		if want[k] != got[k] {
			n++
			if n <= 6 {
				fmt.Fprintf(&b, "\n  %d× in %s, %d× in %s: %s", want[k], wantName, got[k], gotName, firstN(k, 400))
			}
		}
	}
	if n > 6 {
		fmt.Fprintf(&b, "\n  … %d differences", n)
	}
	return b.String()
}

func metricsString(s *Scan) string {
	return fmt.Sprintf("files=%d lines=%d nosec=%d found=%d", s.Files, s.Lines, s.Nosec, s.Found)
}

// sameScan compares two scan results completely.
func (r *Run) sameScan(class, an string, a *Scan, bn string, b *Scan) {
	if a.Err != b.Err {
		r.Fail(class, "scan result differs: error %q in %s, %q in %s", a.Err, an, b.Err, bn)
	}
	if d := diffSets(an, multiset(a.Findings, Finding.WithSupp), bn, multiset(b.Findings, Finding.WithSupp)); d != "" {
		r.Fail(class, "findings differ between %s and %s:%s", an, bn, d)
	}
	if metricsString(a) != metricsString(b) {
		r.Fail(class, "metrics differ: %s in %s, %s in %s", metricsString(a), an, metricsString(b), bn)
	}
	if d := diffSets(an, errSet(a), bn, errSet(b)); d != "" {
		r.Fail(class, "recorded errors differ between %s and %s:%s", an, bn, d)
	}
}

// ---- corpus ----------------------------------------------------------------------

// Item is one package of the corpus.
type Item struct {
	Name   string            `json:"name"`
	Files  map[string]string `json:"files"`
	Config map[string]any    `json:"config"`
	Rules  []string
	Cgo    bool
	Tagged bool
}

type sampleJSON struct {
	Name   string         `json:"name"`
	I      int            `json:"i"`
	Code   []string       `json:"code"`
	Errors int            `json:"errors"`
	Config map[string]any `json:"config"`
}

var corpusItems []*Item

// Corpus lists the frozen sample packages.
func Corpus() []*Item {
	if corpusItems != nil {
		return corpusItems
	}
	b, err := os.ReadFile(filepath.Join(world.CorpusDir(), "samples.json"))
	if err != nil {
		world.HarnessFail("corpus: %v", err)
	}
	var ss []sampleJSON
	if err := json.Unmarshal(b, &ss); err != nil {
		world.HarnessFail("corpus: %v", err)
	}
	for _, s := range ss {
		it := &Item{Name: fmt.Sprintf("%s_%d", s.Name, s.I), Files: map[string]string{}, Config: s.Config}
		for k, c := range s.Code {
			it.Files[fmt.Sprintf("sample_%d.go", k)] = c
			if strings.Contains(c, `import "C"`) {
				it.Cgo = true
			}
			if strings.Contains(c, "+build") || strings.Contains(c, "//go:build") {
				it.Tagged = true
			}
		}
		if it.Cgo || it.Tagged {
			continue
		}
		corpusItems = append(corpusItems, it)
	}
	corpusItems = append(corpusItems, atomItems()...)
	return corpusItems
}

var pooled map[string]string

// PoolDir writes an item once per process and returns its directory; pool items
// must never be modified.
func (r *Run) PoolDir(it *Item) string {
	if pooled == nil {
		pooled = map[string]string{}
	}
	if d := pooled[it.Name]; d != "" {
		return d
	}
	d := filepath.Join(r.Scratch, "pool", it.Name)
	writeItem(d, it.Files)
	pooled[it.Name] = d
	return d
}

func writeItem(d string, files map[string]string) {
	for f, c := range files {
		p := filepath.Join(d, f)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			world.HarnessFail("scratch: %v", err)
		}
		if err := os.WriteFile(p, []byte(c), 0o644); err != nil {
			world.HarnessFail("scratch: %v", err)
		}
	}
}

// PickItems draws n distinct corpus items.
func (r *Run) PickItems(n int) []*Item {
	c := Corpus()
	var out []*Item
	seen := map[string]bool{}
	for len(out) < n {
		it := c[r.Int(len(c))]
		if seen[it.Name] {
			// walk on so that shrunk choices still give distinct items
			for k := 0; seen[it.Name]; k++ {
				it = c[k%len(c)]
			}
		}
		seen[it.Name] = true
		out = append(out, it)
	}
	return out
}

func names(its []*Item) []string {
	var out []string
	for _, i := range its {
		out = append(out, i.Name)
	}
	return out
}

// ScanOpts draws scan settings.
func (r *Run) ScanOpts() Opts {
	o := Opts{Conc: 1}
	o.Track = r.P(1, 4)
	o.NoSec = r.P(1, 6)
	o.ShowIgnored = r.P(1, 6)
	o.Audit = r.P(1, 4)
	o.ExclGen = r.P(1, 6)
	if r.P(1, 8) {
		o.AltTag = "falsepositive"
	}
	switch r.Int(6) {
	case 4:
		o.Exclude = []string{"G104", "G404", "G602"}
	case 5:
		o.Include = []string{"G101", "G104", "G115", "G304", "G401", "G402", "G404", "G501", "G602"}
	}
	return o
}

func sortedCopy(xs []string) []string {
	ys := append([]string(nil), xs...)
	sort.Strings(ys)
	return ys
}
