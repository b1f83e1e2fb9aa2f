package check

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/securego/gosec/v2/zz_sim/world"
)

var formats = []string{"json", "yaml", "csv", "junit-xml", "html", "sonarqube", "golint", "sarif", "text"}

// CLIOpts are the settings of a run of the command.
type CLIOpts struct {
	Opts
	Format     string
	Out        string // file, "" for none
	Stdout     bool   // -stdout
	Verbose    string // format on standard output
	Severity   string
	Confidence string
	Quiet      bool
	Terse      bool
	NoFail     bool
	Unsorted   bool
	Recursive  bool
	NoColor    bool
	Log        string
	ConfFile   string
	Paths      []string
}

// Args is the command line.
func (o CLIOpts) Args() []string {
	a := []string{fmt.Sprintf("-concurrency=%d", o.Conc)}
	add := func(on bool, s string) {
		if on {
			a = append(a, s)
		}
	}
	add(o.Format != "", "-fmt="+o.Format)
	add(o.Out != "", "-out="+o.Out)
	add(o.Stdout, "-stdout")
	add(o.Verbose != "", "-verbose="+o.Verbose)
	add(o.Severity != "", "-severity="+o.Severity)
	add(o.Confidence != "", "-confidence="+o.Confidence)
	add(o.Quiet, "-quiet")
	add(o.Terse, "-terse")
	add(o.NoFail, "-no-fail")
	add(o.Unsorted, "-sort=false")
	add(o.NoColor, "-color=false")
	add(o.Log != "", "-log="+o.Log)
	add(o.ConfFile != "", "-conf="+o.ConfFile)
	add(o.Opts.NoSec, "-nosec")
	add(o.ShowIgnored, "-show-ignored")
	add(o.Track, "-track-suppressions")
	add(o.Audit, "-enable-audit")
	add(o.ExclGen, "-exclude-generated")
	add(o.Tests, "-tests")
	add(o.AltTag != "", "-nosec-tag="+o.AltTag)
	add(len(o.Include) > 0, "-include="+strings.Join(o.Include, ","))
	add(len(o.Exclude) > 0, "-exclude="+strings.Join(o.Exclude, ","))
	add(len(o.Tags) > 0, "-tags="+strings.Join(o.Tags, ","))
	add(o.Recursive, "-r")
	return append(a, o.Paths...)
}

// CLIOpts draws settings without output files.
func (r *Run) CLIOpts() CLIOpts {
	o := CLIOpts{Opts: r.ScanOpts()}
	o.Conc = pick(r, []int{1, 2, 3, 4, 8})
	o.Format = pick(r, formats)
	if r.P(1, 3) {
		o.Severity = pick(r, []string{"low", "medium", "high"})
	}
	if r.P(1, 3) {
		o.Confidence = pick(r, []string{"low", "medium", "high"})
	}
	o.Quiet = r.P(1, 8)
	o.Terse = r.P(1, 8)
	o.NoFail = r.P(1, 6)
	o.NoColor = r.P(1, 4)
	return o
}

// tree is a source tree for the command.
type tree struct {
	root string
	cs   []*pkgCase
}

// newTree writes the cases below a fresh directory; nested names give nested
// directories.
func (r *Run) newTree(cs []*pkgCase) *tree {
	root, _ := r.fresh(cs)
	if err := os.MkdirAll(root, 0o755); err != nil {
		world.HarnessFail("scratch: %v", err)
	}
	return &tree{root: root, cs: cs}
}

// spec prepares an execution; latencies are drawn when delay is set.
func (r *Run) spec(t *tree, o CLIOpts, delay bool) world.CLISpec {
	sp := world.CLISpec{Args: o.Args(), Dir: t.root, Env: map[string]string{}, CPUs: 1 + r.Int(8)}
	for _, c := range t.cs {
		p := &world.PlanSpec{Dir: filepath.Base(c.name)}
		if c.plan != nil {
			*p = *c.plan
			p.Dir = filepath.Base(c.name)
		}
		if delay && r.FP(2, 3) {
			p.DelayMS = 1 + r.F(200)
		}
		sp.Plans = append(sp.Plans, p)
		for i := range c.faults {
			f := c.faults[i]
			f.Suffix = "/" + c.name + f.Suffix
			sp.Faults = append(sp.Faults, &f)
		}
	}
	sp.Cfg = r.SimCfg()
	return sp
}

// dirs lists the existing package directories, relative to the root.
func (t *tree) dirs() []string {
	var out []string
	for _, c := range t.cs {
		out = append(out, "./"+c.name)
	}
	return out
}

// roots draws the arguments that select the packages.
func (r *Run) roots(t *tree) []string {
	switch r.Int(4) {
	case 0, 1:
		return []string{"./..."}
	case 2:
		ds := t.dirs()
		shuffle(r, ds)
		return ds
	}
	var out []string
	seen := map[string]bool{}
	for _, c := range t.cs {
		top := strings.SplitN(c.name, "/", 2)[0]
		if !seen[top] {
			seen[top] = true
			out = append(out, "./"+top+"/...")
		}
	}
	shuffle(r, out)
	return out
}

// cliCases draws packages for the command.
func (r *Run) cliCases(max int, broken bool) []*pkgCase {
	var cs []*pkgCase
	for i := 0; i < 1+r.Int(max); i++ {
		c := &pkgCase{name: fmt.Sprintf("p%d", i), mkdir: true, expect: "ok", kind: "ok"}
		if broken && r.P(1, 3) {
			c.expect, c.kind = "partial", "broken"
			switch r.Int(3) {
			case 0:
				c.files, _ = r.goodFiles(c.name)
				c.files["zz_a.go"] = fmt.Sprintf("package %s\n\nvar zzBad%d int = \"x\"\n", clauseOf(c.files), i)
				c.files["zz_b.go"] = fmt.Sprintf("package %s\n\nfunc zzUse() { undefined%d(); var unused int }\n", clauseOf(c.files), i)
			case 1:
				c.files, _ = r.goodFiles(c.name)
				c.files["zz_dep.go"] = "package " + clauseOf(c.files) + "\n\nimport (\n\t\"example.com/nowhere\"\n\t\"example.com/gone\"\n)\n\nvar zzDep = nowhere.X + gone.Y\n"
			case 2:
				c = r.brokenCase(c.name)
				c.faults = nil
				c.plan = nil
			}
		} else {
			var from string
			c.files, from = r.goodFiles(c.name)
			c.kind = from
			if r.P(1, 8) {
				c.files["zz_gen.go"] = "// Code generated by x. DO NOT EDIT.\n\npackage " + clauseOf(c.files) + "\n\nimport \"os\"\n\nfunc zzGen() { os.Chdir(\"/\") }\n"
			}
		}
		if i > 0 && r.P(1, 4) {
			c.name = cs[r.Int(len(cs))].name + "/" + c.name
		}
		cs = append(cs, c)
	}
	return cs
}

// refScan scans in this process with the settings of the command.
func (r *Run) refScan(t *tree, o CLIOpts, dirs []string) *Scan {
	r.install(t.root, t.cs, false)
	ro := o.Opts
	ro.Conc = 1
	var s *Scan
	r.Ref("reference scan", func() { s = DoScan(t.root, ro, dirs) })
	return s
}

func score(s string) int {
	return map[string]int{"": 0, "low": 0, "medium": 1, "high": 2}[strings.ToLower(s)]
}

// filtered are the findings at or above the thresholds.
func (o CLIOpts) filtered(fs []Finding) []Finding {
	var out []Finding
	for _, f := range fs {
		if score(f.Sev) >= score(o.Severity) && score(f.Conf) >= score(o.Confidence) {
			out = append(out, f)
		}
	}
	return out
}

// jsonReport is the part of the JSON report that the checks read.
type jsonReport struct {
	Errors map[string][]struct {
		Line   int    `json:"line"`
		Column int    `json:"column"`
		Err    string `json:"error"`
	} `json:"Golang errors"`
	Issues []struct {
		Severity   string `json:"severity"`
		Confidence string `json:"confidence"`
		Cwe        struct {
			ID string `json:"id"`
		} `json:"cwe"`
		RuleID       string `json:"rule_id"`
		Details      string `json:"details"`
		File         string `json:"file"`
		Code         string `json:"code"`
		Line         string `json:"line"`
		Column       string `json:"column"`
		NoSec        bool   `json:"nosec"`
		Suppressions []struct {
			Kind          string `json:"kind"`
			Justification string `json:"justification"`
		} `json:"suppressions"`
		Autofix string `json:"autofix"`
	} `json:"Issues"`
	Stats struct {
		Files int `json:"files"`
		Lines int `json:"lines"`
		Nosec int `json:"nosec"`
		Found int `json:"found"`
	} `json:"Stats"`
}

// parseJSON reads a JSON report.
func parseJSON(root string, b []byte) (*jsonReport, []Finding, error) {
	var j jsonReport
	dec := json.NewDecoder(bytes.NewReader(b))
	if err := dec.Decode(&j); err != nil {
		return nil, nil, err
	}
	var fs []Finding
	for _, i := range j.Issues {
		f := Finding{Rule: i.RuleID, File: relTo(root, i.File), Line: i.Line, Col: i.Column, Sev: i.Severity, Conf: i.Confidence, What: i.Details, Code: i.Code, NoSec: i.NoSec, CWE: i.Cwe.ID, Fix: i.Autofix}
		for _, s := range i.Suppressions {
			f.Supp = append(f.Supp, s.Kind+":"+s.Justification)
		}
		fs = append(fs, f)
	}
	return &j, fs, nil
}

// diffBytes shows where two outputs differ.
func diffBytes(an string, a []byte, bn string, b []byte) string {
	if bytes.Equal(a, b) {
		return ""
	}
	al, bl := strings.Split(string(a), "\n"), strings.Split(string(b), "\n")
	for i := 0; i < len(al) || i < len(bl); i++ {
		x, y := "(end)", "(end)"
		if i < len(al) {
			x = al[i]
		}
		if i < len(bl) {
			y = bl[i]
		}
		if x != y {
			return fmt.Sprintf("%d and %d bytes, first difference in line %d:\n  %s: %s\n  %s: %s", len(a), len(b), i+1, an, firstN(x, 600), bn, firstN(y, 600))
		}
	}
	return "differ"
}

// existing lists the directories a recursive walk finds.
func existing(t *tree) []string {
	var out []string
	for _, c := range t.cs {
		if len(goNames(c.files)) > 0 {
			out = append(out, filepath.Join(t.root, c.name))
		}
	}
	sort.Strings(out)
	return out
}
