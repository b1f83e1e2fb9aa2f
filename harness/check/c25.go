package check

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"

	"github.com/securego/gosec/v2/zz_sim/world"
)

func init() {
	register(&Prop{ID: "C25", Run: runC25})
}

// allRuleIDs are the identifiers which the documentation lists.
var allRuleIDs = []string{"G101", "G102", "G103", "G104", "G106", "G107", "G108", "G109", "G110", "G111", "G112", "G114", "G115",
	"G201", "G202", "G203", "G204", "G301", "G302", "G303", "G304", "G305", "G306", "G307",
	"G401", "G402", "G403", "G404", "G405", "G406", "G407", "G501", "G502", "G503", "G504", "G505", "G506", "G507", "G601", "G602"}

// selection says which rules count and whether generated files do.
type selection struct {
	include, exclude []string
	exclGen          bool
}

func (s selection) rule(id string) bool {
	return (len(s.include) == 0 || contains(s.include, id)) && !contains(s.exclude, id)
}

// drawSelection selects among the rules that report something and others.
func (r *Run) drawSelection(fs []Finding) selection {
	pool := append([]string(nil), allRuleIDs...)
	for _, f := range fs {
		pool = append(pool, f.Rule)
	}
	some := func(n int) (out []string) {
		for k := 1 + r.Int(n); k > 0; k-- {
			if r.P(1, 20) {
				out = append(out, "G999")
			} else {
				out = append(out, pick(r, pool))
			}
		}
		return out
	}
	var s selection
	switch r.Int(6) {
	case 0:
		s.exclGen = true
	case 1:
		s.include = some(1)
	case 2:
		s.include = some(6)
	case 3:
		s.exclude = some(6)
	case 4:
		s.include, s.exclude = some(8), some(3)
	case 5: // all but one
		one := pick(r, pool)
		for _, id := range allRuleIDs {
			if id != one {
				s.include = append(s.include, id)
			}
		}
		shuffle(r, s.include)
	}
	s.exclGen = s.exclGen || r.P(1, 4)
	for _, id := range allRuleIDs {
		if s.rule(id) {
			return s
		}
	}
	// nothing at all is an error of its own
	return selection{exclude: []string{"G104"}, exclGen: s.exclGen}
}

const generatedMark = "// Code generated by x. DO NOT EDIT.\n\n"

// markGenerated marks some files as generated, or nearly so.
func (r *Run) markGenerated(cs []*pkgCase) {
	for _, c := range cs {
		for _, n := range sortedKeys(c.files) {
			if !strings.HasSuffix(n, ".go") || !r.P(1, 4) {
				continue
			}
			switch t := c.files[n]; r.Int(8) {
			case 0:
				c.files[n] = "// Code is generated by x. DO NOT EDIT.\n\n" + t
			case 1:
				c.files[n] = t + "\n" + strings.TrimSpace(generatedMark) + "\n"
			case 2:
				c.files[n] = "/* Code generated by x. DO NOT EDIT. */\n\n" + t
			default:
				c.files[n] = generatedMark + t
			}
		}
	}
}

// generatedOf are the files that count as generated, by their names in findings.
func generatedOf(cs []*pkgCase) map[string]bool {
	out := map[string]bool{}
	for _, c := range cs {
		for n, t := range c.files {
			if !strings.HasSuffix(n, ".go") {
				continue
			}
			f, _ := parser.ParseFile(token.NewFileSet(), n, t, parser.ParseComments|parser.PackageClauseOnly)
			if f != nil && ast.IsGenerated(f) {
				out[c.name+"/"+n] = true
			}
		}
	}
	return out
}

const externalPrefix = "external:"

// reduced is what the selection leaves of the findings of a scan of everything.
func (s selection) reduced(fs []Finding, gen map[string]bool, track bool) map[string]int {
	out := map[string]int{}
	for _, f := range fs {
		if s.exclGen && gen[f.File] || !track && !s.rule(f.Rule) {
			continue
		}
		out[selKey(f, !s.rule(f.Rule))]++
	}
	return out
}

// selKey names a finding and whether it was deselected.
func selKey(f Finding, out bool) string {
	if out {
		f.NoSec = false
	}
	var in []string
	for _, s := range f.Supp {
		if !strings.HasPrefix(s, externalPrefix) {
			in = append(in, s)
		}
	}
	f.Supp = in
	return fmt.Sprintf("%s deselected=%v", f.WithSupp(), out)
}

func keptOf(fs []Finding) map[string]int {
	out := map[string]int{}
	for _, f := range fs {
		ext := false
		for _, s := range f.Supp {
			ext = ext || strings.HasPrefix(s, externalPrefix)
		}
		out[selKey(f, ext)]++
	}
	return out
}

func (s selection) String() string {
	return fmt.Sprintf("include=%v exclude=%v exclude-generated=%v", s.include, s.exclude, s.exclGen)
}

func runC25(r *Run) {
	if r.P(1, 4) {
		r.c25CLI()
		return
	}
	o := r.ScanOpts()
	o.Include, o.Exclude, o.ExclGen = nil, nil, false
	r.oldGo()
	cs := r.statefulCases(1 + r.Int(3))
	if r.P(1, 2) {
		c := &pkgCase{name: fmt.Sprintf("p%d", len(cs)), mkdir: true}
		c.files, c.kind = r.goodFiles(c.name)
		cs = append(cs, c)
	}
	r.markGenerated(cs)
	w := r.caseSet(cs)
	root, paths := w.setup(false)
	var full *Scan
	r.Ref("scan with all rules", func() { full = DoScan(root, o, paths) })
	gen := generatedOf(cs)
	s := r.drawSelection(full.Findings)
	so := o
	so.Include, so.Exclude, so.ExclGen, so.Conc = s.include, s.exclude, s.exclGen, 1+r.Int(4)
	root, paths = w.setup(true)
	shuffle(r, paths)
	var part *Scan
	r.Sim(fmt.Sprintf("scan with %s", so), r.SimCfg(), func() { part = DoScan(root, so, paths) })
	if d := diffSets("the scan with all rules leaves", s.reduced(full.Findings, gen, o.Track), "the scan with the selection", keptOf(part.Findings)); d != "" {
		r.Fail("selection-inexact", "packages %v, %s, %s: the findings are not those of the selected rules in the scan with all:%s", w.desc, s, so, d)
	}
	if d := diffSets("the scan with all rules", errSet(full), "the scan with the selection", errSet(part)); d != "" {
		r.Fail("selection-changes-errors", "packages %v, %s: the errors differ:%s", w.desc, so, d)
	}
	if !s.exclGen && (full.Files != part.Files || full.Lines != part.Lines) {
		r.Fail("selection-changes-counts", "packages %v, %s: %d files and %d lines analysed, with all rules %d and %d", w.desc, so, part.Files, part.Lines, full.Files, full.Lines)
	}
	r.Key = fmt.Sprint(w.desc, so, r.Sync)
	r.Trivial = len(full.Findings) == 0
	r.Sample = fmt.Sprintf("packages %v, %s: %d findings of %d", w.desc, so, len(part.Findings), len(full.Findings))
}

// c25CLI decides the selection by flags and by the configuration.
func (r *Run) c25CLI() {
	o := r.CLIOpts()
	o.Include, o.Exclude, o.ExclGen = nil, nil, false
	o.Format, o.Quiet, o.NoFail, o.Out, o.Stdout, o.Verbose = "json", false, true, "", false, ""
	o.Paths = []string{"./..."}
	cs := r.cliCases(4, true)
	r.markGenerated(cs)
	t := r.newTree(cs)
	dirs := existing(t)
	if len(dirs) == 0 {
		r.Trivial, r.Key = true, "none"
		return
	}
	full := r.refScan(t, o, dirs)
	s := r.drawSelection(full.Findings)
	so := o
	so.ExclGen = s.exclGen
	conf := map[string]string{}
	// a flag takes the place of the setting in the configuration
	place := func(key string, ids []string, flag *[]string) {
		switch {
		case len(ids) == 0:
		case r.P(1, 2):
			*flag = ids
			if r.P(1, 3) {
				conf[key] = pick(r, allRuleIDs)
			}
		default:
			conf[key] = strings.Join(ids, ",")
		}
	}
	place("include", s.include, &so.Include)
	place("exclude", s.exclude, &so.Exclude)
	if len(conf) > 0 {
		so.ConfFile = filepath.Join(r.Dir, "conf.json")
		b, err := json.Marshal(map[string]any{"global": conf})
		if err == nil {
			err = os.WriteFile(so.ConfFile, b, 0o600)
		}
		if err != nil {
			world.HarnessFail("conf: %v", err)
		}
	}
	t = r.newTree(cs)
	got := r.CLI("gosec", r.spec(t, so, true), false)
	args := fmt.Sprintf("gosec %s with the configuration %v", strings.Join(so.Args(), " "), conf)
	if got.Code != 0 {
		r.Fail("selection-inexact", "%s: status %d, %s", args, got.Code, firstN(string(got.Stderr), 800))
	}
	_, fs, err := parseJSON(t.root, got.Stdout)
	if err != nil {
		r.Fail("selection-inexact", "%s: %v", args, err)
	}
	if d := diffSets("the scan with all rules leaves", s.reduced(o.filtered(full.Findings), generatedOf(cs), o.Track), "the report", keptOf(fs)); d != "" {
		r.Fail("selection-inexact", "%s: the findings are not those of the selected rules in the scan with all:%s", args, d)
	}
	r.Key = fmt.Sprint(args, r.Sync)
	r.Trivial = len(full.Findings) == 0
	r.Sample = fmt.Sprintf("%s: %d findings of %d", args, len(fs), len(full.Findings))
}
