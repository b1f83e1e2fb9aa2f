package check

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"gopkg.in/yaml.v3"
)

func init() {
	register(&Prop{ID: "C21", Run: runC21})
}

// counts of a scan; nosec is -1 when the meaning of a comment is not specified.
type counts struct {
	files, lines, nosec int
}

// expectCounts computes what is analysed of the cases.
func expectCounts(cs []*pkgCase, o Opts) counts {
	var n counts
	tags := []string{"nosec"}
	if o.AltTag != "" {
		tags = append(tags, o.AltTag)
	}
	for _, c := range cs {
		if c.expect == "error" || c.expect == "skip" {
			continue
		}
		for _, f := range goNames(c.files) {
			if c.kind == "unreadable-at-load" && strings.HasSuffix(c.faults[0].Suffix, "/"+f) {
				continue
			}
			src := c.files[f]
			af, err := parser.ParseFile(token.NewFileSet(), f, src, parser.ParseComments)
			if err != nil {
				n.files = -1
				return n
			}
			if o.ExclGen && ast.IsGenerated(af) {
				continue
			}
			n.files++
			n.lines += len(strings.Split(strings.TrimSuffix(src, "\n"), "\n"))
			ds, ok := directivesOf(src, tags)
			if !ok {
				n.nosec = -1 << 20
			}
			if !o.NoSec {
				n.nosec += len(ds)
			}
		}
	}
	if n.nosec < 0 {
		n.nosec = -1
	}
	return n
}

// countCases draws packages with directives, generated files and failures.
func (r *Run) countCases(o Opts) []*pkgCase {
	var cs []*pkgCase
	for i := 0; i < 1+r.Int(5); i++ {
		c := r.genCase(i, r.P(1, 3))
		if c.kind == "syntax-error" {
			delete(c.files, "zz_syntax.go")
			c.kind, c.expect = "ok", "ok"
		}
		if c.expect == "ok" && r.P(1, 2) {
			x, _, _ := r.suppCase(o)
			c.files = x[0].files
		}
		if len(goNames(c.files)) > 0 && c.expect == "ok" && r.P(1, 2) {
			gen := "// Code generated by x. DO NOT EDIT.\n\npackage " + clauseOf(c.files) + "\n\nimport \"os\"\n\nfunc zzGen() {\n\tos.Chdir(\"/\")\n\tos.Chdir(\".\") // #nosec\n}"
			switch r.Int(5) {
			case 0:
				gen += "\n"
			case 1:
				gen = strings.Replace(gen, "// Code generated by x. DO NOT EDIT.\n", "// Copyright.\n//\n// Code generated by x. DO NOT EDIT.\n//\n// More.\n", 1)
			case 2:
				gen = strings.Replace(gen, "// Code generated by x. DO NOT EDIT.\n", "// Code is generated by x. DO NOT EDIT.\n", 1) // it is not
			case 3:
				gen = strings.ReplaceAll(gen, "\n", "\r\n")
			}
			c.files["zz_gen.go"] = gen
		}
		if len(goNames(c.files)) > 0 && c.expect == "ok" && r.P(1, 6) {
			c.files["zz_one.go"] = "package " + clauseOf(c.files) + pick(r, []string{"", "\n", "; func zzOne() { println() } // #nosec", ";"})
			r.Fired["shape-one-line-file"]++
		}
		cs = append(cs, c)
	}
	return cs
}

func runC21(r *Run) {
	if r.P(1, 8) {
		r.c21CLI()
		return
	}
	o := r.ScanOpts()
	o.ExclGen = r.P(1, 2)
	cs := r.countCases(o)
	want := expectCounts(cs, o)
	root, paths := r.fresh(cs)
	r.install(root, cs, true)
	o.Conc = 1 + r.Int(5)
	var got *Scan
	r.Sim(fmt.Sprintf("scan with %v", o), r.SimCfg(), func() { got = DoScan(root, o, paths) })
	if got.Err != "" {
		r.Fail("scan-aborted", "the scan returned %s", got.Err)
	}
	var kinds []string
	for _, c := range cs {
		kinds = append(kinds, c.kind)
	}
	if want.files >= 0 {
		r.judgeCounts(fmt.Sprintf("the scan of %v with %v", kinds, o), want, got.Files, got.Lines, got.Nosec)
	}
	r.Key = fmt.Sprint(kinds, o, want, r.Sync)
	r.Trivial = want.files <= 0
	r.Sample = fmt.Sprintf("%v with %v: %s", kinds, o, metricsString(got))
}

func (r *Run) judgeCounts(what string, want counts, files, lines, nosec int) {
	if files != want.files {
		r.Fail("file-counter", "%s counts %d files, %d were analysed", what, files, want.files)
	}
	if lines != want.lines {
		r.Fail("line-counter", "%s counts %d lines, the %d analysed files have %d", what, lines, want.files, want.lines)
	}
	if want.nosec >= 0 {
		r.Probe("directives-known")
		if nosec != want.nosec {
			r.Fail("nosec-counter", "%s counts %d directives, the analysed files have %d", what, nosec, want.nosec)
		}
	}
}

var textStats = regexp.MustCompile(`Files  : (\d+)\n  Lines  : (\d+)\n  Nosec  : (\d+)\n  Issues : (\d+)\n`)

// stat reads the counters of a report.
func (r *Run) statsOf(format string, raw []byte) (files, lines, nosec, found, listed int) {
	type report struct {
		Issues []struct {
			Nosec        bool  `json:"nosec" yaml:"nosec"`
			Suppressions []any `json:"suppressions" yaml:"suppressions"`
		} `json:"Issues" yaml:"issues"`
		Stats struct {
			Files    int `json:"files" yaml:"numfiles"`
			Lines    int `json:"lines" yaml:"numlines"`
			Nosec    int `json:"nosec" yaml:"numnosec"`
			NumFound int `json:"found" yaml:"numfound"`
		} `json:"Stats" yaml:"stats"`
	}
	var j report
	var err error
	switch format {
	case "json":
		err = json.Unmarshal(raw, &j)
	case "yaml":
		err = yaml.Unmarshal(raw, &j)
	case "html":
		s := string(raw)
		k := strings.Index(s, "var data = ")
		if k < 0 {
			r.Fail("no-counters", "the HTML report holds no data")
		}
		err = json.NewDecoder(strings.NewReader(s[k+len("var data = "):])).Decode(&j)
	case "text":
		m := textStats.FindStringSubmatch(string(raw))
		if m == nil {
			r.Fail("no-counters", "the text report holds no summary: %s", firstN(string(raw), 2000))
		}
		n := func(i int) int { x, _ := strconv.Atoi(m[i]); return x }
		return n(1), n(2), n(3), n(4), -1
	}
	if err != nil {
		r.Fail("no-counters", "the %s report cannot be read: %v", format, err)
	}
	for _, i := range j.Issues {
		if !i.Nosec && len(i.Suppressions) == 0 {
			listed++
		}
	}
	return j.Stats.Files, j.Stats.Lines, j.Stats.Nosec, j.Stats.NumFound, listed
}

// c21CLI decides the counters of the command's reports.
func (r *Run) c21CLI() {
	o := r.CLIOpts()
	o.ExclGen = r.P(1, 2)
	cs := r.countCases(o.Opts)
	recursive := r.P(1, 2)
	if recursive {
		var keep []*pkgCase
		for _, c := range cs {
			if c.mkdir && c.kind != "readdir-fault" {
				keep = append(keep, c)
			}
		}
		cs = keep
		if len(cs) == 0 || len(allGo(cs[0].files)) == 0 {
			cs = []*pkgCase{r.genCase(9, true)}
		}
	}
	want := expectCounts(cs, o.Opts)
	t := r.newTree(cs)
	o.Paths = []string{"./..."}
	if !recursive {
		o.Paths = t.dirs()
		shuffle(r, o.Paths)
	}
	o.Quiet, o.NoFail = false, true
	o.Format, o.Verbose, o.Stdout = pick(r, []string{"json", "yaml", "html", "text"}), pick(r, []string{"json", "yaml", "html"}), true
	o.Out = filepath.Join(r.Dir, "report")
	var dirs []string
	for _, p := range o.Paths {
		if !recursive {
			dirs = append(dirs, filepath.Join(t.root, p))
		}
	}
	if recursive {
		for _, c := range cs {
			if len(allGo(c.files)) > 0 {
				dirs = append(dirs, filepath.Join(t.root, c.name))
			}
		}
	}
	ref := r.refScan(t, o, dirs)
	active := 0
	unclear := false
	for _, f := range o.filtered(ref.Findings) {
		if f.Active() {
			active++
		}
		unclear = unclear || (f.NoSec && !o.ShowIgnored)
	}
	t = r.newTree(cs)
	got := r.CLI("gosec", r.spec(t, o, true), false)
	args := strings.Join(o.Args(), " ")
	if got.Code != 0 {
		r.Fail("no-counters", "gosec %s: status %d, %s", args, got.Code, firstN(string(got.Stderr), 800))
	}
	file, err := os.ReadFile(o.Out)
	if err != nil {
		r.Fail("no-counters", "gosec %s: %v", args, err)
	}
	for k, raw := range [][]byte{got.Stdout, file} {
		format := []string{o.Verbose, o.Format}[k]
		files, lines, nosec, found, listed := r.statsOf(format, raw)
		what := fmt.Sprintf("the %s report of gosec %s", format, args)
		if want.files >= 0 {
			r.judgeCounts(what, want, files, lines, nosec)
		}
		if listed >= 0 && found != listed {
			r.Fail("found-counter", "%s counts %d findings, it lists %d unsuppressed ones", what, found, listed)
		}
		if found != active && !unclear {
			r.Fail("found-counter", "%s counts %d findings, the packages have %d unsuppressed ones", what, found, active)
		}
	}
	r.Key = fmt.Sprint(args, want, active, r.Sync)
	r.Trivial = want.files <= 0
	r.Sample = fmt.Sprintf("gosec %s: %v, %d findings", args, want, active)
}
