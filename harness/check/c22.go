package check

import (
	"encoding/csv"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/securego/gosec/v2"
	"gopkg.in/yaml.v3"
)

func init() {
	register(&Prop{ID: "C22", Run: runC22})
}

// entry is what a format says about one finding; fields which the format does not
// carry are empty.
type entry struct {
	file, line, col, rule, what, sev, conf, cwe, code, fix, supp string
}

func (e entry) String() string {
	return fmt.Sprintf("%+q", [...]string{e.file, e.line, e.col, e.rule, e.what, e.sev, e.conf, e.cwe, e.code, e.fix, e.supp})
}

// content is what a report says.
type content struct {
	shown   []string // the snippets of a SARIF report
	entries []entry
	errs    []string // nil: the format carries none
	stats   string   // "": the format carries none
}

func strs(es []entry) []string {
	var out []string
	for _, e := range es {
		out = append(out, e.String())
	}
	return out
}

func jsonText(s string) string {
	if utf8.ValidString(s) {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); {
		c, n := utf8.DecodeRuneInString(s[i:])
		b.WriteRune(c) // an invalid byte becomes the replacement character
		i += n
	}
	return b.String()
}

func xmlText(s string) string {
	var b strings.Builder
	for _, c := range jsonText(s) {
		if c == 0x09 || c == 0x0A || c == 0x0D || c >= 0x20 && c <= 0xD7FF || c >= 0xE000 && c <= 0xFFFD || c >= 0x10000 && c <= 0x10FFFF {
			b.WriteRune(c)
		} else {
			b.WriteRune('\uFFFD')
		}
	}
	return b.String()
}

var sonarSeverity = map[string]string{"LOW": "MINOR", "MEDIUM": "MAJOR", "HIGH": "BLOCKER"}
var sarifLevel = map[string]string{"LOW": "warning", "MEDIUM": "error", "HIGH": "error"}

// below are the names a file may have relative to one of the roots.
func below(file string, roots []string) []string {
	var out []string
	for _, x := range roots {
		if rel, ok := strings.CutPrefix(file, strings.TrimSuffix(x, "/")+"/"); ok {
			out = append(out, rel)
		}
	}
	return out
}

// expectEntry is what the format has to say about a finding.
func expectEntry(format string, f Finding) entry {
	lo, hi := lineRange(f.Line)
	id := f.CWE
	if id == "" {
		id = "0000"
	}
	switch format {
	case "json", "yaml", "html":
		e := entry{file: f.File, line: f.Line, col: f.Col, rule: f.Rule, what: f.What, sev: f.Sev, conf: f.Conf, cwe: f.CWE, code: f.Code, fix: f.Fix, supp: strings.Join(f.Supp, "|")}
		if format != "yaml" {
			e.code, e.what, e.file = jsonText(e.code), jsonText(e.what), jsonText(e.file)
		}
		return e
	case "csv":
		return entry{file: f.File, line: f.Line, what: f.What, sev: f.Sev, conf: f.Conf, code: strings.ReplaceAll(f.Code, "\r\n", "\n"), cwe: "CWE-" + id}
	case "golint":
		w := f.What
		if f.CWE != "" {
			w = "[CWE-" + f.CWE + "] " + w
		}
		return entry{what: fmt.Sprintf("%s:%d:%s: %s (Rule:%s, Severity:%s, Confidence:%s)", f.File, lo, f.Col, w, f.Rule, f.Sev, f.Conf)}
	case "sonarqube":
		return entry{file: f.File, line: fmt.Sprintf("%d-%d", lo, hi), rule: f.Rule, what: jsonText(f.What), sev: sonarSeverity[f.Sev]}
	case "sarif":
		return entry{file: f.File, line: fmt.Sprintf("%d-%d", lo, hi), col: f.Col, rule: f.Rule, what: jsonText(f.What), sev: sarifLevel[f.Sev], supp: strings.Join(f.Supp, "|"), fix: jsonText(f.Fix)}
	case "junit-xml":
		if id == "0000" {
			id = "CWE"
		}
		return entry{file: xmlText(f.File), line: f.Line, what: xmlText(f.What), sev: fmt.Sprint(score(f.Sev)), conf: fmt.Sprint(score(f.Conf)), cwe: id, code: xmlText(f.Code), fix: xmlText(f.Fix)}
	}
	return entry{}
}

type dataIssue struct {
	Severity   string `json:"severity" yaml:"severity"`
	Confidence string `json:"confidence" yaml:"confidence"`
	Cwe        struct {
		ID string `json:"id" yaml:"id"`
	} `json:"cwe" yaml:"cwe"`
	RuleID       string `json:"rule_id" yaml:"ruleid"`
	What         string `json:"details" yaml:"what"`
	File         string `json:"file" yaml:"file"`
	Code         string `json:"code" yaml:"code"`
	Line         string `json:"line" yaml:"line"`
	Col          string `json:"column" yaml:"col"`
	Suppressions []struct {
		Kind          string `json:"kind" yaml:"kind"`
		Justification string `json:"justification" yaml:"justification"`
	} `json:"suppressions" yaml:"suppressions"`
	Autofix string `json:"autofix" yaml:"autofix"`
}

type dataReport struct {
	Errors map[string][]struct {
		Line   int    `json:"line" yaml:"line"`
		Column int    `json:"column" yaml:"column"`
		Err    string `json:"error" yaml:"err"`
	} `json:"Golang errors" yaml:"errors"`
	Issues []dataIssue `json:"Issues" yaml:"issues"`
	Stats  struct {
		Files int `json:"files" yaml:"numfiles"`
		Lines int `json:"lines" yaml:"numlines"`
		Nosec int `json:"nosec" yaml:"numnosec"`
		Found int `json:"found" yaml:"numfound"`
	} `json:"Stats" yaml:"stats"`
	GosecVersion string `json:"GosecVersion" yaml:"gosecversion"`
}

func (d *dataReport) content(yamlScores bool) content {
	var c content
	for _, i := range d.Issues {
		if yamlScores {
			if n, err := strconv.Atoi(i.Severity); err == nil && n >= 0 && n < 3 {
				i.Severity = []string{"LOW", "MEDIUM", "HIGH"}[n]
			}
			if n, err := strconv.Atoi(i.Confidence); err == nil && n >= 0 && n < 3 {
				i.Confidence = []string{"LOW", "MEDIUM", "HIGH"}[n]
			}
		}
		e := entry{file: i.File, line: i.Line, col: i.Col, rule: i.RuleID, what: i.What, sev: i.Severity, conf: i.Confidence, cwe: i.Cwe.ID, code: i.Code, fix: i.Autofix}
		var ss []string
		for _, s := range i.Suppressions {
			ss = append(ss, s.Kind+":"+s.Justification)
		}
		e.supp = strings.Join(ss, "|")
		c.entries = append(c.entries, e)
	}
	c.errs = []string{}
	for f, es := range d.Errors {
		for _, e := range es {
			c.errs = append(c.errs, fmt.Sprintf("%s:%d:%d: %s", f, e.Line, e.Column, e.Err))
		}
	}
	sort.Strings(c.errs)
	c.stats = fmt.Sprint(d.Stats.Files, d.Stats.Lines, d.Stats.Nosec, d.Stats.Found)
	return c
}

// readReport reads what a report says. The text format is judged by textReport.
func (r *Run) readReport(what, format string, raw []byte, roots []string) content {
	bad := func(f string, a ...any) {
		r.Fail("unreadable-report", "%s: the %s report cannot be read: %s\n%s", what, format, fmt.Sprintf(f, a...), firstN(string(raw), 3000))
	}
	var c content
	switch format {
	case "json", "html":
		var d dataReport
		if format == "html" {
			s := string(raw)
			k := strings.Index(s, "var data = ")
			if k < 0 {
				bad("no data")
			}
			if err := json.NewDecoder(strings.NewReader(s[k+len("var data = "):])).Decode(&d); err != nil {
				bad("%v", err)
			}
			if !strings.HasSuffix(strings.TrimSpace(s), "</html>") {
				bad("no end")
			}
		} else if err := json.Unmarshal(raw, &d); err != nil {
			bad("%v", err)
		}
		return d.content(false)
	case "yaml":
		var d dataReport
		if err := yaml.Unmarshal(raw, &d); err != nil {
			bad("%v", err)
		}
		return d.content(true)
	case "csv":
		rd := csv.NewReader(strings.NewReader(string(raw)))
		rd.FieldsPerRecord = 7
		recs, err := rd.ReadAll()
		if err != nil {
			bad("%v", err)
		}
		for _, x := range recs {
			c.entries = append(c.entries, entry{file: x[0], line: x[1], what: x[2], sev: x[3], conf: x[4], code: x[5], cwe: x[6]})
		}
	case "sonarqube":
		var d struct {
			Issues []struct {
				EngineID        string `json:"engineId"`
				RuleID          string `json:"ruleId"`
				PrimaryLocation struct {
					Message   string `json:"message"`
					FilePath  string `json:"filePath"`
					TextRange struct {
						StartLine int `json:"startLine"`
						EndLine   int `json:"endLine"`
					} `json:"textRange"`
				} `json:"primaryLocation"`
				Severity string `json:"severity"`
			} `json:"issues"`
		}
		if err := json.Unmarshal(raw, &d); err != nil {
			bad("%v", err)
		}
		for _, i := range d.Issues {
			c.entries = append(c.entries, entry{file: i.PrimaryLocation.FilePath, line: fmt.Sprintf("%d-%d", i.PrimaryLocation.TextRange.StartLine, i.PrimaryLocation.TextRange.EndLine), rule: i.RuleID, what: i.PrimaryLocation.Message, sev: i.Severity})
		}
	case "sarif":
		var d struct {
			Runs []struct {
				Results []struct {
					RuleID  string `json:"ruleId"`
					Level   string `json:"level"`
					Message struct {
						Text string `json:"text"`
					} `json:"message"`
					Locations []struct {
						PhysicalLocation struct {
							ArtifactLocation struct {
								URI string `json:"uri"`
							} `json:"artifactLocation"`
							Region struct {
								StartLine   int `json:"startLine"`
								EndLine     int `json:"endLine"`
								StartColumn int `json:"startColumn"`
								Snippet     struct {
									Text string `json:"text"`
								} `json:"snippet"`
							} `json:"region"`
						} `json:"physicalLocation"`
					} `json:"locations"`
					Suppressions []struct {
						Kind          string `json:"kind"`
						Justification string `json:"justification"`
					} `json:"suppressions"`
					Fixes []struct {
						Description struct {
							Markdown string `json:"markdown"`
						} `json:"description"`
					} `json:"fixes"`
				} `json:"results"`
			} `json:"runs"`
		}
		if err := json.Unmarshal(raw, &d); err != nil || len(d.Runs) != 1 {
			bad("%v", err)
		}
		for _, i := range d.Runs[0].Results {
			if len(i.Locations) != 1 {
				bad("%d locations", len(i.Locations))
			}
			l := i.Locations[0].PhysicalLocation
			e := entry{file: l.ArtifactLocation.URI, line: fmt.Sprintf("%d-%d", l.Region.StartLine, l.Region.EndLine), col: fmt.Sprint(l.Region.StartColumn), rule: i.RuleID, what: i.Message.Text, sev: i.Level}
			var ss []string
			for _, s := range i.Suppressions {
				ss = append(ss, s.Kind+":"+s.Justification)
			}
			e.supp = strings.Join(ss, "|")
			for _, x := range i.Fixes {
				e.fix += x.Description.Markdown
			}
			c.entries = append(c.entries, e)
			c.shown = append(c.shown, l.Region.Snippet.Text)
		}
	case "junit-xml":
		var d struct {
			Suites []struct {
				Name  string `xml:"name,attr"`
				Tests int    `xml:"tests,attr"`
				Cases []struct {
					Name    string `xml:"name,attr"`
					Failure struct {
						Text string `xml:",chardata"`
					} `xml:"failure"`
				} `xml:"testcase"`
			} `xml:"testsuite"`
		}
		if err := xml.Unmarshal(raw, &d); err != nil {
			bad("%v", err)
		}
		for _, s := range d.Suites {
			if s.Tests != len(s.Cases) {
				bad("suite %q announces %d tests and has %d", s.Name, s.Tests, len(s.Cases))
			}
			for _, x := range s.Cases {
				e, ok := readFailure(x.Name, s.Name, x.Failure.Text)
				if !ok {
					bad("failure %q", x.Failure.Text)
				}
				c.entries = append(c.entries, e)
			}
		}
	case "golint":
		for _, l := range strings.Split(strings.TrimSuffix(string(raw), "\n"), "\n") {
			if l == "" {
				continue
			}
			c.entries = append(c.entries, entry{what: l})
		}
	}
	return c
}

// readFailure reads the description of a finding in a JUnit report.
func readFailure(file, suite, text string) (entry, bool) {
	e := entry{file: file, what: suite}
	rest, ok := strings.CutPrefix(text, "Results:\n["+file+":")
	if !ok {
		return e, false
	}
	e.line, rest, ok = strings.Cut(rest, "] - "+suite+" (Confidence: ")
	if !ok {
		return e, false
	}
	e.conf, rest, ok = strings.Cut(rest, ", Severity: ")
	if !ok {
		return e, false
	}
	e.sev, rest, ok = strings.Cut(rest, ", CWE: ")
	if !ok {
		return e, false
	}
	e.cwe, rest, ok = strings.Cut(rest, ")\n> ")
	if !ok {
		return e, false
	}
	k := strings.LastIndex(rest, "\n Autofix: ")
	if k < 0 {
		return e, false
	}
	e.code, e.fix = rest[:k], rest[k+len("\n Autofix: "):]
	return e, true
}

// numbered splits a snippet of numbered lines, if it is one.
func numbered(code string) (first int, lines []string, ok bool) {
	for k, l := range strings.Split(strings.TrimSuffix(code, "\n"), "\n") {
		no, text, cut := strings.Cut(l, ": ")
		n, err := strconv.Atoi(no)
		if !cut || err != nil || k > 0 && n != first+k || strings.ContainsAny(text, "\r") {
			return 0, nil, false
		}
		if k == 0 {
			first = n
		}
		lines = append(lines, text)
	}
	return first, lines, len(lines) > 0
}

// showsLines decides whether the text consists of the finding's lines out of its
// snippet, up to space around them.
func showsLines(f Finding, shown string) bool {
	first, lines, ok := numbered(jsonText(f.Code))
	lo, hi := lineRange(f.Line)
	if !ok || lo < first || hi >= first+len(lines) {
		return true
	}
	return strings.Join(strings.Fields(strings.Join(lines[lo-first:hi-first+1], "\n")), " ") == strings.Join(strings.Fields(shown), " ")
}

// listed are the findings which a report in the format has to list, in order.
func listed(format string, fs []Finding) []Finding {
	if format == "json" || format == "sarif" {
		return fs
	}
	var out []Finding
	for _, f := range fs {
		if len(f.Supp) == 0 {
			out = append(out, f)
		}
	}
	return out
}

// checkReport decides whether a report lists the findings, errors and counters.
func (r *Run) checkReport(what, format string, raw []byte, roots []string, fs []Finding, errs map[string][]gosec.Error, stats string, ordered bool, norm func(string) string) {
	fs = listed(format, fs)
	if format == "text" {
		r.textReport(what, string(raw), fs, errs, stats, ordered, norm)
		return
	}
	got := r.readReport(what, format, raw, roots)
	var want []entry
	for _, f := range fs {
		want = append(want, expectEntry(format, f))
	}
	if len(got.entries) != len(want) {
		r.Fail("findings-differ", "%s: the %s report lists %d findings of %d:\n%s\nof\n%s", what, format, len(got.entries), len(want), strings.Join(strs(got.entries), "\n"), strings.Join(strs(want), "\n"))
	}
	if format == "sonarqube" || format == "sarif" {
		// the names are relative to a root
		byRest := map[string][]int{}
		key := func(e entry) string { e.file = ""; return e.String() }
		for k, e := range want {
			byRest[key(e)] = append(byRest[key(e)], k)
		}
		for k, e := range got.entries {
			ok := false
			cands := byRest[key(e)]
			if ordered {
				cands = []int{k}
			}
			for n, w := range cands {
				if key(want[w]) == key(e) && contains(below(want[w].file, roots), e.file) && (format != "sarif" || showsLines(fs[w], got.shown[k])) {
					ok = true
					if !ordered {
						byRest[key(e)] = append(append([]int(nil), cands[:n]...), cands[n+1:]...)
					}
					break
				}
			}
			if !ok {
				shown := ""
				if format == "sarif" {
					shown = fmt.Sprintf(" with the snippet %q", got.shown[k])
				}
				r.Fail("findings-differ", "%s: the %s report lists %s%s below the roots %v, the findings are\n%s", what, format, e, shown, roots, strings.Join(strs(want), "\n"))
			}
		}
	} else {
		a, b := strs(want), strs(got.entries)
		if format == "junit-xml" || !ordered {
			sort.Strings(a)
			sort.Strings(b)
		}
		for k := range a {
			if a[k] != b[k] {
				r.Fail("findings-differ", "%s: the %s report says %s about the finding %s", what, format, b[k], a[k])
			}
		}
	}
	if got.errs != nil {
		var w []string
		for f, es := range errs {
			for _, x := range es {
				e := norm(fmt.Sprintf("%s:%d:%d: %s", f, x.Line, x.Column, x.Err))
				if format != "yaml" {
					e = jsonText(e)
				}
				w = append(w, e)
			}
		}
		for k, e := range got.errs {
			got.errs[k] = norm(e)
		}
		sort.Strings(got.errs)
		sort.Strings(w)
		if strings.Join(w, "\n") != strings.Join(got.errs, "\n") {
			r.Fail("errors-differ", "%s: the %s report lists the errors\n%s\nof\n%s", what, format, strings.Join(got.errs, "\n"), strings.Join(w, "\n"))
		}
	}
	if got.stats != "" && stats != "" && got.stats != stats {
		r.Fail("counters-differ", "%s: the %s report has the counters %s of %s", what, format, got.stats, stats)
	}
}

// textReport decides the report for people: every finding has its heading, followed
// by its snippet, in order.
func (r *Run) textReport(what, raw string, fs []Finding, errs map[string][]gosec.Error, stats string, ordered bool, norm func(string) string) {
	heads := map[string]int{}
	at := 0
	for _, f := range fs {
		nosec := ""
		if f.NoSec {
			nosec = " (NoSec)"
		}
		w := "CWE"
		if f.CWE != "" {
			w = "CWE-" + f.CWE
		}
		head := fmt.Sprintf("\n[%s:%s] - %s%s (%s): %s (Confidence: %s, Severity: %s)\n", f.File, f.Line, f.Rule, nosec, w, f.What, f.Conf, f.Sev)
		heads[head]++
		if !ordered {
			continue
		}
		k := strings.Index(raw[at:], head)
		if k < 0 {
			r.Fail("findings-differ", "%s: the text report lacks the finding %q (or its place in the order):\n%s", what, head, firstN(raw, 4000))
		}
		at += k + len(head) - 1
		first, _, wellFormed := numbered(f.Code)
		lo, hi := lineRange(f.Line)
		for n, l := range strings.Split(strings.TrimSuffix(f.Code, "\n"), "\n") {
			l = strings.TrimSuffix(l, "\r")
			if l == "" {
				continue
			}
			k := strings.Index(raw[at:], l+"\n")
			if k < 0 {
				r.Fail("findings-differ", "%s: the text report lacks the line %q of the finding %q:\n%s", what, l, head, firstN(raw, 4000))
			}
			if k > 0 && wellFormed {
				before := raw[at : at+k]
				before = before[strings.LastIndex(before, "\n")+1:]
				if flagged := lo <= first+n && first+n <= hi; lo >= first && strings.Contains(before, ">") != flagged {
					r.Fail("findings-differ", "%s: the text report shows the line %q of the finding %q behind %q:\n%s", what, l, head, before, firstN(raw, 4000))
				}
			}
			at += k
		}
	}
	n := 0
	for h, k := range heads {
		c := strings.Count(raw, h)
		n += c
		if c != k {
			r.Fail("findings-differ", "%s: the text report lists %q %d times instead of %d", what, h, c, k)
		}
	}
	raw = norm(raw)
	for f, es := range errs {
		f = norm(f)
		h := "Golang errors in file: [" + f + "]:\n"
		k := strings.Index(raw, h)
		if k < 0 {
			r.Fail("errors-differ", "%s: the text report lacks the errors of %s:\n%s", what, f, firstN(raw, 4000))
		}
		rest := raw[k+len(h):]
		for _, e := range es {
			l := fmt.Sprintf("\n  > [line %d : column %d] - %s\n", e.Line, e.Column, norm(e.Err))
			k := strings.Index(rest, l)
			if k < 0 {
				r.Fail("errors-differ", "%s: the text report lacks the error %q of %s:\n%s", what, l, f, firstN(raw, 4000))
			}
			rest = rest[k+len(l)-1:]
		}
	}
	if m := textStats.FindStringSubmatch(raw); m == nil {
		r.Fail("unreadable-report", "%s: the text report has no summary:\n%s", what, firstN(raw, 4000))
	} else if s := strings.Join(m[1:], " "); stats != "" && s != stats {
		r.Fail("counters-differ", "%s: the text report has the counters %s of %s", what, s, stats)
	}
}

// runC22 reads back every report of findings as a scan could yield them.
func runC22(r *Run) {
	if r.P(1, 6) {
		r.c22CLI()
		return
	}
	ri, roots := r.genReport(10)
	format := pick(r, formats)
	lineFormat := format == "golint" || format == "text"
	var fs []Finding
	for _, i := range ri.Issues {
		if lineFormat {
			i.What = strings.ReplaceAll(i.What, "\n", " ")
		}
		if r.P(1, 8) {
			i.Code = pick(r, []string{"5: \x00\xff\xfe\x1b[31m\n", "6: a\u2028b </script><!-- ]]> -->\n", "7: \"a\",b;\"\"\n8: 'x' {{.}}\n", "9: " + strings.Repeat("x", 3000) + "\n", "1: \ufffe\u0085\n", "3: - a: b\n4: # c\n", "5: ~\n"})
			r.Fired["odd-snippet"]++
		}
		fs = append(fs, toFinding("", i))
	}
	for k := range fs {
		fs[k].File = ri.Issues[k].File
	}
	stats := fmt.Sprint(ri.Stats.NumFiles, ri.Stats.NumLines, ri.Stats.NumNosec, ri.Stats.NumFound)
	if format == "sonarqube" || format == "sarif" {
		var keep []Finding
		kept := ri.Issues[:0:0]
		for k, f := range fs {
			if len(below(f.File, roots)) > 0 {
				keep, kept = append(keep, f), append(kept, ri.Issues[k])
			}
		}
		fs, ri.Issues = keep, kept
	}
	what := fmt.Sprintf("%d findings below %v", len(fs), roots)
	var raw []byte
	var err error
	r.Sim(format+" report of "+what, r.SimCfg(), func() { raw, err = render(format, false, roots, ri) })
	if err != nil {
		r.Fail("report-fails", "%s: the %s report fails: %v", what, format, err)
	}
	r.checkReport(what, format, raw, roots, fs, ri.Errors, stats, true, func(s string) string { return s })
	r.Key = fmt.Sprint(format, hashString(strings.Join(func() (x []string) {
		for _, f := range fs {
			x = append(x, f.WithSupp())
		}
		return
	}(), "\n")))
	r.Trivial = len(fs) == 0
	r.Sample = fmt.Sprintf("%s report of %s: %d bytes", format, what, len(raw))
}

// c22CLI reads back the reports of the command and compares them with what the
// scan of the same packages yields.
func (r *Run) c22CLI() {
	cs := r.cliCases(4, true)
	t := r.newTree(cs)
	o := r.CLIOpts()
	o.Quiet, o.NoColor = false, true
	o.Unsorted = r.P(1, 3)
	if r.P(1, 2) {
		o.Format, o.Verbose, o.Stdout, o.Out = pick(r, formats), pick(r, formats), true, filepath.Join(r.Dir, "report")
	}
	recursive := r.P(1, 2)
	o.Paths = []string{"./..."}
	dirs := existing(t)
	if !recursive {
		// every directory is a root of its own
		o.Paths, dirs = nil, nil
		for _, c := range cs {
			if len(goNames(c.files)) > 0 && !strings.Contains(c.name, "/") {
				o.Paths = append(o.Paths, "./"+c.name)
				dirs = append(dirs, filepath.Join(t.root, c.name))
			}
		}
		shuffle(r, o.Paths)
	} else if r.P(1, 3) {
		// no path at all stands for the current directory and everything below
		o.Paths, o.Recursive = nil, true
	}
	if len(dirs) == 0 {
		r.Trivial, r.Key = true, "none"
		return
	}
	ref := r.refScan(t, o, dirs)
	t = r.newTree(cs)
	got := r.CLI("gosec", r.spec(t, o, true), false)
	args := "gosec " + strings.Join(o.Args(), " ")
	roots := []string{}
	if o.Recursive {
		roots = append(roots, t.root)
	}
	for _, p := range o.Paths {
		roots = append(roots, filepath.Join(t.root, strings.TrimSuffix(p, "...")))
	}
	fs := o.filtered(ref.Findings)
	for k := range fs {
		fs[k].File = filepath.Join(t.root, fs[k].File)
	}
	active := 0
	for _, f := range fs {
		if len(f.Supp) == 0 && !(f.NoSec && o.ShowIgnored) {
			active++
		}
	}
	stats := fmt.Sprint(ref.Files, ref.Lines, ref.Nosec, active)
	// the command was given relative paths
	norm := func(s string) string { return strings.ReplaceAll(strings.ReplaceAll(s, t.root+"/", ""), "./", "") }
	check := func(format string, raw []byte) {
		r.checkReport(args, format, raw, roots, fs, ref.errs, stats, false, norm)
	}
	if o.Out == "" {
		check(o.Format, got.Stdout)
	} else {
		file, err := os.ReadFile(o.Out)
		if err != nil {
			r.Fail("report-missing", "%s: %v", args, err)
		}
		check(o.Verbose, got.Stdout)
		check(o.Format, file)
	}
	r.Key = fmt.Sprint(args, r.Sync)
	r.Trivial = len(fs) == 0
	r.Sample = fmt.Sprintf("%s: %d findings", args, len(fs))
}
