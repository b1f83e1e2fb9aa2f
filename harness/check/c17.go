package check

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

func init() {
	register(&Prop{ID: "C17", Run: runC17})
}

type sarifRef struct {
	Target struct {
		ID            string `json:"id"`
		GUID          string `json:"guid"`
		ToolComponent struct {
			Name string `json:"name"`
		} `json:"toolComponent"`
	} `json:"target"`
}

type sarifReport struct {
	Runs []struct {
		Tool struct {
			Driver struct {
				Rules []struct {
					ID            string      `json:"id"`
					Relationships []*sarifRef `json:"relationships"`
				} `json:"rules"`
			} `json:"driver"`
		} `json:"tool"`
		Taxonomies []struct {
			Name string `json:"name"`
			Taxa []struct {
				ID   string `json:"id"`
				GUID string `json:"guid"`
			} `json:"taxa"`
		} `json:"taxonomies"`
		Results []struct {
			RuleID    string `json:"ruleId"`
			RuleIndex int    `json:"ruleIndex"`
			Message   struct {
				Text string `json:"text"`
			} `json:"message"`
			Locations []struct {
				PhysicalLocation struct {
					ArtifactLocation struct {
						URI string `json:"uri"`
					} `json:"artifactLocation"`
					Region struct {
						StartLine   int `json:"startLine"`
						EndLine     int `json:"endLine"`
						StartColumn int `json:"startColumn"`
						EndColumn   int `json:"endColumn"`
					} `json:"region"`
				} `json:"physicalLocation"`
			} `json:"locations"`
			Suppressions []struct {
				Kind          string `json:"kind"`
				Justification string `json:"justification"`
			} `json:"suppressions"`
		} `json:"results"`
	} `json:"runs"`
}

// checkSARIF decides the consistency of a report for the findings, in order.
func (r *Run) checkSARIF(raw []byte, fs []Finding, what string) {
	var s sarifReport
	if err := json.Unmarshal(raw, &s); err != nil {
		r.Fail("not-json", "%s: the SARIF report cannot be decoded: %v", what, err)
	}
	if len(s.Runs) != 1 {
		r.Fail("runs", "%s: %d runs", what, len(s.Runs))
	}
	run := s.Runs[0]
	rules := run.Tool.Driver.Rules
	seen := map[string]bool{}
	for _, d := range rules {
		if seen[d.ID] {
			r.Fail("duplicate-rule", "%s: rule %s is described twice", what, d.ID)
		}
		seen[d.ID] = true
	}
	taxa := map[string]bool{}
	guids := map[string]string{} // of the weakness, and the other way round
	for _, tx := range run.Taxonomies {
		for _, x := range tx.Taxa {
			if o := guids["guid "+x.GUID]; x.GUID != "" && o != "" && o != x.ID {
				r.Fail("duplicate-taxon", "%s: the weaknesses %s and %s share the identifier %s", what, o, x.ID, x.GUID)
			}
			guids["guid "+x.GUID], guids[tx.Name+" "+x.ID] = x.ID, x.GUID
			if taxa[x.ID] {
				r.Fail("duplicate-taxon", "%s: taxon %s is listed twice", what, x.ID)
			}
			taxa[x.ID] = true
		}
	}
	for _, d := range rules {
		for _, rel := range d.Relationships {
			if rel != nil && !taxa[rel.Target.ID] {
				r.Fail("missing-taxon", "%s: rule %s refers to weakness %s, which is not listed (%v)", what, d.ID, rel.Target.ID, sortedKeys(taxa))
			}
			if rel == nil || rel.Target.GUID == "" {
				continue
			}
			if g, ok := guids[rel.Target.ToolComponent.Name+" "+rel.Target.ID]; !ok || g != rel.Target.GUID {
				r.Fail("missing-taxon", "%s: rule %s refers to weakness %s of %q with the identifier %s, the taxon has %q", what, d.ID, rel.Target.ID, rel.Target.ToolComponent.Name, rel.Target.GUID, g)
			}
		}
	}
	if len(run.Results) != len(fs) {
		r.Fail("results", "%s: %d results for %d findings", what, len(run.Results), len(fs))
	}
	for i, res := range run.Results {
		f := fs[i]
		where := fmt.Sprintf("%s: result %d (%s, %s:%s)", what, i, f.Rule, f.File, f.Line)
		if res.RuleID != f.Rule || res.Message.Text != f.What {
			r.Fail("results", "%s is %s %q, the finding is %s %q", where, res.RuleID, res.Message.Text, f.Rule, f.What)
		}
		if res.RuleIndex < 0 || res.RuleIndex >= len(rules) {
			r.Fail("rule-index", "%s has rule index %d of %d rules", where, res.RuleIndex, len(rules))
		}
		if rules[res.RuleIndex].ID != res.RuleID {
			r.Fail("rule-index", "%s has rule index %d, which is the rule %s", where, res.RuleIndex, rules[res.RuleIndex].ID)
		}
		if f.CWE != "" && !taxa[f.CWE] {
			r.Fail("missing-taxon", "%s has weakness %s, which is not listed", where, f.CWE)
		}
		other := ""
		for _, rel := range rules[res.RuleIndex].Relationships {
			if rel != nil && other != f.CWE {
				other = rel.Target.ID
			}
		}
		if f.CWE != "" && other != f.CWE {
			r.Fail("missing-taxon", "%s has weakness %s, its rule refers to %q", where, f.CWE, other)
		}
		if len(res.Locations) != 1 {
			r.Fail("results", "%s has %d locations", where, len(res.Locations))
		}
		g := res.Locations[0].PhysicalLocation.Region
		lo, hi := lineRange(f.Line)
		col, _ := strconv.Atoi(f.Col)
		if g.StartLine != lo || g.EndLine != hi || g.StartColumn != col || lo == hi && g.EndColumn != 0 && g.EndColumn < col {
			r.Fail("region", "%s, column %s has the region %d-%d, column %d", where, f.Col, g.StartLine, g.EndLine, g.StartColumn)
		}
		if u := res.Locations[0].PhysicalLocation.ArtifactLocation.URI; u != "" && !strings.HasSuffix(f.File, u) {
			r.Fail("results", "%s is located in %s", where, u)
		}
		var supp []string
		for _, x := range res.Suppressions {
			supp = append(supp, x.Kind+":"+x.Justification)
		}
		if strings.Join(supp, "\n") != strings.Join(f.Supp, "\n") {
			r.Fail("suppressions", "%s has the suppressions %q, the finding has %q", where, supp, f.Supp)
		}
	}
}

func runC17(r *Run) {
	if r.P(1, 12) {
		r.c17CLI()
		return
	}
	ri, roots := r.genReport(14)
	orders := 1 + r.Int(3)
	key := ""
	for k := 0; k < orders; k++ {
		if k > 0 {
			shuffle(r, ri.Issues)
		}
		var fs []Finding
		var ids []string
		for _, i := range ri.Issues {
			fs = append(fs, toFinding("/src/project", i))
			ids = append(ids, i.RuleID)
		}
		var raw []byte
		var err error
		what := fmt.Sprintf("findings %v", ids)
		r.Sim("sarif report of "+what, r.SimCfg(), func() { raw, err = render("sarif", false, roots, ri) })
		if err != nil {
			r.Fail("report-fails", "%s: %v", what, err)
		}
		r.checkSARIF(raw, fs, what)
		key += what
		r.Sample = fmt.Sprintf("%s: %d bytes", what, len(raw))
	}
	r.Key = key
	r.Trivial = len(ri.Issues) < 2
}

// c17CLI compares the SARIF report of the command with its JSON report.
func (r *Run) c17CLI() {
	t := r.newTree(r.cliCases(4, true))
	o := r.CLIOpts()
	o.Paths = r.roots(t)
	o.Quiet = false
	o.Unsorted = r.P(1, 2)
	o.Format, o.Verbose, o.Stdout = "sarif", "json", true
	o.Out = filepath.Join(r.Dir, "report")
	res := r.CLI("sarif and json", r.spec(t, o, true), false)
	raw, err := os.ReadFile(o.Out)
	args := strings.Join(o.Args(), " ")
	if err != nil {
		r.Fail("report-missing", "gosec %s: %v", args, err)
	}
	_, fs, err := parseJSON(t.root, res.Stdout)
	if err != nil {
		r.Fail("not-json", "gosec %s: %v", args, err)
	}
	r.checkSARIF(raw, fs, "gosec "+args)
	r.Key = fmt.Sprint(args, r.Sync)
	r.Trivial = len(fs) < 2
	r.Sample = fmt.Sprintf("gosec %s: %d findings", args, len(fs))
}
