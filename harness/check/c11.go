package check

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/securego/gosec/v2/autofix"
	"github.com/securego/gosec/v2/issue"
	"github.com/securego/gosec/v2/zz_sim/world"
	zz "github.com/securego/gosec/v2/zz_simrt"
)

func init() {
	register(&Prop{ID: "C11", Run: runC11})
}

var aiKinds = []string{"error", "nil", "nocand", "nilcand", "nilcontent", "noparts", "blob", "empty", "hang", "multi"}

// genAI draws the behaviour of the service.
func (r *Run) genAI(n int) *world.AISpec {
	sp := &world.AISpec{}
	switch r.F(10) {
	case 8:
		sp.ConnectErr = "simulated connection failure"
	case 9:
		sp.ConnectMS = pickF(r, []int{10, 5000, 29000, 31000, 7200000})
		if r.FP(1, 3) {
			sp.ConnectErr = "simulated connection failure"
		}
	}
	if r.FP(1, 6) {
		sp.CloseErr = "simulated failure of close"
	}
	mode := r.F(4)
	steady := 0 // every answer takes its time
	if r.FP(1, 10) {
		steady = pickF(r, []int{3000, 9000, 14000, 29000})
	}
	for k := 0; k < n+1; k++ {
		a := world.AIAnswer{Kind: "ok"}
		switch {
		case mode == 1 && r.FP(1, 4), mode == 2 && k == n/2, mode == 3 && r.FP(2, 3):
			a.Kind = pickF(r, aiKinds)
		}
		if mode > 0 && r.FP(1, 4) {
			a.DelayMS = pickF(r, []int{1, 50, 1000, 9000, 14000, 29999, 30000, 31000, 100000000})
		}
		a.DelayMS = max(a.DelayMS, steady)
		sp.Answers = append(sp.Answers, a)
	}
	return sp
}

// described finds the description a prompt is about: the longest one it contains.
func described(prompt string, whats map[string]bool) (string, bool) {
	best, ok := "", false
	for _, w := range sortedKeys(whats) {
		q := fmt.Sprintf("%q", w)
		if w == "" {
			continue
		}
		if (strings.Contains(prompt, w) || strings.Contains(prompt, q)) && (!ok || len(w) > len(best)) {
			best, ok = w, true
		}
	}
	return best, ok
}

// checkAI decides what happened at the service and which suggestions resulted.
func (r *Run) checkAI(what string, sp *world.AISpec, log *world.AILog, endNS int64, whats map[string]bool, fixes []Finding) {
	connected := log.Connects
	if sp.ConnectErr != "" || (log.Connects > 0 && sp.ConnectMS >= 30000 && log.Closes == 0) {
		connected = 0 // refused, or given up while connecting
	}
	if log.Connects > 1 {
		r.Fail("connects", "%s: %d connections", what, log.Connects)
	}
	if log.Closes != connected {
		r.Fail("client-close", "%s: %d connections were made, the client was closed %d times", what, connected, log.Closes)
	}
	if log.Connects > 0 {
		if d := time.Duration(endNS - log.OpenedNS); d > 60*time.Second {
			r.Fail("too-long", "%s: the suggestions took %v", what, d)
		}
	}
	answers := map[string][]string{}
	asked := map[string]int{}
	for _, c := range log.Calls {
		w, ok := described(c.Prompt, whats)
		if !ok {
			r.Fail("foreign-request", "%s: the request %q is about none of the findings", what, firstN(c.Prompt, 300))
		}
		if asked[w]++; asked[w] > 1 {
			r.Fail("asked-twice", "%s: a suggestion for %q was requested %d times", what, w, asked[w])
		}
		if c.Err == "" {
			switch c.Kind {
			case "ok", "multi":
				answers[w] = append(answers[w], c.Answer)
			case "blob":
				answers[w] = append(answers[w], "{MIMEType:image/png Data:[1 2]}")
			}
		}
	}
	healthy := sp.ConnectErr == "" && sp.ConnectMS == 0
	for _, a := range sp.Answers {
		healthy = healthy && a.Kind == "ok" && a.DelayMS == 0
	}
	given := 0
	for _, f := range fixes {
		if f.Fix == "" {
			if healthy {
				r.Fail("no-suggestion", "%s: the service answers everything, but the finding %s has no suggestion", what, f.ID())
			}
			continue
		}
		given++
		ok := false
		for _, a := range answers[f.What] {
			ok = ok || strings.HasPrefix(f.Fix, a)
		}
		if !ok {
			r.Fail("wrong-suggestion", "%s: the finding %s (%q) has the suggestion %q, the answers for its description are %q", what, f.ID(), f.What, f.Fix, answers[f.What])
		}
	}
	if given > 0 {
		r.Probe("suggestions")
	}
	if given > 0 && given < len(fixes) {
		r.Probe("partial-suggestions")
	}
}

func runC11(r *Run) {
	if r.P(1, 5) {
		r.c11CLI()
		return
	}
	n := 1 + r.Int(10)
	if r.P(1, 40) {
		n = 60
	}
	is := r.genIssues("/src/project", n)
	whats := map[string]bool{}
	for k, i := range is {
		i.Autofix = ""
		if r.P(2, 3) {
			i.Suppressions, i.NoSec = nil, false
		}
		around := ""
		if r.P(1, 3) {
			i.What = fmt.Sprintf("%s %d", i.What, k)
			around = pick(r, []string{"", "", " ", "\n", "\t"})
		}
		i.What = around + "Issue: " + i.What + "." + around // never part of another one
		whats[i.What] = true
	}
	sp := r.genAI(len(whats))
	log := &world.AILog{}
	zz.AI = world.MakeAI(sp, log, r.Fired)
	var before, after []Finding
	for _, i := range is {
		before = append(before, toFinding("/src", i))
	}
	var end int64
	var err error
	work := append([]*issue.Issue(nil), is...)
	what := fmt.Sprintf("%d findings with %d descriptions, connect %q after %d ms, answers %v", len(is), len(whats), sp.ConnectErr, sp.ConnectMS, sp.Answers)
	r.Sim(what, r.SimCfg(), func() {
		err = autofix.GenerateSolution("gemini", "key", pick(r, []string{"", "https://ai.example.com"}), work)
		end = zz.VirtualNS()
	})
	for k, i := range work {
		f := toFinding("/src", i)
		after = append(after, f)
		f.Fix = ""
		if f.WithSupp() != before[k].WithSupp() {
			r.Fail("finding-changed", "%s: finding %d was\n  %s\nand is now\n  %s", what, k, before[k].WithSupp(), f.WithSupp())
		}
	}
	r.checkAI(what, sp, log, end, whats, after)
	r.Key = what
	r.Trivial = log.Connects == 0
	r.Sample = fmt.Sprintf("%s: %d requests, error %v, %d ms simulated", what, len(log.Calls), err, end/1e6)
}

// c11CLI compares executions of the command with and without suggestions.
func (r *Run) c11CLI() {
	t := r.newTree(r.cliCases(2, true))
	o := r.CLIOpts()
	o.Paths = r.roots(t)
	o.Format = "json"
	o.Out = filepath.Join(r.Dir, "report")
	o.Stdout = r.P(1, 2)
	if o.Stdout {
		o.Verbose = pick(r, formats)
	}
	ref := r.CLI("without suggestions", r.spec(t, o, false), true)
	want, rerr := os.ReadFile(o.Out)
	os.Remove(o.Out)
	sp := r.spec(t, o, true)
	sp.AI = r.genAI(8)
	flags := []string{"-ai-api-provider=gemini"}
	on := true
	switch r.Int(6) {
	case 0, 1, 2:
		flags = append(flags, "-ai-api-key=key")
	case 3:
		sp.Env["GOSEC_AI_API_KEY"] = "key"
	case 4:
		on = false // no key
	case 5:
		on = false
		flags = []string{"-ai-api-provider=other", "-ai-api-key=key"}
	}
	sp.Args = append(flags, sp.Args...)
	got := r.CLI("with suggestions", sp, false)
	have, gerr := os.ReadFile(o.Out)
	args := strings.Join(sp.Args, " ")
	what := fmt.Sprintf("gosec %s, connect %q after %d ms, answers %v", args, sp.AI.ConnectErr, sp.AI.ConnectMS, sp.AI.Answers)
	if got.Code != ref.Code {
		r.Fail("exit-status-differs", "%s: status %d, %d without suggestions; stderr: %s", what, got.Code, ref.Code, firstN(string(got.Stderr), 800))
	}
	if (rerr == nil) != (gerr == nil) {
		r.Fail("report-missing", "%s: report: %v, without suggestions: %v", what, gerr, rerr)
	}
	if len(ref.Stdout) > 0 && len(got.Stdout) == 0 {
		r.Fail("report-missing", "%s: nothing was written to standard output", what)
	}
	log := got.Trailer.AI
	if !on && log.Connects > 0 {
		r.Fail("connects", "%s: the service was used", what)
	}
	if rerr == nil {
		jw, fw, err := parseJSON(t.root, want)
		if err != nil {
			r.Fail("not-json", "%s: %v", what, err)
		}
		jg, fg, err := parseJSON(t.root, have)
		if err != nil {
			r.Fail("not-json", "%s: %v", what, err)
		}
		if len(fw) != len(fg) {
			r.Fail("finding-changed", "%s: %d findings, %d without suggestions", what, len(fg), len(fw))
		}
		whats := map[string]bool{}
		for k := range fw {
			whats[fw[k].What] = true
			if fw[k].WithSupp() != fg[k].WithSupp() {
				r.Fail("finding-changed", "%s: finding %d is\n  %s\nand without suggestions\n  %s", what, k, fg[k].WithSupp(), fw[k].WithSupp())
			}
		}
		if fmt.Sprint(jw.Errors, jw.Stats) != fmt.Sprint(jg.Errors, jg.Stats) {
			r.Fail("finding-changed", "%s: errors and counters %v %v, without suggestions %v %v", what, jg.Errors, jg.Stats, jw.Errors, jw.Stats)
		}
		if on {
			r.checkAI(what, sp.AI, log, got.Trailer.NS, whats, fg)
		}
		none := true
		for _, f := range fg {
			none = none && f.Fix == ""
		}
		if none {
			if d := diffBytes("without suggestions", ref.Stdout, "with", got.Stdout); d != "" {
				r.Fail("finding-changed", "%s: no suggestion was made, but standard output differs: %s", what, d)
			}
		}
	}
	r.Key = fmt.Sprint(what, r.Sync)
	r.Trivial = log.Connects == 0
	r.Sample = fmt.Sprintf("%s: %d requests, status %d", what, len(log.Calls), got.Code)
}
