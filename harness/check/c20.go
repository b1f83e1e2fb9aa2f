package check

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/zz_sim/world"
	zz "github.com/securego/gosec/v2/zz_simrt"
)

func init() {
	register(&Prop{ID: "C20", Run: runC20})
}

type version [3]int

// versionOf reads a version of the form go1.22.3, go1.22rc1 or 1.22.
func versionOf(s string) version {
	s = strings.TrimPrefix(s, "go")
	for _, x := range []string{"rc", "beta", "-", " "} {
		s, _, _ = strings.Cut(s, x)
	}
	var v version
	for i, p := range strings.SplitN(s, ".", 3) {
		n, err := strconv.Atoi(p)
		if err != nil {
			world.HarnessFail("version %q", s)
		}
		v[i] = n
	}
	return v
}

var versions = []string{"1.24.13", "1.20", "1.21.5", "1.22", "1.22rc1", "1.23.0", "1.16", "1.9", "1.19beta2", "1.21rc2", "1.100.7"}

// goAnswer is an answer of the go command and what follows from it.
type goAnswer struct {
	spec *world.GoListSpec
	ok   string // the module's version if it can be known
	may  bool   // whether it is recognised is not specified
	kind string
}

func (r *Run) genAnswer() goAnswer {
	v := pick(r, versions)
	g := world.GoodGoList(v)
	a := goAnswer{spec: g, ok: v, kind: "healthy"}
	broken := func(kind string) {
		a.ok, a.kind = "", kind
	}
	switch r.F(16) {
	case 3:
		g.Exit = -1
		broken("command-missing")
	case 4:
		g.Exit, g.Stdout, g.Stderr = 1, "", pickF(r, []string{"go: cannot find main module\n", "go: errors parsing go.mod:\ngo.mod:3: invalid go version '1.2.3.4'\n", "", "{\"GoVersion\": \"1.10\"}"})
		broken("command-fails")
	case 5:
		g.Exit = 1 + r.F(2)
		broken("command-fails-after-answer")
	case 6:
		g.Stdout = pickF(r, []string{"", "\n", "  \n\t"})
		broken("empty")
	case 7:
		end := strings.LastIndex(g.Stdout, "}")
		g.Stdout = g.Stdout[:r.F(end+1)]
		broken("truncated")
	case 8:
		g.Stdout = pickF(r, []string{"command-line-arguments\n", "go: no modules\n", "<html>1.10</html>", "1.10", "\"1.10\"", "[\"1.10\"]", "null", "\x00\x01", "GoVersion: 1.10\n", "[{\"GoVersion\":\"1.10\"}]"})
		broken("not-json")
	case 9:
		g.Stdout = pickF(r, []string{"{}", "{\"Path\": \"example.com/m\", \"Main\": true}", "{\"GoVersion\": \"\"}", "{\"GoVersion\": null}", "{\"Path\": \"1.10/m\", \"Dir\": \"/go1.10\"}"})
		broken("no-version")
	case 10:
		g.Stdout = pickF(r, []string{"{\"GoVersion\": 1.10}", "{\"GoVersion\": [\"1.10\"]}", "{\"GoVersion\": {\"v\": \"1.10\"}}", "{\"GoVersion\": true}"})
		broken("wrong-type")
	case 11:
		g.Stdout = fmt.Sprintf("{\"Path\":\"example.com/m\",\"Version\":\"v1.10.2\",\"Replace\":{\"GoVersion\":\"1.10\"},\"GoVersion\":%q,\"Dir\":\"/x/go1.10\"}", v)
		a.kind = "other-fields"
	case 12:
		g.Stdout += "{\"Path\": \"example.com/second\", \"GoVersion\": \"" + v + "\"}\n"
		a.kind = "several-modules"
	case 13:
		g.Stderr = "go: downloading example.com/x v1.10.0\n"
		a.may, a.kind = true, "messages"
	case 14:
		g.Stdout += "\ntrailing 1.10 text"
		a.may, a.kind = true, "trailing-text"
	}
	if a.kind != "healthy" {
		r.Fired["go-list-"+a.kind]++
	}
	return a
}

// genVersionWorld draws the toolchain, the environment and the answers.
func (r *Run) genVersionWorld() (env map[string]string, tool, explicit string, answers []goAnswer) {
	env = map[string]string{}
	tool = "go" + pick(r, versions)
	if r.P(1, 3) {
		explicit = pick(r, versions)
		env["GOSECGOVERSION"] = "go" + explicit
		if r.P(1, 4) {
			env["GOSECGOVERSION"] = explicit
		}
	}
	n := 1
	if r.P(1, 4) {
		n = 2 + r.Int(3)
	}
	for i := 0; i < n; i++ {
		answers = append(answers, r.genAnswer())
	}
	return
}

// allowed are the versions that may be used with an answer.
func allowed(explicit, tool string, a goAnswer) []version {
	if explicit != "" {
		return []version{versionOf(explicit)}
	}
	var out []version
	if a.ok != "" {
		out = append(out, versionOf(a.ok))
	}
	if a.ok == "" || a.may {
		out = append(out, versionOf(tool))
	}
	return out
}

func old(v version) bool { return !(v[0] >= 1 && v[1] >= 22) }

func runC20(r *Run) {
	if r.P(1, 10) {
		r.c20CLI()
		return
	}
	env, tool, explicit, answers := r.genVersionWorld()
	var kinds []string
	for _, a := range answers {
		kinds = append(kinds, a.kind+" "+a.ok)
	}
	what := fmt.Sprintf("toolchain %s, environment %v, answers %v", tool, env, kinds)
	zz.W.GoVersion = tool
	defer func() { zz.W.GoVersion = "" }()
	setEnv := func(e map[string]string) {
		delete(zz.W.Env, "GOSECGOVERSION")
		for k, v := range e {
			zz.W.Env[k] = v
		}
	}
	defer setEnv(nil)
	setEnv(env)
	calls := 0
	world1 := func() {
		r.World(nil)
		calls = 0
		zz.W.Exec = func(c *zz.Cmd) ([]byte, []byte, error) {
			a := answers[calls%len(answers)]
			calls++
			return world.ExecFunc(a.spec, nil)(c)
		}
	}
	world1()
	var got []version
	var used []int
	r.Sim("version lookup: "+what, r.SimCfg(), func() {
		for i := 0; i < len(answers)+1; i++ {
			before := calls
			a, b, c := gosec.GoVersion()
			got = append(got, version{a, b, c})
			used = append(used, before%len(answers))
		}
	})
	for i, g := range got {
		ok := false
		// whatever answers the lookup consumed: the versions of all of them if it
		// remembers
		for k := range answers {
			if len(answers) > 1 || k == used[i] {
				for _, v := range allowed(explicit, tool, answers[k]) {
					ok = ok || v == g
				}
			}
		}
		if !ok {
			r.Fail("wrong-version", "%s: lookup %d yields %v", what, i, g)
		}
	}
	// a scan whose findings depend on the version
	var items []*Item
	fam := family("G601")
	if r.P(1, 2) {
		fam = append(fam, pick(r, healthyCorpus()))
	}
	for i := 0; i < 1+r.Int(3); i++ {
		it := pick(r, fam)
		if !containsItem(items, it) {
			items = append(items, it)
		}
	}
	var paths []string
	for _, it := range items {
		paths = append(paths, r.PoolDir(it))
	}
	root := r.Scratch + "/pool"
	o := Opts{Conc: 1 + r.Int(3), Track: r.P(1, 4)}
	if r.P(1, 4) {
		o.Exclude = []string{"G104"}
	}
	var got1 *Scan
	world1()
	r.Sim("scan: "+what, r.SimCfg(), func() { got1 = DoScan(root, o, paths) })
	if calls > 0 {
		r.Probe("asked-during-scan")
	}
	isOld, isNew := false, false
	for _, a := range answers {
		for _, v := range allowed(explicit, tool, a) {
			isOld, isNew = isOld || old(v), isNew || !old(v)
		}
	}
	o.Conc = 1
	scanWith := func(v string) *Scan {
		var s *Scan
		setEnv(map[string]string{"GOSECGOVERSION": v})
		r.World(nil)
		r.Ref("scan with "+v, func() { s = DoScan(root, o, paths) })
		return s
	}
	so, sn := scanWith("go1.20"), scanWith("go1.24")
	if len(so.Findings) != len(sn.Findings) {
		r.Probe("version-matters")
	}
	scanName := fmt.Sprintf("the scan of %v (%s)", names(items), what)
	switch {
	case isOld && !isNew:
		r.sameScan("wrong-version-in-scan", "the scan with an explicit go1.20", so, scanName, got1)
	case isNew && !isOld:
		r.sameScan("wrong-version-in-scan", "the scan with an explicit go1.24", sn, scanName, got1)
	default:
		// lookups with different answers: only the findings of other rules are known
		other := func(fs []Finding) map[string]int {
			m := map[string]int{}
			for _, f := range fs {
				if f.Rule != "G601" {
					m[f.WithSupp()]++
				}
			}
			return m
		}
		if d := diffSets("the scan with an explicit version", other(so.Findings), scanName, other(got1.Findings)); d != "" {
			r.Fail("wrong-version-in-scan", "findings of rules that do not depend on the version differ:%s", d)
		}
		r.Probe("versions-differ-between-lookups")
	}
	r.Key = what + fmt.Sprint(names(items), o, r.Sync)
	r.Trivial = false
	r.Sample = fmt.Sprintf("%s: %v; %d findings in %v", what, got, len(got1.Findings), names(items))
}

func containsItem(its []*Item, it *Item) bool {
	for _, x := range its {
		if x == it {
			return true
		}
	}
	return false
}

// c20CLI executes the command with a failing lookup.
func (r *Run) c20CLI() {
	env, tool, explicit, answers := r.genVersionWorld()
	a := answers[0]
	cs := []*pkgCase{}
	for i := 0; i < 1+r.Int(2); i++ {
		it := pick(r, family("G601"))
		cs = append(cs, &pkgCase{name: fmt.Sprintf("p%d", i), mkdir: true, kind: it.Name, expect: "ok", files: copyFiles(it.Files)})
	}
	t := r.newTree(cs)
	o := CLIOpts{Format: "json"}
	o.Conc = 1 + r.Int(3)
	o.Paths = []string{"./..."}
	sp := r.spec(t, o, true)
	sp.GoList, sp.GoVer = a.spec, tool
	for k, v := range env {
		sp.Env[k] = v
	}
	got := r.CLI("lookup", sp, false)
	what := fmt.Sprintf("gosec %s with toolchain %s, environment %v, answer %s %s", strings.Join(sp.Args, " "), tool, env, a.kind, a.ok)
	var want []*CLIResult
	for _, v := range allowed(explicit, tool, a) {
		s := r.spec(t, o, false)
		s.Env["GOSECGOVERSION"] = fmt.Sprintf("go%d.%d.%d", v[0], v[1], v[2])
		want = append(want, r.CLI("with an explicit version", s, true))
	}
	ok := false
	diff := ""
	for _, w := range want {
		d := diffBytes("with the explicit version", w.Stdout, "now", got.Stdout)
		if w.Code != got.Code {
			d = fmt.Sprintf("status %d, with the explicit version %d", got.Code, w.Code)
		}
		ok = ok || d == ""
		diff = d
	}
	if !ok {
		r.Fail("wrong-version-in-scan", "%s: %s\nstderr: %s", what, diff, firstN(string(got.Stderr), 800))
	}
	r.Key = fmt.Sprint(what, r.Sync)
	r.Sample = fmt.Sprintf("%s: status %d", what, got.Code)
}
