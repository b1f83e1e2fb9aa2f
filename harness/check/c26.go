package check

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/securego/gosec/v2/zz_sim/world"
)

func init() {
	register(&Prop{ID: "C26", Run: runC26})
}

// ruleSettings models the settings of the rules that have any.
type ruleSettings struct {
	json  map[string]any
	valid map[string]bool // has settings which must be accepted
	modes map[string]int64
	allow map[string]map[string]bool
	// G101
	name      *regexp.Regexp
	ignore    bool
	threshold string
	truncate  int
	// G111
	call *regexp.Regexp
}

func newSettings() *ruleSettings {
	return &ruleSettings{
		json: map[string]any{}, valid: map[string]bool{},
		modes: map[string]int64{"G301": 0o750, "G302": 0o600, "G306": 0o600, "G307": 0o666},
		allow: map[string]map[string]bool{"os": {"Unsetenv": true}, "fmt": {"Println": true}, "strings.Builder": {"WriteString": true, "WriteByte": true}},
		name:  regexp.MustCompile(`(?i)passwd|pass|password|pwd|secret|token|pw|apiKey|bearer|cred`),
		call:  regexp.MustCompile(`http\.Dir\("/"\)|http\.Dir\('/'\)`), truncate: 16,
	}
}

// confItem is a line of source and what must be reported for it.
type confItem struct {
	decl, stmt string
	expect     func(m *ruleSettings, audit bool, out map[string]bool)
}

var modeLits = []string{"0", "0600", "0o600", "0644", "0x180", "0777", "420", "0750", "0b111101101", "0400", "0o755", "0666", "01777"}

// wrongJSON are values which are no settings of any rule.
var wrongJSON = []any{nil, true, []any{}, []any{"a"}, "x", "", 7.5, map[string]any{}, []any{map[string]any{"pattern": "."}}}

func (r *Run) genMode() string {
	if r.P(2, 3) {
		return pick(r, modeLits)
	}
	return fmt.Sprintf(pick(r, []string{"0%o", "0o%o", "%d", "%#x"}), r.Int(0o2000))
}

// genSettings draws settings, some of them unusable.
func (r *Run) genSettings() *ruleSettings {
	m := newSettings()
	ids := []string{"G101", "G104", "G111", "G301", "G302", "G306", "G307"}
	shuffle(r, ids)
	for _, id := range ids[:1+r.Int(len(ids))] {
		if r.P(1, 4) {
			v := pick(r, wrongJSON)
			if id == "G301" || id == "G302" || id == "G306" || id == "G307" {
				v = pick(r, []any{nil, true, []any{"0777"}, "rw-r--r--", "", "0x", "0799", "1e3", " 0777", map[string]any{"mode": "0777"}})
			}
			m.json[id] = v
			continue
		}
		m.valid[id] = true
		switch id {
		case "G101":
			m.json[id] = r.genCredSettings(m)
		case "G104":
			s := map[string]any{}
			for k := r.Int(5); k >= 0; k-- {
				pkg := pick(r, []string{"os", "os.File", "*os.File", "strings.Builder", "x.y", "filepath", "net"})
				if r.P(1, 6) {
					s[pkg] = pick(r, []any{"Remove", nil, true, map[string]any{"Remove": true}})
					continue
				}
				fs := []any{}
				for j := r.Int(4); j > 0; j-- {
					fs = append(fs, pick(r, []any{"Remove", "Mkdir", "Close", "Sync", "Chdir", "remove", "WriteByte", "Walk", "", 7, nil, "Chmod"}))
				}
				s[pkg] = fs
			}
			for pkg, fs := range s {
				list, _ := fs.([]any)
				for _, f := range list {
					if f, ok := f.(string); ok {
						if m.allow[pkg] == nil {
							m.allow[pkg] = map[string]bool{}
						}
						m.allow[pkg][f] = true
					}
				}
			}
			m.json[id] = s
		case "G111":
			s := map[string]any{}
			if r.P(5, 6) {
				p := pick(r, []string{`http\.Dir\("/srv"\)`, `Dir\("/`, `ToUpper`, `^os\.`, `x^`, `http\.Dir\("/"\)`, `"/(srv)?"`, `\("[^"]*a`})
				s["pattern"], m.call = p, regexp.MustCompile(p)
			} else {
				s["pattern"] = pick(r, []any{nil, 3, true, []any{"."}})
			}
			if r.P(1, 4) {
				s["ignore_entropy"] = true
			}
			m.json[id] = s
		default:
			t := r.genMode()
			v, err := strconv.ParseInt(t, 0, 64)
			if err != nil {
				world.HarnessFail("mode: %v", err)
			}
			m.json[id], m.modes[id] = t, v
		}
	}
	// settings of no rule
	for r.P(1, 3) {
		k := pick(r, []string{"G201", "g301", "G999", "G115", "G30", "G3011", "", "settings", "G204", "301", "G109"})
		m.json[k] = pick(r, append([]any{"0777", "0", map[string]any{"pattern": "."}, map[string]any{"os": []any{"Remove"}}}, wrongJSON...))
	}
	return m
}

func (r *Run) genCredSettings(m *ruleSettings) map[string]any {
	s := map[string]any{}
	bad := func(k string) { s[k] = pick(r, []any{nil, []any{"0"}, map[string]any{}, "x"}) }
	if r.P(1, 2) {
		p := pick(r, []string{`(?i)magic`, `^session`, `Key\d+$`, `(?i)user|blob`, `x^`, `.`, ``, `secret|magic`})
		s["pattern"], m.name = p, regexp.MustCompile(p)
	} else if r.P(1, 6) {
		s["pattern"] = pick(r, []any{nil, true, []any{"."}, 3})
	}
	if r.P(1, 3) {
		m.ignore = r.P(2, 3)
		s["ignore_entropy"] = m.ignore
	} else if r.P(1, 6) {
		s["ignore_entropy"] = pick(r, []any{nil, "true", "yes", []any{true}})
	}
	if r.P(1, 3) {
		m.threshold = pick(r, []string{"0", "1000", "80", "1e3"})
		s["entropy_threshold"] = m.threshold
	} else if r.P(1, 6) {
		bad("entropy_threshold")
	}
	if r.P(1, 4) {
		s["per_char_threshold"] = pick(r, []string{"0", "100", "3.0"})
	} else if r.P(1, 6) {
		bad("per_char_threshold")
	}
	if r.P(1, 3) {
		t := pick(r, []string{"0", "3", "100", "16"})
		m.truncate, _ = strconv.Atoi(t)
		s["truncate"] = t
	} else if r.P(1, 4) {
		bad("truncate")
		if r.P(1, 2) {
			s["truncate"] = pick(r, []string{"-1", "-100", "3.5", "16x", "99999999999999999999"})
		}
	}
	return s
}

// strong says whether a value is taken for a secret under a suspicious name.
func (m *ruleSettings) strong(high bool) bool {
	switch m.threshold {
	case "0":
		return true
	case "1000", "1e3":
		return m.ignore
	}
	return m.ignore || high && m.truncate >= 16
}

const strongLit = `"K7f!9zQ#w2&LpX8v@3RtyB5"`

func (r *Run) genConfItem() confItem {
	u := r.uniq()
	switch r.Int(6) {
	case 0, 1: // permissions
		mode := r.genMode()
		fn := pick(r, [][3]string{
			{"_ = os.WriteFile(\"x\", nil, %s)", "G306", "os WriteFile"},
			{"_ = os.Mkdir(\"x\", %s)", "G301", "os Mkdir"},
			{"_ = os.MkdirAll(\"x\", %s)", "G301", "os MkdirAll"},
			{"_ = os.Chmod(\"x\", %s)", "G302", "os Chmod"},
			{"_, _ = os.OpenFile(\"x\", 0, %s)", "G302", "os OpenFile"},
			{"_, _ = os.Create(\"x\") // %s", "G307", "os Create"},
		})
		all := fn[1] == "G307"
		if r.P(1, 6) {
			mode, all = "os.ModePerm", true
		}
		text := strings.SplitN(fn[0], "= ", 2)[1]
		return confItem{stmt: fmt.Sprintf(fn[0], mode), expect: func(m *ruleSettings, audit bool, out map[string]bool) {
			v, _ := strconv.ParseInt(mode, 0, 64)
			if fn[1] == "G307" {
				v, all = 0o666, false
			}
			if want := m.modes[fn[1]]; all || v&^want != 0 {
				out[fn[1]] = true
			}
			callee := strings.Fields(fn[2])
			if audit && !m.allow[callee[0]][callee[1]] {
				out["G104"] = true
			}
			// the call with each of its literals
			for _, lit := range []string{`"x"`, "0", mode} {
				if strings.Contains(fmt.Sprintf(text, mode), lit) && lit != "os.ModePerm" && m.call.MatchString("os."+callee[1]+"("+lit+")") {
					out["G111"] = true
				}
			}
		}}
	case 2: // unchecked errors
		c := pick(r, [][4]string{
			{"os.Remove(\"a\")", "os", "Remove", `os.Remove("a")`}, {"os.Mkdir(\"a\", 0)", "os", "Mkdir", `os.Mkdir("a")`}, {"os.Chdir(\"/srv\")", "os", "Chdir", `os.Chdir("/srv")`},
			{"(*os.File)(nil).Sync()", "", "", ""}, {"new(os.File).Sync()", "", "", ""}, {"fl.Sync()", "*os.File", "Sync", ""}, {"fl.Close()", "*os.File", "Close", ""},
			{"sb.WriteByte(0)", "strings.Builder", "WriteByte", "sb.WriteByte(0)"}, {"sb.WriteString(\"/\")", "strings.Builder", "WriteString", `sb.WriteString("/")`},
			{"os.Unsetenv(\"a\")", "os", "Unsetenv", `os.Unsetenv("a")`}, {"filepath.Walk(\"a\", nil)", "filepath", "Walk", `filepath.Walk("a")`},
		})
		for c[1] == "" {
			c = [4]string{"os.Remove(\"b\")", "os", "Remove", `os.Remove("b")`}
		}
		return confItem{stmt: c[0], expect: func(m *ruleSettings, audit bool, out map[string]bool) {
			allowed := m.allow[c[1]][c[2]] || m.allow[strings.TrimPrefix(c[1], "*")][c[2]]
			if !allowed {
				out["G104"] = true
			}
			if c[3] != "" && m.call.MatchString(c[3]) || strings.HasPrefix(c[0], "os.Mkdir") && m.call.MatchString("os.Mkdir(0)") {
				out["G111"] = true
			}
		}}
	case 3: // traversal
		c := pick(r, []string{`http.Dir("/")`, `http.Dir("/srv")`, `http.Dir("a")`, `strings.ToUpper("/")`, `strings.ToUpper("a")`, `http.Dir("/srv/a")`})
		return confItem{stmt: "_ = " + c, expect: func(m *ruleSettings, audit bool, out map[string]bool) {
			if m.call.MatchString(c) {
				out["G111"] = true
			}
		}}
	default: // credentials
		name := pick(r, []string{"userName", "passphrase", "apiKey", "sessionKey", "magicWord", "token", "blob", "theSecret", "sessionUser"}) + strconv.Itoa(u)
		high := r.P(1, 2)
		lit := `"abc"`
		if high {
			lit = strongLit
		}
		it := confItem{expect: func(m *ruleSettings, audit bool, out map[string]bool) {
			if m.name.MatchString(name) && m.strong(high) {
				out["G101"] = true
			}
		}}
		switch r.Int(5) {
		case 0:
			it.decl = fmt.Sprintf("var %s = %s", name, lit)
		case 1:
			it.decl = fmt.Sprintf("const %s = %s", name, lit)
		case 2:
			it.decl = fmt.Sprintf("func f%d(%s string) bool { return %s == %s }", u, name, name, lit)
		case 3:
			it.decl = fmt.Sprintf("func f%d(%s string) bool { return %s != %s }", u, name, lit, name)
		default:
			it.stmt = fmt.Sprintf("%s := %s; _ = %s", name, lit, name)
		}
		return it
	}
}

// confPkg writes items and says on which line each is.
func (r *Run) confPkg(n int) (string, map[int]confItem) {
	lines := []string{"package p", "", "import (", "\"net/http\"", "\"os\"", "\"path/filepath\"", "\"strings\"", ")", "", "var _, _, _ = http.NoBody, filepath.Join, strings.Join", "var fl *os.File", "var sb strings.Builder"}
	at := map[int]confItem{}
	open := false
	put := func(it confItem, in bool, text string) {
		if in && !open {
			lines = append(lines, fmt.Sprintf("func g%d() {", r.uniq()))
		} else if !in && open {
			lines = append(lines, "}")
		}
		open = in
		lines = append(lines, text)
		at[len(lines)] = it
	}
	for ; n > 0; n-- {
		it := r.genConfItem()
		if it.decl != "" {
			put(it, false, it.decl)
		} else {
			put(it, true, "\t"+it.stmt)
		}
	}
	if open {
		lines = append(lines, "}")
	}
	return strings.Join(lines, "\n") + "\n", at
}

// modelled are the rules with settings.
var modelled = []string{"G101", "G104", "G111", "G301", "G302", "G306", "G307"}

func (m *ruleSettings) text() string {
	b, err := json.Marshal(m.json)
	if err != nil {
		world.HarnessFail("settings: %v", err)
	}
	return string(b)
}

// checkModel compares findings of rules with settings with the model.
func (r *Run) checkModel(what string, m *ruleSettings, audit bool, file string, at map[int]confItem, src string, fs []Finding) {
	want, got := map[string]int{}, map[string]int{}
	for line, it := range at {
		out := map[string]bool{}
		it.expect(m, audit, out)
		for id := range out {
			want[fmt.Sprintf("%s %d", id, line)] = 1
		}
	}
	for _, f := range fs {
		if f.File != file || !contains(modelled, f.Rule) {
			continue
		}
		got[f.Rule+" "+f.Line] = 1
		if mode, ok := m.modes[f.Rule]; ok && !strings.Contains(f.What, fmt.Sprintf("be %#o or less", mode)) {
			r.Fail("setting-misreported", "%s: %s says %q, the mode is %#o", what, f.ID(), f.What, mode)
		}
	}
	if d := diffSets("the settings ask for", want, "the scan", got); d != "" {
		r.Fail("setting-ineffective", "%s: findings of rules with settings differ (rule, line):%s\n%s", what, d, itemLines(src, at))
	}
}

func itemLines(src string, at map[int]confItem) string {
	var out []string
	ls := strings.Split(src, "\n")
	for n := range at {
		out = append(out, fmt.Sprintf("%4d %s", n, ls[n-1]))
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

func notOf(fs []Finding, ids map[string]bool) map[string]int {
	var rest []Finding
	for _, f := range fs {
		if !ids[f.Rule] {
			rest = append(rest, f)
		}
	}
	return multiset(rest, Finding.WithSupp)
}

func only(fs []Finding, id string) map[string]int {
	var rest []Finding
	for _, f := range fs {
		if f.Rule == id {
			rest = append(rest, f)
		}
	}
	return multiset(rest, Finding.WithSupp)
}

func runC26(r *Run) {
	if r.P(1, 5) {
		r.c26CLI()
		return
	}
	o := r.ScanOpts()
	o.Include, o.Exclude, o.Config = nil, nil, ""
	r.oldGo()
	cs := r.statefulCases(1 + r.Int(2))
	c := &pkgCase{name: fmt.Sprintf("p%d", len(cs)), mkdir: true, kind: "settings"}
	src, at := r.confPkg(3 + r.Int(12))
	c.files = map[string]string{"a.go": src}
	cs = append(cs, c)
	m := r.genSettings()
	w := r.caseSet(cs)
	root, paths := w.setup(false)
	var base *Scan
	r.Ref("scan without settings", func() { base = DoScan(root, o, paths) })
	r.checkModel("scan without settings", newSettings(), o.Audit, c.name+"/a.go", at, src, base.Findings)

	so := o
	so.Config, so.Conc = m.text(), 1+r.Int(4)
	// one of the rules alone
	id := pick(r, sortedKeys(m.json))
	oo := o
	b, err := json.Marshal(map[string]any{id: m.json[id]})
	if err != nil {
		world.HarnessFail("settings: %v", err)
	}
	oo.Config = string(b)
	root, paths = w.setup(false)
	var one *Scan
	r.Ref("scan with "+oo.Config, func() { one = DoScan(root, oo, paths) })

	root, paths = w.setup(true)
	shuffle(r, paths)
	var got *Scan
	r.Sim(fmt.Sprintf("scan with %s", so), r.SimCfg(), func() { got = DoScan(root, so, paths) })
	r.checkModel(fmt.Sprintf("%s", so), m, o.Audit, c.name+"/a.go", at, src, got.Findings)
	if d := diffSets("the scan without settings", notOf(base.Findings, m.valid), "the scan with", notOf(got.Findings, m.valid)); d != "" {
		r.Fail("setting-leaks", "packages %v, %s: findings of rules without usable settings differ:%s", w.desc, so, d)
	}
	if d := diffSets("the scan with only the settings of "+id, only(one.Findings, id), "the scan with all", only(got.Findings, id)); d != "" {
		r.Fail("setting-leaks", "packages %v, %s: the findings of %s differ from those with its settings alone:%s", w.desc, so, id, d)
	}
	if d := diffSets("the scan without settings", errSet(base), "the scan with", errSet(got)); d != "" {
		r.Fail("setting-leaks", "packages %v, %s: the errors differ:%s", w.desc, so, d)
	}
	if base.Files != got.Files || base.Lines != got.Lines {
		r.Fail("setting-leaks", "packages %v, %s: %d files and %d lines analysed, without settings %d and %d", w.desc, so, got.Files, got.Lines, base.Files, base.Lines)
	}
	r.Key = fmt.Sprint(w.desc, src, so, r.Sync)
	r.Trivial = len(m.valid) == 0
	r.Sample = fmt.Sprintf("packages %v, %s: %d findings, %d without settings", w.desc, so, len(got.Findings), len(base.Findings))
}

// c26CLI gives the settings in a file.
func (r *Run) c26CLI() {
	o := r.CLIOpts()
	o.Include, o.Exclude, o.ExclGen, o.Config = nil, nil, false, ""
	o.Format, o.Quiet, o.NoFail, o.Out, o.Stdout, o.Verbose = "json", false, true, "", false, ""
	o.Severity, o.Confidence = "", ""
	o.Paths = []string{"./..."}
	src, at := r.confPkg(3 + r.Int(12))
	c := &pkgCase{name: "p0", mkdir: true, kind: "settings", files: map[string]string{"a.go": src}}
	m := r.genSettings()
	o.ConfFile = filepath.Join(r.Dir, "conf.json")
	if err := os.WriteFile(o.ConfFile, []byte(m.text()), 0o600); err != nil {
		world.HarnessFail("conf: %v", err)
	}
	t := r.newTree([]*pkgCase{c})
	got := r.CLI("gosec", r.spec(t, o, true), false)
	args := fmt.Sprintf("gosec %s with the configuration %s", strings.Join(o.Args(), " "), m.text())
	if got.Code != 0 {
		r.Fail("setting-ineffective", "%s: status %d, %s", args, got.Code, firstN(string(got.Stderr), 800))
	}
	_, fs, err := parseJSON(t.root, got.Stdout)
	if err != nil {
		r.Fail("setting-ineffective", "%s: %v", args, err)
	}
	r.checkModel(args, m, o.Audit, c.name+"/a.go", at, src, fs)
	r.Key = fmt.Sprint(args, src, r.Sync)
	r.Trivial = len(m.valid) == 0
	r.Sample = fmt.Sprintf("%s: %d findings", args, len(fs))
}
