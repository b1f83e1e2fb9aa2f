package check

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/securego/gosec/v2/zz_sim/world"
)

func init() {
	register(&Prop{ID: "C07", Run: runC07})
}

// ---- an independent model of inline directives ------------------------------------

// directive is one inline directive of a file.
type directive struct {
	from, to int // lines of the code it is attached to
	rules    map[string]bool
	just     string
	at       int // line of the comment
}

// covers is the relation of the property: the finding's lines lie inside, or
// enclose, the lines of the code.
func (d *directive) covers(f Finding) bool {
	a, b := lineRange(f.Line)
	if !(d.from <= a && b <= d.to || a <= d.from && d.to <= b) {
		return false
	}
	return len(d.rules) == 0 || d.rules[f.Rule]
}

func lineRange(s string) (int, int) {
	p := strings.SplitN(s, "-", 2)
	a, _ := strconv.Atoi(p[0])
	b := a
	if len(p) == 2 {
		b, _ = strconv.Atoi(p[1])
	}
	return a, b
}

// commentLines are the text lines of a group, with the comment markers removed;
// directive comments keep theirs.
func commentLines(g *ast.CommentGroup) []string {
	var out []string
	for _, c := range g.List {
		switch {
		case strings.HasPrefix(c.Text, "//gosec:"):
			out = append(out, c.Text)
		case strings.HasPrefix(c.Text, "//"):
			out = append(out, strings.TrimSpace(c.Text[2:]))
		default:
			for _, l := range strings.Split(strings.TrimSuffix(strings.TrimPrefix(c.Text, "/*"), "*/"), "\n") {
				out = append(out, strings.TrimSpace(l))
			}
		}
	}
	return out
}

// parseDirective reads one comment line.
func parseDirective(l string, tags []string) (*directive, bool) {
	args, ok := "", false
	if l == "//gosec:disable" {
		ok = true
	} else if s, f := strings.CutPrefix(l, "//gosec:disable "); f {
		args, ok = s, true
	}
	for _, t := range tags {
		if s, f := strings.CutPrefix(l, "#"+t); f && !ok {
			args, ok = s, true
		}
	}
	if !ok {
		return nil, false
	}
	d := &directive{rules: map[string]bool{}}
	if k := strings.Index(args, "--"); k >= 0 {
		d.just = strings.TrimSpace(strings.TrimLeft(args[k:], "-"))
		args = args[:k]
	}
	for i := 0; i+4 <= len(args); i++ {
		if args[i] == 'G' && isDigits(args[i+1:i+4]) {
			d.rules[args[i:i+4]] = true
		}
	}
	return d, true
}

func isDigits(s string) bool {
	for _, c := range s {
		if c < '0' || c > '9' {
			return false
		}
	}
	return true
}

// directivesOf reads the directives of a source file; ok is false when a comment
// holds several, or more text that looks like arguments, whose meaning is not
// specified.
func directivesOf(src string, tags []string) (ds []*directive, ok bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
	if err != nil {
		world.HarnessFail("generated file does not parse: %v\n%s", err, src)
	}
	cm := ast.NewCommentMap(fset, f, f.Comments)
	for n, groups := range cm {
		for _, g := range groups {
			var found *directive
			for _, l := range commentLines(g) {
				if d, is := parseDirective(l, tags); is {
					if found != nil {
						return nil, false
					}
					found = d
				} else if found != nil && l != "" && (found.just != "" || strings.Contains(l, "--") || strings.Contains(l, "G")) {
					return nil, false // the directive's arguments end in an unspecified place
				}
			}
			if found != nil {
				found.from, found.to = fset.Position(n.Pos()).Line, fset.Position(n.End()).Line
				found.at = fset.Position(g.Pos()).Line
				ds = append(ds, found)
			}
		}
	}
	sort.Slice(ds, func(i, j int) bool { return ds[i].at < ds[j].at })
	return ds, true
}

// ---- generated sources --------------------------------------------------------------

var suppStmts = []struct {
	imports []string
	lines   []string
}{
	{[]string{"os"}, []string{`os.Chdir("/")`}},
	{[]string{"crypto/md5"}, []string{`_ = md5.Sum(nil)`}},
	{[]string{"math/rand"}, []string{`_ = rand.Int()`}},
	{[]string{"os"}, []string{`_, _ = os.ReadFile(p)`}},
	{[]string{"os/exec"}, []string{`exec.Command(p).Run()`}},
	{nil, []string{`_ = int8(x)`}},
	{[]string{"crypto/tls"}, []string{`_ = &tls.Config{`, "\tMinVersion: tls.VersionTLS12,", "\tInsecureSkipVerify: true,", `}`}},
	{[]string{"os/exec"}, []string{`_ = exec.Command(`, "\tp,", "\tp+p,", `)`}},
	{[]string{"os"}, []string{`_ = os.WriteFile(`, "\t\"x\",", "\tnil,", "\t0666,", `)`}},
	{[]string{"os", "crypto/md5"}, []string{`_ = md5.Sum(nil); os.Chdir("/"); _ = int8(x)`}},
	{[]string{"os", "crypto/md5", "math/rand"}, []string{`_ = md5.Sum(nil); os.Chdir("/"); _ = int8(x); _ = rand.Int(); _, _ = os.ReadFile(p)`}},
	{[]string{"math/rand", "os"}, []string{`os.Chdir(string(rune(rand.Int())))`}},
	{[]string{"os"}, []string{`_ = os.WriteFile(`, "\tp,", "\tnil,", "\t0666)"}},
	{[]string{"os/exec"}, []string{`_ = exec.Command(p,`, "\tp+", "\tp, p)"}},
	{[]string{"os"}, []string{`_ = os.Mkdir(p+`, "\tp,", "\t0777)"}},
	{nil, []string{`var tok = make([]byte, 2)`, `_ = tok[5]`}},
	{nil, []string{`token := "f62e5bcda4fae4f82370da0c6f20697b8f8447ef"`, `_ = token`}},
}

func (r *Run) suppBody(s *sourceFile, depth int, ind string, out *[]string) {
	for i := 0; i <= r.Int(4); i++ {
		if depth > 0 && r.P(1, 3) {
			switch r.Int(4) {
			case 0:
				*out = append(*out, ind+"if x > 3 {")
				r.suppBody(s, depth-1, ind+"\t", out)
				*out = append(*out, ind+"} else {")
				r.suppBody(s, depth-1, ind+"\t", out)
				*out = append(*out, ind+"}")
			case 1:
				*out = append(*out, ind+"for i := 0; i < 2; i++ {")
				r.suppBody(s, depth-1, ind+"\t", out)
				*out = append(*out, ind+"}")
			case 2:
				*out = append(*out, ind+"func() {")
				r.suppBody(s, depth-1, ind+"\t", out)
				*out = append(*out, ind+"}()")
			case 3:
				*out = append(*out, ind+"{")
				r.suppBody(s, depth-1, ind+"\t", out)
				*out = append(*out, ind+"}")
			}
			continue
		}
		st := suppStmts[r.Int(len(suppStmts))]
		for _, im := range st.imports {
			s.imports[im] = true
		}
		nest := len(st.lines) == 2
		if nest {
			*out = append(*out, ind+"{")
		}
		for _, l := range st.lines {
			*out = append(*out, ind+l)
		}
		if nest {
			*out = append(*out, ind+"}")
		}
	}
}

// suppFile generates a source file without directives.
func (r *Run) suppFile(pkg string) []string {
	s := newSource(pkg)
	if r.P(1, 6) { // a single line has all
		for _, i := range []string{"os", "crypto/md5", "math/rand"} {
			s.imports[i] = true
		}
		s.decls = append(s.decls, fmt.Sprintf("func f%d(p string, x int) { _ = md5.Sum(nil); os.Chdir(\"/\"); _ = int8(x); _ = rand.Int(); _, _ = os.ReadFile(p) }", r.uniq()))
		return strings.Split(s.String(), "\n")
	}
	for k := 0; k <= r.Int(3); k++ {
		if r.P(1, 5) {
			s.imports["crypto/tls"] = true
			s.decls = append(s.decls, fmt.Sprintf("var conf%d = &tls.Config{\n\tInsecureSkipVerify: true,\n}", r.uniq()))
			continue
		}
		var body []string
		r.suppBody(s, 2, "\t", &body)
		s.decls = append(s.decls, fmt.Sprintf("func f%d(p string, x int) {\n%s\n}", r.uniq(), strings.Join(body, "\n")))
	}
	return strings.Split(s.String(), "\n")
}

var justifications = []string{"reviewed", "see G404 above", "a -- b", "it's ok: #1", "déjà vu", "  two  spaces "}

var listedRules = []string{"G104", "G401", "G404", "G304", "G204", "G115", "G402", "G306", "G602", "G101", "G501", "G999"}

// directiveText draws a comment with or without a directive; block says whether
// it must not end the line.
func (r *Run) directiveText(tags []string, block bool) string {
	var list []string
	k := r.Int(4)
	if r.P(1, 8) {
		k = 7 + r.Int(14)
	}
	for ; k > 0; k-- {
		list = append(list, pick(r, listedRules))
	}
	sep := pick(r, []string{" ", ",", ", "})
	args := strings.Join(list, sep)
	if r.P(1, 3) {
		j := pick(r, justifications)
		if r.P(1, 30) {
			j = strings.TrimSpace(strings.Repeat(pick(r, []string{"a long story, ", "x", "word "}), 60+r.Int(600)))
		}
		args = strings.TrimSpace(args + " " + pick(r, []string{"--", "---", "-----"}) + " " + j)
	}
	form := r.Int(10)
	tag := "#" + pick(r, tags)
	switch form {
	case 0: // not directives
		tag = pick(r, []string{"see #nosec", "nosec", "#no-sec", "# nosec", "#NOSEC", "#falsepositiv", "#axb", "gosec:disable"})
	case 1:
		if !block {
			return strings.TrimSpace("//gosec:disable " + args)
		}
	case 2:
		if !block {
			return strings.TrimSpace("//gosec:disabled " + args)
		}
	}
	t := tag
	if args != "" {
		t += " " + args
	}
	if block || r.P(1, 4) {
		if strings.Contains(t, "*/") {
			t = tag
		}
		if block {
			return "/* " + t + " */"
		}
		return "/*" + t + "*/"
	}
	return pick(r, []string{"// ", "//", "//  "}) + t
}

// sprinkle inserts comments into a source file.
func (r *Run) sprinkle(lines []string, tags []string, n int) []string {
	for ; n > 0; n-- {
		at := r.Int(len(lines))
		c := append([]string(nil), lines...)
		switch r.Int(6) {
		case 5: // several in one line
			for k, l := range c {
				if strings.Contains(l, "; ") && !strings.Contains(l, "/*") && !strings.Contains(l, "//") && r.P(1, 2) {
					at = k
				}
			}
			parts := strings.Split(c[at], "; ")
			if len(parts) < 2 || strings.Contains(c[at], "//") || strings.Contains(c[at], "/*") {
				continue
			}
			ind := len(c[at]) - len(strings.TrimLeft(c[at], "\t"))
			simple := r.P(1, 2)
			for k := range parts {
				if r.P(4, 5) {
					t := r.directiveText(tags, true)
					if simple {
						t = fmt.Sprintf("/* #nosec %s -- no. %d */", pick(r, []string{"", "", "G104", "G401", "G115", "G304"}), k)
					}
					if k == 0 {
						parts[0] = c[at][:ind] + t + " " + parts[0][ind:]
					} else {
						parts[k] = t + " " + parts[k]
					}
				}
			}
			c[at] = strings.Join(parts, "; ")
		case 0, 1: // behind a line
			if strings.Contains(c[at], "//") || strings.Contains(c[at], "/*") {
				continue
			}
			c[at] += " " + r.directiveText(tags, false)
		case 2, 3: // lines of their own
			var ins []string
			if r.P(1, 4) {
				ins = append(ins, "// some explanation")
			}
			ins = append(ins, r.directiveText(tags, false))
			if r.P(1, 6) && !strings.Contains(ins[len(ins)-1], "--") {
				ins = append(ins, "// and a remark")
			}
			c = append(c[:at:at], append(ins, lines[at:]...)...)
		case 4: // in front of the code of a line
			if strings.Contains(c[at], "//") || strings.Contains(c[at], "/*") || strings.HasPrefix(c[at], "package") {
				continue
			}
			ind := len(c[at]) - len(strings.TrimLeft(c[at], "\t"))
			c[at] = c[at][:ind] + r.directiveText(tags, true) + " " + c[at][ind:]
		}
		if _, ok := directivesOf(strings.Join(c, "\n"), tags); !ok {
			continue
		}
		lines = c
	}
	return lines
}

// blunt makes every directive meaningless without moving anything.
func blunt(src string, tags []string) string {
	src = strings.ReplaceAll(src, "gosec:disable", "gosec:xisable")
	for _, t := range tags {
		src = strings.ReplaceAll(src, "#"+t, "#"+strings.Repeat("y", len(t)))
	}
	return src
}

func place(f Finding) string { return f.ID() + " " + f.CWE + " " + f.What }

// suppCase generates packages with directives; ref holds the same packages with
// meaningless comments, model the directives by file (relative to the root).
func (r *Run) suppCase(o Opts) (cs, ref []*pkgCase, model map[string][]*directive) {
	tags := []string{"nosec"}
	if o.AltTag != "" {
		tags = append(tags, o.AltTag)
	}
	all := append(append([]string(nil), tags...), "falsepositive", "a.b", "x+y(z)?")
	model = map[string][]*directive{}
	var first []string
	for i := 0; i <= r.Int(3); i++ {
		c := &pkgCase{name: fmt.Sprintf("s%d", i), files: map[string]string{}, mkdir: true}
		b := &pkgCase{name: c.name, files: map[string]string{}, mkdir: true}
		for k := 0; k <= r.Int(3); k++ {
			var lines []string
			if first != nil && r.P(1, 3) && k == 0 {
				// the same code at the same lines, with other directives
				lines = append([]string(nil), first...)
			} else {
				lines = r.suppFile("s")
			}
			if first == nil {
				first = append([]string(nil), lines...)
			}
			use := tags
			if r.P(1, 5) {
				use = all
			}
			lines = r.sprinkle(lines, use, r.Int(7))
			src := strings.Join(lines, "\n")
			ds, ok := directivesOf(src, tags)
			if !ok {
				// tags of the pool which are not configured may share a comment with one that is
				src = blunt(src, tags)
				ds = nil
			}
			f := fmt.Sprintf("f%d.go", k)
			c.files[f] = src
			b.files[f] = blunt(src, tags)
			model[filepath.Join(c.name, f)] = ds
		}
		cs, ref = append(cs, c), append(ref, b)
	}
	return cs, ref, model
}

// directiveCase is a package full of directives.
func (r *Run) directiveCase(name string) *pkgCase {
	c := &pkgCase{name: name, files: map[string]string{}, mkdir: true, expect: "ok", kind: "directives"}
	tags := []string{"nosec", "falsepositive", "a.b"}
	for k := 0; k <= r.Int(3); k++ {
		c.files[fmt.Sprintf("f%d.go", k)] = strings.Join(r.sprinkle(r.suppFile("s"), tags[:1+r.Int(3)], r.Int(9)), "\n")
	}
	return c
}

func runC07(r *Run) {
	o := Opts{Conc: 1 + r.Int(4)}
	o.AltTag = pick(r, []string{"", "", "falsepositive", "a.b", "x+y(z)?"})
	o.Track = r.P(1, 2)
	o.NoSec = r.P(1, 8)
	o.ShowIgnored = r.P(1, 5)
	o.Audit = r.P(1, 4)
	cs, blunted, model := r.suppCase(o)
	var base *Scan
	root, paths := r.fresh(blunted)
	r.install(root, blunted, false)
	bo := Opts{Conc: 1, Audit: o.Audit}
	r.Ref("scan without any directive", func() { base = DoScan(root, bo, paths) })
	root, paths = r.fresh(cs)
	r.install(root, cs, true)
	shuffle(r, paths)
	var got *Scan
	r.Sim(fmt.Sprintf("scan with directives, %s", o), r.SimCfg(), func() { got = DoScan(root, o, paths) })
	if len(base.Errors) > 0 || base.Err != "" || got.Err != "" || len(got.Errors) > 0 {
		world.HarnessFail("generated packages give errors: %v %q %v %q", base.Errors, base.Err, got.Errors, got.Err)
	}
	r.checkSuppressions(o, base, got, model, nil, sourcesOf(cs))
	ds, covered := 0, 0
	for _, m := range model {
		ds += len(m)
	}
	for _, f := range base.Findings {
		n := 0
		for _, d := range model[f.File] {
			if d.covers(f) {
				n++
			}
		}
		if n > 0 {
			covered++
		}
		if n > 1 {
			r.Probe("finding covered by several directives")
		}
		if a, b := lineRange(f.Line); n > 0 && a != b {
			r.Probe("multi-line finding covered")
		}
	}
	r.Probes["directives"] += ds
	r.Probes["findings covered"] += covered
	r.Key = fmt.Sprint(o, ds, covered, len(base.Findings), r.Sync)
	r.Trivial = ds == 0 || covered == 0
	r.Sample = fmt.Sprintf("%d packages, %d directives, %d findings, %d of them covered: %s", len(cs), ds, len(base.Findings), covered, o)
}

// checkSuppressions compares a scan with the model. external lists deselected
// rules of a tracking scan.
func (r *Run) checkSuppressions(o Opts, base, got *Scan, model map[string][]*directive, external map[string]bool, src map[string]string) {
	want := map[string]int{}
	for _, f := range base.Findings {
		var supp []string
		if !o.NoSec {
			for _, d := range model[f.File] {
				if d.covers(f) {
					supp = append(supp, "inSource:"+d.just)
				}
			}
		}
		if external[f.Rule] {
			supp = append(supp, "external:Globally suppressed.")
		}
		sort.Strings(supp)
		ignored := len(supp) > 0
		if ignored && !o.Track && !o.ShowIgnored {
			continue
		}
		if !o.Track {
			supp = nil
		}
		want[place(f)+fmt.Sprintf(" nosec=%v supp=%q", ignored && o.ShowIgnored, supp)]++
	}
	have := multiset(got.Findings, func(f Finding) string {
		s := sortedCopy(f.Supp)
		return place(f) + fmt.Sprintf(" nosec=%v supp=%q", f.NoSec, s)
	})
	if d := diffSets("the model", want, "the scan", have); d != "" {
		r.Fail("suppression", "%s\nsuppressions differ from the model of the directives:%s\ndirectives:%s%s", o, d, listDirectives(model), sourcesIn(d, src))
	}
	n := 0
	for _, ds := range model {
		n += len(ds)
	}
	if o.NoSec {
		n = 0
	}
	if got.Nosec != n {
		r.Fail("nosec-counter", "%s\nthe suppression counter is %d, the files hold %d directives%s", o, got.Nosec, n, listDirectives(model))
	}
}

// sourcesOf lists the sources of the cases by path below the root.
func sourcesOf(cs []*pkgCase) map[string]string {
	m := map[string]string{}
	for _, c := range cs {
		for f, src := range c.files {
			m[filepath.Join(c.name, f)] = src
		}
	}
	return m
}

// sourcesIn prints the first source file that is mentioned in the text.
func sourcesIn(text string, src map[string]string) string {
	for _, f := range sortedKeys(src) {
		if strings.Contains(text, " "+f+":") {
			var b strings.Builder
			fmt.Fprintf(&b, "\n%s:", f)
			for i, l := range strings.Split(src[f], "\n") {
				fmt.Fprintf(&b, "\n%4d  %s", i+1, l)
			}
			return b.String()
		}
	}
	return ""
}

func listDirectives(model map[string][]*directive) string {
	var b strings.Builder
	for _, f := range sortedKeys(model) {
		for _, x := range model[f] {
			fmt.Fprintf(&b, "\n  %s:%d covers lines %d-%d, rules %v, justification %q", f, x.at, x.from, x.to, sortedKeys(x.rules), x.just)
		}
	}
	return b.String()
}
