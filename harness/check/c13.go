package check

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/zz_sim/world"
	zz "github.com/securego/gosec/v2/zz_simrt"
)

func init() {
	register(&Prop{ID: "C13", Run: runC13})
}

// walkTree is a directory tree for discovery.
type walkTree struct {
	dirs []string // relative, "." first
	gos  map[string]bool
	file map[string][]string
	link map[string]bool // files that are symbolic links to one elsewhere
}

func (r *Run) genTree() *walkTree {
	w := &walkTree{dirs: []string{"."}, gos: map[string]bool{}, file: map[string][]string{}, link: map[string]bool{}}
	names := []string{"a", "b", "pkg", "cmd", "vendor", "gen", "testdata", "x.y", "_old", "with space", "ünï", "third_party", ".git", ".hidden", "internal", "sub.go", "x.go"}
	n := 1 + r.Int(14)
	for i := 0; i < n; i++ {
		p := w.dirs[r.Int(len(w.dirs))]
		if strings.Count(p, "/") > 4 {
			p = "."
		}
		d := filepath.Join(p, pick(r, names))
		if !contains(w.dirs, d) {
			w.dirs = append(w.dirs, d)
		}
	}
	if r.P(1, 25) {
		// far below
		d := pick(r, w.dirs)
		for k := 20 + r.Int(40); k > 0; k-- {
			d = filepath.Join(d, pick(r, []string{"a", "b", "pkg"}))
			if !contains(w.dirs, d) {
				w.dirs = append(w.dirs, d)
			}
		}
	}
	for _, d := range w.dirs {
		git := filepath.Base(d) == ".git"
		if r.P(3, 5) && !git {
			w.gos[d] = true
			for k := 0; k < 1+r.Int(3); k++ {
				f := pick(r, []string{"a.go", "b.go", "main.go", "z_linux.go", "a_test.go", ".dot.go", "_x.go"})
				if !contains(w.file[d], f) {
					w.file[d] = append(w.file[d], f)
				}
				if r.P(1, 6) {
					w.link[filepath.Join(d, f)] = true
				}
			}
		}
		if r.P(1, 2) {
			w.file[d] = append(w.file[d], pick(r, []string{"README.md", "go.mod", "a.go.bak", "ago", "x.GO", "Makefile", "0first.txt", "zlast.txt"}))
		}
	}
	return w
}

func (w *walkTree) write(root string) {
	for _, d := range w.dirs {
		if err := os.MkdirAll(filepath.Join(root, d), 0o755); err != nil {
			world.HarnessFail("scratch: %v", err)
		}
		for _, f := range w.file[d] {
			name := filepath.Join(root, d, f)
			if w.link[filepath.Join(d, f)] {
				target := filepath.Join(filepath.Dir(root), "linked")
				if err := os.WriteFile(target, []byte("package p\n"), 0o644); err != nil {
					world.HarnessFail("scratch: %v", err)
				}
				if err := os.Symlink(target, name); err != nil {
					world.HarnessFail("scratch: %v", err)
				}
				continue
			}
			if err := os.WriteFile(name, []byte("package p\n"), 0o644); err != nil {
				world.HarnessFail("scratch: %v", err)
			}
		}
	}
}

// excludes of the check: text for the option and the test for a slash path.
type exclusion struct {
	opt string
	hit func(p string) bool
}

func hasPart(names ...string) func(string) bool {
	return func(p string) bool {
		for _, c := range strings.Split(p, "/") {
			if contains(names, c) {
				return true
			}
		}
		return false
	}
}

var exclusions = []exclusion{
	{"vendor", hasPart("vendor")},
	{"\\.git/", hasPart(".git")},
	{"third_party", hasPart("third_party")},
	{"gen", hasPart("gen")},
	{"testdata", hasPart("testdata")},
	{"pkg/b", func(p string) bool { return strings.Contains("/"+p+"/", "/pkg/b/") }},
	{"cmd/internal", func(p string) bool { return strings.Contains("/"+p+"/", "/cmd/internal/") }},
	{"with space", hasPart("with space")},
	// expressions that exclude a directory and not those below, or only from the start
	{"gen$", reHit("gen$")},
	{"pkg$", reHit("pkg$")},
	{"^cmd", reHit("^cmd")},
	{"^a/b$", reHit("^a/b$")},
	{"pkg/.*", reHit("pkg/.*")},
	{"(a|b)/internal", reHit("(a|b)/internal")},
	{"int[a-z]+al/(x|cmd)", reHit("int[a-z]+al/(x|cmd)")},
}

func reHit(re string) func(string) bool { return regexp.MustCompile(re).MatchString }

func runC13(r *Run) {
	w := r.genTree()
	root := filepath.Join(r.Dir, "w")
	os.RemoveAll(root)
	w.write(root)
	if err := os.Chdir(root); err != nil {
		world.HarnessFail("chdir: %v", err)
	}
	defer os.Chdir(r.Dir)

	var excl []exclusion
	for k, e := range exclusions {
		if k < 8 && r.P(1, 3) || k >= 8 && r.P(1, 8) {
			excl = append(excl, e)
		}
	}
	cli := r.P(1, 40)
	if cli {
		for _, e := range exclusions[:2] { // excluded by default
			if !hasExcl(excl, e) {
				excl = append(excl, e)
			}
		}
	}
	var opts []string
	for _, e := range excl {
		opts = append(opts, e.opt)
	}
	// the part of the tree that is walked
	sub := "."
	if r.P(1, 3) {
		sub = pick(r, w.dirs)
	}
	arg := sub
	abs := false
	switch {
	case r.P(1, 3):
		abs = true
		arg = filepath.Join(root, sub)
	case r.P(1, 2):
		arg = "./" + sub
	}
	arg = strings.TrimSuffix(arg, "/.")
	arg += "/..."
	excluded := func(d string) bool {
		for _, e := range excl {
			if abs && strings.HasSuffix(d, "/") {
				d = filepath.Join(root, d) + "/"
			} else if abs {
				d = filepath.Join(root, d)
			}
			if e.hit(filepath.ToSlash(d)) {
				return true
			}
		}
		return false
	}
	within := func(d, p string) bool { return p == "." || d == p || strings.HasPrefix(d, p+"/") }
	want := map[string]bool{}
	for _, d := range w.dirs {
		if w.gos[d] && within(d, sub) && !excluded(d) {
			want[d] = true
		}
	}
	// faults
	type flt struct {
		rule *world.FaultRule
		path string
		dir  bool
		gone bool
	}
	var fs []*flt
	for k := 0; r.FP(1, 2) && k < 3; k++ {
		f := &flt{path: pickF(r, w.dirs), dir: true}
		if r.FP(1, 4) {
			var files []string
			for _, d := range w.dirs {
				for _, x := range w.file[d] {
					files = append(files, filepath.Join(d, x))
				}
			}
			if len(files) > 0 {
				f.path, f.dir = pickF(r, files), false
			}
		}
		f.rule = &world.FaultRule{Op: "lstat", Suffix: filepath.Join(root, f.path), Sticky: true, Err: pickF(r, []string{"EACCES", "EIO", "EMFILE", "ENOENT"})}
		if f.dir {
			f.rule.Op = pickF(r, []string{"readdir", "lstat"})
		}
		f.gone = f.rule.Err == "ENOENT"
		fs = append(fs, f)
	}
	var rules []*world.FaultRule
	for _, f := range fs {
		rules = append(rules, f.rule)
	}
	judge := func(what string, got []string, failed bool, text string) {
		mustFail, mayFail := "", false
		lost := map[string]bool{} // directories that may be missing
		may := map[string]bool{}  // directories that may be returned
		for _, d := range w.dirs {
			if strings.HasSuffix(d, ".go") {
				// a name like that of a file: gosec goes by the name, as the
				// repository's tests demand
				may[filepath.Dir(d)] = true
			}
		}
		for _, f := range fs {
			if f.rule.Fired == 0 {
				continue
			}
			r.Probe("fault-reached")
			if below := excluded(f.path + "/"); f.dir && (excluded(f.path) || below) {
				// an expression may be about what is below the directory, and the
				// walked directory itself is named with a slash at its end
				mayFail = mayFail || !excluded(f.path) || f.path == sub
				r.Probe("excluded-directory-unreadable")
				for d := range want {
					if within(d, f.path) {
						lost[d] = true
					}
				}
				continue
			}
			if !f.dir && excluded(filepath.Dir(f.path)) {
				mayFail = mayFail || !excluded(f.path)
				continue
			}
			switch {
			case f.gone && f.dir:
				for d := range want {
					if within(d, f.path) {
						lost[d] = true
					}
				}
				mayFail = true
			case f.gone:
				lost[filepath.Dir(f.path)] = true
				mayFail = true
			case f.dir:
				mustFail = fmt.Sprintf("%s of the directory %q failed with %s", f.rule.Op, f.path, f.rule.Err)
			default:
				mayFail = true
			}
		}
		if mustFail != "" {
			if !failed {
				r.Fail("silent-loss", "%s: %s, but no error is reported (found %v)", what, mustFail, got)
			}
			r.Probe("walk-failed")
			return
		}
		if failed {
			if !mayFail {
				r.Fail("walk-fails", "%s: fails without reason: %s", what, text)
			}
			return
		}
		seen := map[string]bool{}
		for _, g := range got {
			d := relTo(root, g)
			if !filepath.IsAbs(g) {
				d = filepath.Clean(g)
			}
			if seen[d] {
				r.Fail("twice", "%s: %q is returned twice: %v", what, d, got)
			}
			seen[d] = true
			if !want[d] && (!may[d] || excluded(d) && filepath.Base(d) != ".git") {
				r.Fail("unwanted", "%s: %q is returned; directories with Go files that are not excluded: %v", what, d, sortedKeys(want))
			}
		}
		for d := range want {
			if !seen[d] && !lost[d] {
				r.Fail("lost", "%s: %q is not returned, only %v", what, d, got)
			}
		}
	}
	what := fmt.Sprintf("expansion of %q in %v, excluding %q", arg, w.dirs, opts)
	for _, f := range fs {
		what += fmt.Sprintf(", %s %q %s", f.rule.Op, f.path, f.rule.Err)
	}
	var text string
	if cli {
		o := CLIOpts{Format: "json"}
		o.Conc = 1 + r.Int(3)
		o.Paths = []string{arg}
		sp := world.CLISpec{Args: o.Args(), Dir: root, CPUs: 2, Cfg: r.SimCfg(), Faults: rules}
		for _, e := range opts {
			if e != "vendor" && e != "\\.git/" {
				sp.Args = append([]string{"-exclude-dir=" + e}, sp.Args...)
			}
		}
		res := r.CLI(what, sp, false)
		for k, f := range fs {
			if k < len(res.Trailer.Rules) {
				f.rule.Fired = res.Trailer.Rules[k]
			}
		}
		loadable := map[string]bool{}
		for d := range want {
			for _, f := range w.file[d] {
				if strings.HasSuffix(f, ".go") && !strings.HasSuffix(f, "_test.go") && !strings.HasPrefix(f, ".") && !strings.HasPrefix(f, "_") {
					loadable[d] = true
				}
			}
		}
		empty := len(want) == 0
		want = loadable
		var got []string
		for _, l := range res.Trailer.Loads {
			got = append(got, l.Dir)
		}
		if empty && res.Code != 0 {
			text = "no packages"
		} else {
			fired := false
			for _, f := range fs {
				fired = fired || f.rule.Fired > 0 // also when the package is imported later
			}
			judge(what, got, res.Code != 0 && (fired || len(got) == 0), string(res.Stderr))
		}
		text += fmt.Sprint(got, res.Code)
	} else {
		zz.W.FS = world.FaultFS(rules, r.Fired)
		var got []string
		var err error
		r.Sim(what, r.SimCfg(), func() { got, err = gosec.PackagePaths(arg, gosec.ExcludedDirsRegExp(opts)) })
		zz.W.FS = nil
		msg := ""
		if err != nil {
			msg = err.Error()
		}
		judge(what, got, err != nil, msg)
		if len(got) > 1 && sort.StringsAreSorted(got) {
			r.Probe("sorted")
		}
		text = fmt.Sprint(len(got), " found, error ", err)
	}
	r.Key = what
	r.Trivial = len(w.dirs) < 2
	r.Sample = what + ": " + text
}

func hasExcl(es []exclusion, e exclusion) bool {
	for _, x := range es {
		if x.opt == e.opt {
			return true
		}
	}
	return false
}
