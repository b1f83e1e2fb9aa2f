package check

import (
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/issue"
	"github.com/securego/gosec/v2/zz_sim/world"
	zz "github.com/securego/gosec/v2/zz_simrt"
)

func init() {
	register(&Prop{ID: "C23", Run: runC23})
}

// snapshot describes everything below the directories.
func snapshot(dirs ...string) map[string]string {
	m := map[string]string{}
	for _, d := range dirs {
		filepath.WalkDir(d, func(p string, e fs.DirEntry, err error) error {
			if err != nil {
				return nil
			}
			st, err := e.Info()
			if err != nil {
				return nil
			}
			switch {
			case st.IsDir():
				m[p] = st.Mode().String()
			case st.Mode().IsRegular():
				b, _ := os.ReadFile(p)
				m[p] = fmt.Sprintf("%v %d %x %v", st.Mode(), len(b), hashString(string(b)), st.ModTime().UnixNano())
			default:
				l, _ := os.Readlink(p)
				m[p] = st.Mode().String() + l
			}
			return nil
		})
	}
	return m
}

// changes lists what differs, except at the given places.
func changes(a, b map[string]string, except ...string) []string {
	var out []string
	for p, x := range a {
		if y, ok := b[p]; !ok {
			out = append(out, "removed "+p)
		} else if x != y && !contains(except, p) {
			out = append(out, "changed "+p)
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok && !contains(except, p) {
			out = append(out, "created "+p)
		}
	}
	sort.Strings(out)
	return out
}

// process describes the settings of this process which belong to its user.
func process() string {
	cwd, _ := os.Getwd()
	env := os.Environ()
	sort.Strings(env)
	return cwd + "\n" + strings.Join(env, "\n")
}

// runC23 decides that scans and reports leave nothing behind.
func runC23(r *Run) {
	if r.P(1, 6) {
		r.c23CLI()
		return
	}
	var cs []*pkgCase
	for i := 0; i < 1+r.Int(5); i++ {
		if r.P(1, 4) {
			c := r.brokenCase(fmt.Sprintf("p%d", i))
			cs = append(cs, c)
			continue
		}
		c := r.genCase(i, r.P(1, 2))
		if c.kind == "ok" && r.P(1, 3) {
			x, _, _ := r.suppCase(Opts{})
			c.files = x[0].files
		}
		cs = append(cs, c)
	}
	o := r.ScanOpts()
	o.Conc = 1 + r.Int(6)
	if r.P(1, 4) {
		o.Tags = []string{"integration", "e2e"}[:1+r.Int(2)]
	}
	r.oldGo()
	tmp := r.TempDir()
	root, paths := r.fresh(cs)
	r.install(root, cs, true)
	planned := zz.W.FS
	rate, limit := r.F(4), 0
	if r.FP(1, 2) {
		limit = o.Conc + 1 + r.F(4)
	}
	zz.W.FS = func(op, path string, n int) *zz.Fault {
		if planned == nil {
		} else if ft := planned(op, path, n); ft != nil {
			return ft
		}
		if limit > 0 && op == "open" && zz.Files.OpenNow() >= limit {
			r.Fired["descriptors-used-up"]++
			return &zz.Fault{Err: world.ErrOf("EMFILE")}
		}
		if rate == 0 || (op != "open" && op != "read") || !r.FP(rate, 12) {
			return nil
		}
		e := pickF(r, []string{"EACCES", "EIO", "EMFILE", "ENOENT"})
		r.Fired[op+":"+e]++
		ft := &zz.Fault{Err: world.ErrOf(e)}
		if op == "read" && r.FP(1, 2) {
			ft.Bytes = r.F(200)
		}
		return ft
	}
	removes := false
	for _, c := range cs {
		removes = removes || !c.stable()
	}
	os.Setenv("TMPDIR", tmp)
	proc, before := process(), snapshot(root, tmp)
	zz.ResetFiles()
	var got *Scan
	var a *gosec.Analyzer
	lg, _ := NewLogger()
	what := fmt.Sprintf("scan of %v with %v", kinds(cs), o)
	r.Sim(what, r.SimCfg(), func() {
		a = o.New(lg)
		for k := 0; k < 1+r.Int(2); k++ {
			a.Process(o.Tags, paths...)
		}
		got = Collect(root, a)
	})
	r.leftBehind(what, o.Conc, removes, before, snapshot(root, tmp), proc)
	opened := zz.Files.Opened
	if r.P(1, 3) {
		// reports, some of them failing
		zz.ResetFiles()
		is := append([]*issue.Issue(nil), got.raw...)
		ri := gosec.NewReportInfo(is, got.metrics, got.errs)
		for k := 0; k < 1+r.Int(3); k++ {
			format := pick(r, formats)
			w := &faultyWriter{mode: "none"}
			if r.FP(1, 2) {
				w.mode, w.at, w.sticky = "cut", r.F(2000), true
			}
			r.Sim(format+" report", r.SimCfg(), func() { renderTo(w, format, []string{root}, ri) })
		}
		r.leftBehind("reports of the "+what, 0, removes, before, snapshot(root, tmp), proc)
	}
	r.Key = fmt.Sprint(what, opened, r.Sync)
	r.Trivial = opened == 0
	r.Sample = fmt.Sprintf("%s: %d files opened, at most %d at once", what, opened, zz.Files.Max)
}

// leftBehind decides what is left when something returned.
func (r *Run) leftBehind(what string, conc int, removes bool, before, after map[string]string, proc string) {
	if l := zz.Files.Open(); len(l) > 0 {
		r.Fail("files-left-open", "%s: %d of %d files are still open when it has returned: %v", what, len(l), zz.Files.Opened, l[:min(len(l), 5)])
	}
	if zz.Files.Max > conc+1 {
		r.Fail("too-many-files", "%s: %d files were open at once with %d workers", what, zz.Files.Max, conc)
	}
	if len(zz.Files.Wrote) > 0 {
		r.Fail("files-changed", "%s: it changed the file system: %v", what, zz.Files.Wrote)
	}
	if ch := changes(before, after); len(ch) > 0 && !removes {
		r.Fail("files-changed", "%s: %v", what, ch)
	}
	if p := process(); p != proc {
		r.Fail("process-changed", "%s: the working directory or the environment changed from\n%s\nto\n%s", what, proc, p)
	}
}

// c23CLI decides what the command leaves behind: its outputs only.
func (r *Run) c23CLI() {
	cs := r.cliCases(4, true)
	t := r.newTree(cs)
	o := r.CLIOpts()
	o.Quiet = false
	o.Paths = r.roots(t)
	sp := r.spec(t, o, true)
	var outs []string
	if r.P(1, 2) {
		o.Out = filepath.Join(r.Dir, "report")
		if r.P(1, 3) {
			o.Out = filepath.Join(t.root, "report") // in the scanned tree
		}
		outs = append(outs, o.Out)
		o.Stdout = r.P(1, 2)
		if r.P(1, 3) {
			os.WriteFile(o.Out, []byte(strings.Repeat("old content\n", 2000)), 0o600)
		}
	}
	sp.Args = o.Args()
	if r.P(1, 2) {
		log := filepath.Join(r.Dir, "log.txt")
		sp.Args = append([]string{"-log=" + log}, sp.Args...)
		outs = append(outs, log)
	}
	if r.P(1, 2) {
		conf := filepath.Join(r.Dir, "conf.json")
		os.WriteFile(conf, []byte(`{"global": {"audit": "enabled"}}`), 0o644)
		sp.Args = append([]string{"-conf=" + conf}, sp.Args...)
	}
	for _, f := range outs {
		if r.FP(1, 4) {
			sp.Faults = append(sp.Faults, &world.FaultRule{Op: pickF(r, []string{"create", "write", "close"}), Suffix: "/" + filepath.Base(f), Err: pickF(r, []string{"ENOSPC", "EIO", "EACCES"}), Sticky: true, At: r.F(500)})
		}
	}
	before := snapshot(r.Dir, r.TempDir())
	got := r.CLI("gosec", sp, false)
	after := snapshot(r.Dir, r.TempDir())
	args := "gosec " + strings.Join(sp.Args, " ")
	if ch := changes(before, after, outs...); len(ch) > 0 {
		r.Fail("files-changed", "%s: %v", args, ch)
	}
	for _, w := range got.Trailer.Wrote {
		if op, name, _ := strings.Cut(w, " "); op != "create" || !contains(outs, name) {
			r.Fail("files-changed", "%s: %s", args, w)
		}
	}
	for _, f := range got.Trailer.Open {
		if !contains(outs, f) || f == o.Out {
			r.Fail("files-left-open", "%s: %s is open at the end", args, f)
		}
	}
	if got.Trailer.Most > o.Conc+2 {
		r.Fail("too-many-files", "%s: %d files were open at once", args, got.Trailer.Most)
	}
	r.Key = fmt.Sprint(args, r.Sync)
	r.Trivial = len(outs) == 0
	r.Sample = fmt.Sprintf("%s: wrote %v, at most %d files open", args, got.Trailer.Wrote, got.Trailer.Most)
}
