package check

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/securego/gosec/v2/zz_sim/world"
	zz "github.com/securego/gosec/v2/zz_simrt"
)

func init() {
	register(&Prop{ID: "C19", Run: runC19})
}

// NoCode is everything that is reported, except the code snippet.
func (f Finding) NoCode() string {
	f.Code = ""
	return f.WithSupp()
}

var sabotages = []string{"remove", "truncate", "empty", "rewrite", "long-line", "directory", "append", "prepend", "remove-package", "binary"}

// sabotage changes a source file.
func sabotage(kind, file string, at int) {
	old, _ := os.ReadFile(file)
	var b []byte
	switch kind {
	case "remove":
		os.Remove(file)
		return
	case "directory":
		os.Remove(file)
		os.MkdirAll(file, 0o755)
		return
	case "remove-package":
		os.RemoveAll(filepath.Dir(file))
		return
	case "truncate":
		if at < len(old) {
			b = old[:at]
		}
	case "rewrite":
		b = []byte("package other\n\n// #nosec\nfunc Other() {}\n")
	case "long-line":
		b = []byte(strings.Repeat("x", 70000+at))
	case "append":
		b = append(old, "\nfunc ( {\n"...)
	case "prepend":
		b = append([]byte("// #nosec\n// Code generated by x. DO NOT EDIT.\n\n"), old...)
	case "binary":
		b = []byte("\x00\xff\xfe\r\r\n\n\x80")
	}
	if st, err := os.Stat(file); err == nil && st.IsDir() {
		return
	}
	os.WriteFile(file, b, 0o644)
}

func runC19(r *Run) {
	if r.P(1, 12) {
		r.c19CLI()
		return
	}
	n := 1 + r.Int(4)
	var cs []*pkgCase
	for i := 0; i < n; i++ {
		c := &pkgCase{name: fmt.Sprintf("p%d", i), mkdir: true, kind: "ok", expect: "ok"}
		var from string
		c.files, from = r.goodFiles(c.name)
		if r.P(1, 3) {
			if it := r.pickStateful(1)[0]; world.Compiles(it.Files) {
				c.files, from = copyFiles(it.Files), it.Name
			}
		}
		c.kind = from
		cs = append(cs, c)
	}
	o := r.ScanOpts()
	r.oldGo()
	root, paths := r.fresh(cs)
	r.install(root, cs, false)
	var ref *Scan
	r.Ref("scan of lasting files", func() { ref = DoScan(root, o, paths) })

	root, paths = r.fresh(cs)
	parsed := map[string]bool{}
	done := 0
	var acts []string
	l := &world.Loader{Fired: r.Fired}
	l.Plan = func(dir string) *world.Plan {
		p := &world.Plan{}
		var c *pkgCase
		for _, x := range cs {
			if base(dir) == x.name {
				c = x
			}
		}
		p.After = func() {
			parsed[dir] = true
			if c == nil {
				return
			}
			for k := 0; k < r.F(3); k++ {
				kind, file, at := pickF(r, sabotages), pickF(r, goNames(c.files)), r.F(600)
				wait := r.F(40)
				if r.FP(1, 3) {
					wait = 0
				}
				acts = append(acts, fmt.Sprintf("%s of %s/%s", kind, c.name, file))
				act := func() {
					sabotage(kind, filepath.Join(dir, file), at)
					done++
					r.Fired["file-"+kind]++
				}
				if wait == 0 {
					act()
					continue
				}
				zz.GoNamed("saboteur", func() {
					for i := 0; i < wait; i++ {
						zz.Yield()
					}
					act()
				})
			}
		}
		return p
	}
	zz.W.Load = l.Load
	zz.W.Exec = world.ExecFunc(world.GoodGoList("1.24"), nil)
	rate := r.F(4)
	zz.W.FS = func(op, path string, n int) *zz.Fault {
		if rate == 0 || (op != "open" && op != "read") || !parsed[filepath.Dir(path)] || !r.FP(rate, 6) {
			return nil
		}
		done++
		e := pickF(r, []string{"EACCES", "EIO", "EMFILE", "ENOENT"})
		r.Fired[op+":"+e]++
		ft := &zz.Fault{Err: world.ErrOf(e)}
		if op == "read" && r.FP(1, 2) {
			ft.Bytes = r.F(200)
		}
		return ft
	}
	o2 := o
	o2.Conc = 1 + r.Int(4)
	cfg := r.SimCfg()
	if r.P(1, 2) {
		cfg.RunLen = pick(r, []int{60, 15, 300})
	}
	var got *Scan
	r.Sim(fmt.Sprintf("scan of vanishing files with concurrency %d", o2.Conc), cfg, func() { got = DoScan(root, o2, paths) })
	zz.W.FS = nil
	what := fmt.Sprintf("the scan with %v, fault rate %d/6", acts, rate)
	if got.Err != ref.Err {
		r.Fail("scan-aborted", "%s returned %q", what, got.Err)
	}
	if d := diffSets("the scan of lasting files", multiset(ref.Findings, Finding.NoCode), what, multiset(got.Findings, Finding.NoCode)); d != "" {
		r.Fail("findings-differ", "findings differ:%s", d)
	}
	if d := diffSets("the scan of lasting files", errSet(ref), what, errSet(got)); d != "" {
		r.Fail("errors-differ", "errors differ:%s", d)
	}
	if metricsString(ref) != metricsString(got) {
		r.Fail("metrics-differ", "metrics of %s are %s, of the scan of lasting files %s", what, metricsString(got), metricsString(ref))
	}
	lost := 0
	for i := range got.Findings {
		if got.Findings[i].Code == "" {
			lost++
		}
	}
	if lost > 0 {
		r.Probe("snippet-missing")
	}
	r.Key = fmt.Sprint(acts, rate, o2, r.Sync, len(got.Findings))
	r.Trivial = done == 0 || len(ref.Findings) == 0
	r.Sample = fmt.Sprintf("%s, %v: %d findings, %d without snippet", what, o2, len(got.Findings), lost)
}

// c19CLI lets files vanish under the command.
func (r *Run) c19CLI() {
	cs := r.cliCases(3, false)
	t := r.newTree(cs)
	o := r.CLIOpts()
	o.Paths = []string{"./..."}
	o.Format, o.Quiet = "json", false
	ref := r.CLI("lasting files", r.spec(t, o, false), true)
	t = r.newTree(cs)
	sp := r.spec(t, o, true)
	var acts []string
	for k, c := range cs {
		if !r.FP(2, 3) || len(goNames(c.files)) == 0 {
			continue
		}
		f := pickF(r, goNames(c.files))
		switch r.F(3) {
		case 0:
			sp.Plans[k].RemoveAft = []string{f}
			acts = append(acts, "remove "+c.name+"/"+f)
		case 1:
			sp.Plans[k].Rewrite = map[string]string{f: pickF(r, []string{"", "package other\n", strings.Repeat("x", 70000), "\x00\xff"})}
			acts = append(acts, "rewrite "+c.name+"/"+f)
		case 2:
			sp.Faults = append(sp.Faults, &world.FaultRule{Op: "open", Suffix: "/" + c.name + "/" + f, Nth: 1 + r.F(4), Sticky: r.FP(1, 2), Err: pickF(r, []string{"EACCES", "EIO", "EMFILE", "ENOENT"})})
			acts = append(acts, "unreadable "+c.name+"/"+f)
		}
	}
	got := r.CLI("vanishing files", sp, false)
	what := fmt.Sprintf("gosec %s with %v", strings.Join(o.Args(), " "), acts)
	if got.Code != ref.Code {
		r.Fail("exit-status-differs", "%s: status %d, with lasting files %d: %s", what, got.Code, ref.Code, firstN(string(got.Stderr), 800))
	}
	jw, fw, err := parseJSON(t.root, ref.Stdout)
	if err != nil {
		r.Fail("not-json", "%s: %v", what, err)
	}
	jg, fg, err := parseJSON(t.root, got.Stdout)
	if err != nil {
		r.Fail("not-json", "%s: %v", what, err)
	}
	if d := diffSets("lasting files", multiset(fw, Finding.NoCode), what, multiset(fg, Finding.NoCode)); d != "" {
		r.Fail("findings-differ", "findings differ:%s", d)
	}
	if fmt.Sprint(jw.Stats, jw.Errors) != fmt.Sprint(jg.Stats, jg.Errors) {
		r.Fail("metrics-differ", "%s: counters and errors %v %v, with lasting files %v %v", what, jg.Stats, jg.Errors, jw.Stats, jw.Errors)
	}
	r.Key = fmt.Sprint(what, r.Sync)
	r.Trivial = len(acts) == 0 || len(fw) == 0
	r.Sample = fmt.Sprintf("%s: %d findings, status %d", what, len(fg), got.Code)
}
