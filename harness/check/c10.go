package check

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/securego/gosec/v2/zz_sim/world"
)

func init() {
	register(&Prop{ID: "C10", Run: runC10})
}

// badArgs are arguments which must be refused.
var badArgs = []string{"-severity=severe", "-confidence=1", "-severity=", "-confidence=none", "-concurrency=many", "-unknown-flag", "-exclude=-G104", "-quiet=maybe", "-no-fail=7"}

// badConfigs are contents of configuration files which must be refused.
var badConfigs = []string{"", "{", "[]", "{\"global\": }", "{\"global\": {\"audit\": \"enabled\"}", "\"x\"", "{} {}", "{\"a\":1,}", "not json", "\x00\x01", "{\"global\": {\"nosec\": tru}}"}

// goodConfigs have no effect on what the chosen packages yield, or one that the
// reference scan has too.
var goodConfigs = []string{"{}", "{\"global\":{\"audit\":\"enabled\"}}", "{\"global\":{\"nosec\":true}}", "{\"G104\":{\"os\":[\"Chdir\"]}}", "{\"G301\":\"0600\",\"global\":{\"show-ignored\":\"false\"}}"}

func runC10(r *Run) {
	n := 1 + r.Int(4)
	var cs []*pkgCase
	anyFatal := false
	for i := 0; i < n; i++ {
		var c *pkgCase
		if r.P(1, 2) {
			c = r.genCase(i, true)
		} else {
			c = r.genCase(i, false)
		}
		if c.kind == "ok" && r.P(1, 3) {
			c.kind = "clean"
			c.files = map[string]string{"c.go": fmt.Sprintf("package clean\n\nfunc Clean%d(a, b int) bool { return a < b }\n", i)}
			if r.P(1, 2) {
				c.files["s.go"] = "package clean\n\nimport \"crypto/md5\" // #nosec G501 -- known\n\nfunc S(b []byte) [16]byte {\n\treturn md5.Sum(b) // #nosec\n}\n"
			}
		}
		if c.kind == "ok" && r.FP(1, 12) {
			c.kind = "fatal"
			c.plan = &world.PlanSpec{Extra: []world.ErrSpec{{Pos: "a.go:x", Msg: "uninterpretable", Kind: 2}}}
			r.Fired["case-uninterpretable-error"]++
		}
		cs = append(cs, c)
	}
	t := r.newTree(cs)
	o := r.CLIOpts()
	recursive := r.P(1, 2)
	if recursive {
		o.Paths = []string{"./..."}
	} else {
		o.Paths = t.dirs()
		shuffle(r, o.Paths)
	}
	o.Quiet = r.P(1, 3)
	o.NoFail = r.P(1, 3)

	var hard, soft []string // reasons to fail, with and without regard to -no-fail
	must := func(why string) { hard = append(hard, why) }

	sp0 := []*world.FaultRule{}
	var extra []string
	// configuration
	if r.P(1, 3) {
		o.ConfFile = filepath.Join(r.Dir, "conf.json")
		text := pick(r, goodConfigs)
		o.Opts.Config = text
		switch r.F(8) {
		case 4:
			o.ConfFile = filepath.Join(r.Dir, "missing.json")
			must("the configuration file does not exist")
			r.Fired["conf-missing"]++
		case 5:
			text = pickF(r, badConfigs)
			must("the configuration is malformed")
			r.Fired["conf-malformed"]++
		case 6:
			sp0 = append(sp0, &world.FaultRule{Op: "open", Suffix: "/conf.json", Sticky: true, Err: pickF(r, []string{"EACCES", "EIO", "EMFILE"})})
			must("the configuration file cannot be opened")
		case 7:
			sp0 = append(sp0, &world.FaultRule{Op: "read", Suffix: "/conf.json", Sticky: true, Err: "EIO", At: r.F(len(text) + 1)})
			must("the configuration file cannot be read")
		}
		writeItem(r.Dir, map[string]string{"conf.json": text})
	}
	// log file
	if r.P(1, 4) {
		o.Log = filepath.Join(r.Dir, "log.txt")
		switch r.F(5) {
		case 3:
			o.Log = filepath.Join(r.Dir, "nodir", "log.txt")
			must("the log file cannot be created")
			r.Fired["log-directory-missing"]++
		case 4:
			sp0 = append(sp0, &world.FaultRule{Op: "create", Suffix: "/log.txt", Sticky: true, Err: pickF(r, []string{"EACCES", "ENOSPC", "EMFILE"})})
			must("the log file cannot be created")
		}
	}
	// invalid arguments
	if r.FP(1, 10) {
		extra = append(extra, pickF(r, badArgs))
		if !o.Track && r.FP(1, 6) {
			extra[0] = pickF(r, []string{"-include=G999", "-include=G998,G999"}) // no rule is left
		}
		must("the argument " + extra[0] + " is invalid")
		r.Fired["argument-invalid"]++
	}
	if r.FP(1, 25) {
		o.Paths = nil
		recursive = false
		must("no packages are named")
		r.Fired["argument-missing"]++
	}
	if r.FP(1, 25) && len(o.Paths) > 0 {
		o.Paths = []string{"./no/such/root/..."}
		must("no packages are found")
		r.Fired["packages-missing"]++
	}
	// report files
	outWritten := -1 // fault rules that make the emission of the report fail
	stdoutUsed := true
	if r.P(1, 2) {
		o.Out = filepath.Join(r.Dir, "report")
		o.Stdout = r.P(1, 2)
		stdoutUsed = o.Stdout
		if o.Stdout {
			o.Verbose = pick(r, append([]string{""}, formats...))
		}
	}
	outMissing := false
	outRule := len(sp0)
	if r.FP(1, 3) {
		if o.Out != "" && (!stdoutUsed || r.FP(1, 2)) {
			switch r.F(5) {
			case 0:
				o.Out = filepath.Join(r.Dir, "nodir", "report")
				outMissing = true
				r.Fired["report-directory-missing"]++
			case 1:
				sp0 = append(sp0, &world.FaultRule{Op: "create", Suffix: "/report", Sticky: true, Err: pickF(r, []string{"EACCES", "ENOSPC", "EMFILE"})})
			case 2:
				sp0 = append(sp0, &world.FaultRule{Op: "write", Suffix: "/report", Nth: r.F(3), Sticky: true, Err: pickF(r, []string{"ENOSPC", "EIO", "EDQUOT"})})
			case 3:
				sp0 = append(sp0, &world.FaultRule{Op: "write", Suffix: "/report", At: 1 + r.F(3000), Sticky: true, Err: pickF(r, []string{"ENOSPC", "EIO", "EDQUOT"})})
			case 4:
				sp0 = append(sp0, &world.FaultRule{Op: "close", Suffix: "/report", Sticky: true, Err: pickF(r, []string{"ENOSPC", "EIO", "EDQUOT"})})
			}
		} else {
			f := &world.FaultRule{Op: "write", Suffix: "/dev/stdout", Sticky: true, Err: pickF(r, []string{"EPIPE", "ENOSPC", "EIO"})}
			if r.FP(1, 2) {
				f.Nth = r.F(4)
			} else {
				f.At = 1 + r.F(3000)
			}
			sp0 = append(sp0, f)
		}
		if len(sp0) > outRule {
			outWritten = outRule
		}
	}
	// failing walk
	if recursive && len(o.Paths) > 0 && r.FP(1, 10) {
		var suf string
		op := "lstat"
		if c := pickF(r, cs); c.mkdir && r.FP(1, 2) {
			suf, op = "/"+c.name, "readdir|lstat"
			must("the directory " + c.name + " cannot be examined")
		} else if !strings.HasPrefix(o.Paths[0], "./no") {
			suf, op = t.root, "readdir|lstat"
			must("the root directory cannot be examined")
		}
		if suf != "" {
			sp0 = append(sp0, &world.FaultRule{Op: op, Suffix: suf, Sticky: true, Err: pickF(r, []string{"EACCES", "EIO", "EMFILE"})})
		}
	}

	// what the scan itself yields
	var ref *Scan
	var reached []*pkgCase
	if len(hard) == 0 {
		var dirs []string
		for _, c := range cs {
			d := filepath.Join(t.root, c.name)
			if recursive {
				if c.kind == "readdir-fault" {
					must("the directory " + c.name + " cannot be listed")
				}
				if c.asFile || len(allGo(c.files)) == 0 {
					continue
				}
			}
			dirs = append(dirs, d)
			reached = append(reached, c)
		}
		if len(dirs) == 0 && len(hard) == 0 {
			must("there are no packages")
		}
		for _, c := range reached {
			switch {
			case c.kind == "fatal":
				anyFatal = true
			case c.expect == "error" || c.expect == "partial":
				soft = append(soft, "package "+c.name+" of kind "+c.kind+" cannot be loaded")
			}
		}
		if anyFatal {
			must("a package has errors that cannot be interpreted")
		}
		if len(hard) == 0 {
			ref = r.refScan(t, o, dirs)
			if ref.Err != "" {
				r.Fail("scan-aborted", "the reference scan returned %s", ref.Err)
			}
		}
	}
	emitted := ref != nil
	unclear := false
	if ref != nil {
		sel := o.filtered(ref.Findings)
		active := 0
		for _, f := range sel {
			if f.Active() {
				active++
			} else if len(f.Supp) == 0 {
				unclear = true // shown although ignored
			}
		}
		if active > 0 {
			soft = append(soft, fmt.Sprintf("there are %d unsuppressed findings", active))
			if !o.Quiet && r.FP(1, 4) {
				// after the import the files can no longer be opened: no snippets
				for _, f := range sel {
					sp0 = append(sp0, &world.FaultRule{Op: "open", Suffix: "/" + f.File, Nth: 1, Sticky: true, Err: pickF(r, []string{"EACCES", "EIO", "EMFILE", "ENOENT"})})
				}
				r.Probe("sources-unreadable")
			}
		}
		if len(ref.Errors) > 0 {
			soft = append(soft, "there are source errors")
		}
		if o.Quiet && len(sel) == 0 {
			emitted = false
		}
		if outMissing && emitted {
			must("the folder of the report does not exist")
		}
	}
	fresh := r.newTree(cs)
	oo := o
	oo.Opts.Config = ""
	sp := r.spec(fresh, oo, true)
	nCase := len(sp.Faults)
	sp.Faults = append(sp.Faults, sp0...)
	at := len(sp.Args) - len(o.Paths)
	sp.Args = append(append(append([]string(nil), sp.Args[:at]...), extra...), sp.Args[at:]...)
	res := r.CLI("gosec", sp, false)
	args := strings.Join(sp.Args, " ")
	if outWritten >= 0 && len(res.Trailer.Rules) > nCase+outWritten && res.Trailer.Rules[nCase+outWritten] > 0 {
		must("writing the report failed")
		r.Probe("report-fault-reached")
	}
	if len(hard) > 0 {
		if res.Code == 0 {
			r.Fail("success-despite-failure", "gosec %s exits with status 0, although %s\nstderr: %s", args, strings.Join(hard, ", "), firstN(string(res.Stderr), 1500))
		}
		r.Probe("hard-failure")
	} else {
		switch {
		case len(soft) > 0 && !o.NoFail && res.Code == 0:
			r.Fail("success-despite-findings", "gosec %s exits with status 0, although %s\nstderr: %s", args, strings.Join(soft, ", "), firstN(string(res.Stderr), 1500))
		case len(soft) > 0 && o.NoFail && res.Code != 0:
			r.Fail("failure-despite-no-fail", "gosec %s exits with status %d, although the scan and its outputs were completed\nstderr: %s", args, res.Code, firstN(string(res.Stderr), 1500))
		case len(soft) == 0 && res.Code != 0 && !(unclear && !o.NoFail):
			r.Fail("failure-of-clean-scan", "gosec %s exits with status %d, although the scan is clean and complete\nstderr: %s", args, res.Code, firstN(string(res.Stderr), 1500))
		}
		r.Probe("completed")
		if len(soft) == 0 {
			r.Probe("clean")
		}
		if emitted && o.Out != "" {
			b, err := os.ReadFile(o.Out)
			if err != nil || (len(b) == 0 && alwaysSome[o.Format]) {
				r.Fail("report-missing", "gosec %s exits with status %d, but the report was not written (%v)", args, res.Code, err)
			}
		}
		if f := printed(o); emitted && stdoutUsed && alwaysSome[f] && len(res.Stdout) == 0 {
			r.Fail("report-missing", "gosec %s exits with status %d, but nothing was written to standard output", args, res.Code)
		}
	}
	var kinds []string
	for _, c := range cs {
		kinds = append(kinds, c.kind)
	}
	r.Key = fmt.Sprint(kinds, o, extra, hard, len(soft), r.Sync)
	r.Trivial = false
	r.Sample = fmt.Sprintf("gosec %s over %v: hard %v, soft %v, status %d", args, kinds, hard, soft, res.Code)
}

// alwaysSome are formats whose reports are never empty.
var alwaysSome = map[string]bool{"json": true, "yaml": true, "html": true, "sonarqube": true, "sarif": true, "junit-xml": true, "text": true}

// printed is the format on standard output.
func printed(o CLIOpts) string {
	if o.Verbose != "" {
		return o.Verbose
	}
	if o.Format == "" {
		return "text"
	}
	return o.Format
}

// allGo names every Go file, tests included.
func allGo(files map[string]string) []string {
	var out []string
	for _, f := range fileNames(files) {
		if strings.HasSuffix(f, ".go") {
			out = append(out, f)
		}
	}
	return out
}
