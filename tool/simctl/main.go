// Command simctl builds the simulation of the current /repo tree and runs the
// check of one property.
//
//	simctl check ID [quick|thorough]
//	simctl replay FILE
//	simctl build DIR           (keeps the instrumented binaries in DIR)
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/tool/instr"
)

const (
	exitOK    = 0
	exitViol  = 1
	exitError = 3
)

type outcome struct {
	Index    int            `json:"i"`
	Hash     string         `json:"h"`
	Sync     string         `json:"s"`
	Key      string         `json:"k"`
	Trivial  bool           `json:"t"`
	Steps    int64          `json:"steps"`
	Switches int64          `json:"sw"`
	Preempts int64          `json:"pre"`
	NS       int64          `json:"ns"`
	Execs    int64          `json:"x"`
	Fired    map[string]int `json:"f"`
	Probes   map[string]int `json:"p"`
	Known    map[string]int `json:"kn"`
	Sample   string         `json:"sample"`
	MaxGs    int            `json:"g"`
	Viol     *struct {
		Class  string `json:"class"`
		Detail string `json:"detail"`
	} `json:"viol"`
	Trace []string        `json:"trace"`
	Rec   json.RawMessage `json:"rec"`
	Orig  json.RawMessage `json:"orig"`
	Tries int             `json:"tries"`
}

// finger summarises what an execution did.
func (o *outcome) finger() string {
	return fmt.Sprintf("sync=%s key=%s steps=%d switches=%d preempts=%d ns=%d execs=%d", o.Sync, o.Key, o.Steps, o.Switches, o.Preempts, o.NS, o.Execs)
}

type replayFile struct {
	Property string          `json:"property"`
	Class    string          `json:"class"`
	Detail   string          `json:"detail"`
	Seed     uint64          `json:"seed"`
	Run      int             `json:"run"`
	From     int             `json:"history_from"`
	Mode     string          `json:"mode"`
	Tier     string          `json:"tier"`
	Rec      json.RawMessage `json:"recording,omitempty"`
	Trace    []string        `json:"trace,omitempty"`
	Note     string          `json:"note,omitempty"`
	Command  string          `json:"command"`
}

type known struct {
	Findings []struct {
		Property string `json:"property"`
		Key      string `json:"key"`
		What     string `json:"what"`
	} `json:"findings"`
	Fixed []string `json:"fixed"`
}

var (
	verifDir = "/verif"
	repoDir  = "/repo"
	scratch  string
	t0       = time.Now()
)

func die(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "simctl: "+format+"\n", args...)
	cleanup()
	os.Exit(exitError)
}

func cleanup() {
	if scratch != "" {
		os.RemoveAll(scratch)
	}
}

func makeScratch() {
	for _, d := range []string{"/dev/shm", os.TempDir()} {
		if p, err := os.MkdirTemp(d, "gosec-sim-"); err == nil {
			var st syscall.Statfs_t
			if syscall.Statfs(p, &st) == nil && uint64(st.Bavail)*uint64(st.Bsize) < 600<<20 {
				os.RemoveAll(p)
				continue
			}
			scratch = p
			return
		}
	}
	die("no scratch directory")
}

type build struct {
	sim, gosec string
	tlsconfig  string
	res        *instr.Result
	secs       float64
}

// doBuild builds what the checks of a property need, of all if it is empty.
func doBuild(dir, prop string) *build {
	start := time.Now()
	ov := filepath.Join(dir, "ov")
	if err := os.MkdirAll(ov, 0o755); err != nil {
		die("%v", err)
	}
	res, err := instr.Run(instr.Options{RepoDir: repoDir, OutDir: ov, SimrtDir: filepath.Join(verifDir, "simrt"), HarnessDir: filepath.Join(verifDir, "harness"), MainExtra: filepath.Join(verifDir, "simmain/zz_main.go"), Env: os.Environ(), GenaiSim: true})
	if err != nil {
		die("instrumenting %s: %v", repoDir, err)
	}
	b := &build{sim: filepath.Join(dir, "sim"), gosec: filepath.Join(dir, "gosec"), res: res}
	targets := []struct{ out, pkg string }{{b.sim, "./zz_sim/sim"}, {b.gosec, "./cmd/gosec"}}
	if prop == "C27" || prop == "" {
		b.tlsconfig = filepath.Join(dir, "tlsconfig")
		targets = append(targets, struct{ out, pkg string }{b.tlsconfig, "./cmd/tlsconfig"})
	}
	var wg sync.WaitGroup
	errs := make([]string, len(targets))
	for i, t := range targets {
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.Command("go", "build", "-overlay", res.Overlay, "-ldflags=-s -w", "-o", t.out, t.pkg)
			cmd.Dir = repoDir
			if o, err := cmd.CombinedOutput(); err != nil {
				errs[i] = fmt.Sprintf("building %s: %v\n%s", t.pkg, err, o)
			}
		}()
	}
	wg.Wait()
	for _, e := range errs {
		if e != "" {
			die("%s", e)
		}
	}
	b.secs = time.Since(start).Seconds()
	return b
}

// ---- running batches ------------------------------------------------------------

type batchResult struct {
	from, to int
	outs     []*outcome
	viol     *outcome
	crash    string
	crashRun int
	err      string

	knownCrashes []string
}

type runner struct {
	b     *build
	prop  string
	tier  string
	seed  uint64
	known []string
}

func (rn *runner) env(procs int) []string {
	return []string{"ZZ_GOSEC=" + rn.b.gosec, "ZZ_TLSCONFIG=" + rn.b.tlsconfig, "ZZ_CORPUS=" + filepath.Join(verifDir, "corpus"), "PATH=/usr/bin:/bin", "HOME=" + scratch, "TMPDIR=" + scratch, "TZ=UTC", "GOMAXPROCS=" + strconv.Itoa(procs), "GOGC=400", "GOMEMLIMIT=3GiB", "GOTRACEBACK=all"}
}

var seq int
var seqMu sync.Mutex

func (rn *runner) args(extra ...string) ([]string, string) {
	seqMu.Lock()
	seq++
	// equal length keeps path-dependent behaviour equal
	sc := filepath.Join(scratch, fmt.Sprintf("w%06d", seq))
	seqMu.Unlock()
	a := []string{"-prop", rn.prop, "-seed", strconv.FormatUint(rn.seed, 10), "-tier", rn.tier, "-scratch", sc, "-known", strings.Join(rn.known, "\n")}
	return append(a, extra...), sc
}

// batch runs the given range of runs in one process, or in several when listed
// crashes end it early.
func (rn *runner) batch(from, to, procs int, deadline time.Duration) *batchResult {
	end := time.Now().Add(deadline)
	all := &batchResult{from: from, to: to}
	for at := from; at < to; {
		res := rn.batch1(at, to, procs, max(time.Until(end), time.Second))
		all.outs = append(all.outs, res.outs...)
		if res.crash != "" {
			if k := rn.knownCrash(res.crash); k != "" {
				all.knownCrashes = append(all.knownCrashes, k)
				at = res.crashRun + 1
				continue
			}
		}
		all.viol, all.crash, all.crashRun, all.err = res.viol, res.crash, res.crashRun, res.err
		if all.viol != nil || all.crash != "" {
			all.from = at // the process that failed started here
		}
		break
	}
	return all
}

// knownCrash finds the listed finding of which all parts occur in the crash.
func (rn *runner) knownCrash(text string) string {
	for _, k := range rn.known {
		if !strings.HasPrefix(k, "crash:") {
			continue
		}
		ok := true
		for _, part := range strings.Split(strings.TrimPrefix(k, "crash:"), "&") {
			ok = ok && strings.Contains(text, part)
		}
		if ok {
			return k
		}
	}
	return ""
}

func (rn *runner) batch1(from, to, procs int, deadline time.Duration) *batchResult {
	res := &batchResult{from: from, to: to}
	args, sc := rn.args("-from", strconv.Itoa(from), "-to", strconv.Itoa(to), "-deadline", deadline.String())
	defer os.RemoveAll(sc)
	cmd := exec.Command(rn.b.sim, args...)
	cmd.Env = rn.env(procs)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	var eb bytes.Buffer
	cmd.Stderr = &limitWriter{w: &eb, n: 1 << 20}
	so, err := cmd.StdoutPipe()
	if err != nil {
		res.err = err.Error()
		return res
	}
	if err := cmd.Start(); err != nil {
		res.err = err.Error()
		return res
	}
	last := make(chan struct{}, 1000)
	timedOut := false
	var tmu sync.Mutex
	finished := make(chan struct{})
	go func() {
		t := time.NewTimer(150 * time.Second)
		for {
			select {
			case <-last:
				t.Reset(150 * time.Second)
			case <-t.C:
				tmu.Lock()
				timedOut = true
				tmu.Unlock()
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				return
			case <-finished:
				return
			}
		}
	}()
	cur, done := -1, false
	var pre *outcome
	rd := bufio.NewReaderSize(so, 1<<20)
	for {
		line, err := rd.ReadBytes('\n')
		if len(line) > 0 {
			select {
			case last <- struct{}{}:
			default:
			}
			if bytes.HasPrefix(line, []byte("B ")) {
				cur, _ = strconv.Atoi(strings.TrimSpace(string(line[2:])))
			} else if bytes.HasPrefix(line, []byte(`{"done"`)) {
				done = true
			} else if bytes.HasPrefix(line, []byte(`{"pre"`)) {
				var x struct {
					Pre *outcome `json:"pre"`
				}
				if json.Unmarshal(line, &x) == nil {
					pre = x.Pre
				}
			} else if line[0] == '{' {
				o := &outcome{}
				if e := json.Unmarshal(line, o); e != nil {
					res.err = "unreadable output of the simulator: " + e.Error()
				} else if o.Viol != nil {
					res.viol = o
				} else {
					res.outs = append(res.outs, o)
				}
			}
		}
		if err != nil {
			if err != io.EOF {
				res.err = err.Error()
			}
			break
		}
	}
	werr := cmd.Wait()
	close(finished)
	if res.viol == nil && pre != nil {
		pre.Rec = pre.Orig
		res.viol = pre
	}
	if res.viol != nil || done {
		return res
	}
	tmu.Lock()
	defer tmu.Unlock()
	switch {
	case timedOut:
		res.err = fmt.Sprintf("run %d of %s made no progress for 150 s of real time", cur, rn.prop)
	case strings.Contains(eb.String(), "HARNESS-ERROR"):
		res.err = eb.String()
	case strings.Contains(eb.String(), "fatal error: all goroutines are asleep"):
		res.err = "simulator deadlock: " + eb.String()
	case werr != nil && (strings.Contains(eb.String(), "fatal error:") || strings.Contains(eb.String(), "stack overflow") || strings.Contains(eb.String(), "panic:")) && strings.Contains(eb.String(), "securego/gosec"):
		res.crash, res.crashRun = eb.String(), cur
	default:
		res.err = fmt.Sprintf("the simulator ended without an answer in run %d: %v %s", cur, werr, first(eb.String(), 2000))
	}
	return res
}

type limitWriter struct {
	w io.Writer
	n int
}

func (l *limitWriter) Write(b []byte) (int, error) {
	n := len(b)
	if len(b) > l.n {
		b = b[:l.n]
	}
	l.n -= len(b)
	l.w.Write(b)
	return n, nil
}

func first(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// replay runs a replay file in a fresh process.
func (rn *runner) replay(path string, verbose bool) (*outcome, string) {
	extra := []string{"-replay", path}
	if verbose {
		extra = append(extra, "-verbose")
	}
	args, sc := rn.args(extra...)
	defer os.RemoveAll(sc)
	cmd := exec.Command(rn.b.sim, args...)
	cmd.Env = rn.env(2)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	tm := time.AfterFunc(200*time.Second, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	err := cmd.Run()
	tm.Stop()
	for _, l := range bytes.Split(so.Bytes(), []byte("\n")) {
		if len(l) > 0 && l[0] == '{' {
			o := &outcome{}
			if json.Unmarshal(l, o) == nil {
				return o, ""
			}
		}
	}
	return nil, fmt.Sprintf("%v %s", err, first(se.String(), 4000))
}

// ---- per-property budgets ------------------------------------------------------------

type budget struct {
	runs     int // quick runs
	batch    int
	level    string
	assume   []string
	thorough time.Duration
}

func main() {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
	if d := os.Getenv("REPO_DIR"); d != "" {
		repoDir = d
	}
	if len(os.Args) < 3 {
		die("usage: simctl check ID [tier] | replay FILE | build DIR")
	}
	switch os.Args[1] {
	case "build":
		b := doBuild(os.Args[2], "")
		fmt.Printf("built in %.1f s; %d sites; %v\n", b.secs, b.res.Sites, b.res.Counts)
		fmt.Println(strings.Join(b.res.Census, "\n"))
	case "check":
		tier := "quick"
		if t := os.Getenv("VERIF_TIER"); t != "" {
			tier = t
		}
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		makeScratch()
		code := check(os.Args[2], tier)
		cleanup()
		os.Exit(code)
	case "replay":
		makeScratch()
		code := replayCmd(os.Args[2])
		cleanup()
		os.Exit(code)
	default:
		die("unknown command %q", os.Args[1])
	}
}

func loadKnown() known {
	var k known
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json"))
	if err != nil {
		if os.IsNotExist(err) {
			return k
		}
		die("%v", err)
	}
	if err := json.Unmarshal(b, &k); err != nil {
		die("known_findings.json: %v", err)
	}
	return k
}

func replayCmd(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		die("%v", err)
	}
	rn := &runner{b: doBuild(scratch, rf.Property), prop: rf.Property, tier: rf.Tier, seed: rf.Seed}
	o, fail := rn.replay(path, true)
	if o == nil {
		if strings.HasPrefix(rf.Class, "crash") && strings.Contains(fail, "securego/gosec") {
			fmt.Println(fail)
			fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
			return exitViol
		}
		die("replay gave no answer: %s", fail)
	}
	for _, l := range o.Trace {
		fmt.Println(l)
	}
	if o.Viol == nil {
		fmt.Println("the run does not violate the property on this tree")
		return exitOK
	}
	fmt.Printf("%s: %s\n", o.Viol.Class, o.Viol.Detail)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
	return exitViol
}

func check(id, tier string) int {
	bud, ok := budgets[id]
	if !ok {
		die("unknown property %q", id)
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		v, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			die("VERIF_SEED: %v", err)
		}
		seed = uint64(v)
	}
	fmt.Printf("seed=%d tier=%s property=%s\n", seed, tier, id)
	kf := loadKnown()
	rn := &runner{b: doBuild(scratch, id), prop: id, tier: tier, seed: seed}
	for _, f := range kf.Findings {
		if f.Property == id {
			rn.known = append(rn.known, f.Key)
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.What)
		}
	}
	ag := newAgg()
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	exploreStart := time.Now()
	total := bud.runs
	limit := 240 * time.Second // quick runs are bounded by their number; this is a cap for slow machines
	if tier == "thorough" {
		total = 1 << 30
		limit = bud.thorough
	}
	var mu sync.Mutex
	next, stop := 0, false
	var bad *batchResult
	var firstErr string
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if stop || next >= total || time.Since(exploreStart) > limit {
					mu.Unlock()
					return
				}
				from := next
				to := min(from+bud.batch, total)
				next = to
				mu.Unlock()
				br := rn.batch(from, to, 2, max(limit-time.Since(exploreStart), time.Second))
				mu.Lock()
				for _, o := range br.outs {
					ag.add(o)
				}
				for _, k := range br.knownCrashes {
					ag.known[k]++
				}
				if br.viol != nil || br.crash != "" {
					if bad == nil || br.from < bad.from {
						bad = br
					}
					stop = true
				}
				if br.err != "" && firstErr == "" {
					firstErr = br.err
					stop = true
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	exploreSecs := time.Since(exploreStart).Seconds()
	viols := 0
	code := exitOK
	if bad != nil {
		viols = 1
		path, ok := rn.report(bad)
		if !ok {
			die("a violation was seen in run %d but could not be reproduced: the simulation is not deterministic\n%s", bad.viol.Index, bad.viol.Viol.Detail)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		code = exitViol
	} else if firstErr != "" {
		die("%s", first(firstErr, 6000))
	} else {
		// determinism audit: repeat samples of the runs in other processes with
		// another worker count and other batch boundaries
		audited, mism, err := rn.audit(ag, bud)
		if err != "" {
			die("determinism audit: %s", err)
		}
		ag.audited, ag.mismatches = audited, mism
		for _, m := range mism {
			fmt.Printf("determinism audit: %s\n", m)
		}
	}
	ag.write(id, tier, seed, bud, rn, exploreSecs, viols)
	fmt.Printf("%s: %d runs, %d distinct non-trivial, %d distinct interleavings, %d violations, %.1f s (build %.1f s)\n", id, len(ag.hash), len(ag.distinct), len(ag.syncs), viols, time.Since(t0).Seconds(), rn.b.secs)
	return code
}

func (rn *runner) audit(ag *agg, bud budget) (n int, mism []string, err string) {
	span := max(3, bud.batch/10)
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for k := 0; k < 8; k++ {
		from := (k*bud.runs)/8 + k
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			br := rn.batch(from, from+span, 1+k%4, 60*time.Second)
			mu.Lock()
			defer mu.Unlock()
			if br.err != "" && err == "" {
				err = br.err
			}
			for _, o := range br.outs {
				h, ok := ag.hash[o.Index]
				if !ok {
					continue
				}
				n++
				if f := ag.finger[o.Index]; h != o.Hash || f != o.finger() {
					mism = append(mism, fmt.Sprintf("run %d of %s (seed %d) gave two different executions: %s %s and %s %s", o.Index, rn.prop, rn.seed, h, f, o.Hash, o.finger()))
				}
			}
		}()
	}
	wg.Wait()
	return n, mism, err
}

// report writes the replay file and makes sure it reproduces in a fresh process.
func (rn *runner) report(br *batchResult) (string, bool) {
	dir := filepath.Join(verifDir, "evidence", "replays")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		die("%v", err)
	}
	path := filepath.Join(dir, fmt.Sprintf("%s-seed%d.json", rn.prop, rn.seed))
	write := func(rf *replayFile) {
		rf.Command = verifDir + "/run.sh replay " + path
		b, _ := json.MarshalIndent(rf, "", " ")
		if err := os.WriteFile(path, b, 0o644); err != nil {
			die("%v", err)
		}
	}
	if br.crash != "" {
		rf := &replayFile{Property: rn.prop, Class: "crash", Detail: first(br.crash, 4000), Seed: rn.seed, Run: br.crashRun, From: br.from, Mode: "seed", Tier: rn.tier}
		write(rf)
		o, fail := rn.replay(path, false)
		if o == nil && strings.Contains(fail, "securego/gosec") {
			fmt.Printf("crash: %s\n", first(br.crash, 3000))
			return path, true
		}
		br.viol = &outcome{Index: br.crashRun}
		br.viol.Viol = &struct {
			Class  string `json:"class"`
			Detail string `json:"detail"`
		}{"crash", br.crash}
		return path, false
	}
	v := br.viol
	rf := &replayFile{Property: rn.prop, Class: v.Viol.Class, Detail: v.Viol.Detail, Seed: rn.seed, Run: v.Index, From: br.from, Tier: rn.tier}
	tries := 0
	try := func(mode string, rec json.RawMessage, note string) bool {
		rf.Mode, rf.Rec, rf.Note = mode, rec, note
		write(rf)
		var o *outcome
		for k := 0; ; k++ {
			o, _ = rn.replay(path, true)
			if o != nil && o.Viol != nil && (o.Viol.Class == v.Viol.Class || mode != "recording") {
				break
			}
			if k == tries {
				return false
			}
		}
		rf.Class, rf.Detail, rf.Trace = o.Viol.Class, o.Viol.Detail, o.Trace
		write(rf)
		fmt.Printf("%s: %s\n", o.Viol.Class, o.Viol.Detail)
		fmt.Printf("run %d, %s\n", v.Index, note)
		return true
	}
	tries = 0
again:
	if len(v.Rec) > 0 && try("recording", v.Rec, fmt.Sprintf("minimised with %d trial executions", v.Tries)) {
		return path, true
	}
	if len(v.Orig) > 0 && try("recording", v.Orig, "not minimised: the minimised run needs the history of its process") {
		return path, true
	}
	if try("seed", nil, "replayed from its seed") {
		return path, true
	}
	if try("history", nil, fmt.Sprintf("needs the runs from %d in the same process: state is kept between scans", br.from)) {
		return path, true
	}
	if tries == 0 {
		tries = 6 // an uncontrolled source of nondeterminism is involved
		goto again
	}
	return path, false
}

// ---- evidence -------------------------------------------------------------------------

type agg struct {
	hash     map[int]string
	finger   map[int]string
	distinct map[string]bool
	syncs    map[string]bool
	steps    int64
	sw, pre  int64
	ns       int64
	execs    int64
	fired    map[string]int
	probes   map[string]int
	known    map[string]int
	samples  map[int]string
	maxGs    int
	audited  int

	mismatches []string
}

func newAgg() *agg {
	return &agg{hash: map[int]string{}, finger: map[int]string{}, distinct: map[string]bool{}, syncs: map[string]bool{}, fired: map[string]int{}, probes: map[string]int{}, known: map[string]int{}, samples: map[int]string{}}
}

func (a *agg) add(o *outcome) {
	a.hash[o.Index] = o.Hash
	a.finger[o.Index] = o.finger()
	if !o.Trivial {
		a.distinct[o.Key] = true
	}
	a.syncs[o.Sync] = true
	a.steps += o.Steps
	a.sw += o.Switches
	a.pre += o.Preempts
	a.ns += o.NS
	a.execs += o.Execs
	for k, v := range o.Fired {
		a.fired[k] += v
	}
	for k, v := range o.Probes {
		a.probes[k] += v
	}
	for k, v := range o.Known {
		a.known[k] += v
	}
	if o.Sample != "" {
		a.samples[o.Index] = o.Sample
	}
	a.maxGs = max(a.maxGs, o.MaxGs)
}

func (a *agg) write(id, tier string, seed uint64, bud budget, rn *runner, secs float64, viols int) {
	var idx []int
	for i := range a.samples {
		idx = append(idx, i)
	}
	sort.Ints(idx)
	var samples []string
	for _, i := range idx {
		samples = append(samples, fmt.Sprintf("run %d: %s", i, a.samples[i]))
		if len(samples) == 8 {
			break
		}
	}
	perHour := func(n float64) int64 {
		if secs <= 0 {
			return 0
		}
		return int64(n / secs * 3600)
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": int64(seed), "level": bud.level,
		"wall_s": time.Since(t0).Seconds(), "violations": viols,
		"assumptions": append([]string{
			"the simulated package loader, go command and AI service behave like the real ones in the respects DESIGN.md lists",
			"preemption happens at statement boundaries and synchronisation operations of gosec's own packages; the standard library and third-party modules run atomically between them",
		}, bud.assume...),
		"coverage": map[string]any{
			"evaluations": len(a.hash), "distinct_nontrivial": len(a.distinct), "rule": ruleOf[id], "samples": samples,
			"simulated_executions": a.execs, "runs_per_hour": perHour(float64(len(a.hash))), "seeds_per_hour": perHour(float64(len(a.hash))),
			"seeds": "every run has its own seed derived from VERIF_SEED and its number", "exploration_s": secs, "build_s": rn.b.secs,
			"simulated_time_s": float64(a.ns) / 1e9, "steps": a.steps, "context_switches": a.sw, "preemptions": a.pre, "max_goroutines": a.maxGs,
			"faults_injected": a.fired, "probes": a.probes, "known_finding_hits": a.known,
			"distinct_interleavings": len(a.syncs), "interleaving_measure": "hash of the order of synchronisation operations, spawns, timers and harness events of all executions of a run",
			"determinism_audit_runs": a.audited, "determinism_audit_mismatches": len(a.mismatches),
			"real_code": rn.b.res.Packages, "instrumentation": rn.b.res.Counts, "instrumented_sites": rn.b.res.Sites,
			"stubs":               []string{"packages.Load (parses and type-checks the real files against frozen export data)", "go list -m -json", "generative AI service below the client", "files: real files in a scratch directory behind a fault layer", "clock, timers, contexts with deadlines: virtual"},
			"uncontrolled_census": rn.b.res.Census,
		},
	}
	dir := filepath.Join(verifDir, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		die("%v", err)
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, id+".json"), b, 0o644); err != nil {
		die("%v", err)
	}
}
