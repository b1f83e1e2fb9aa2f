// Package check holds the simulated checks of the listed properties.
package check

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/securego/gosec/v2/zz_sim/world"
	zz "github.com/securego/gosec/v2/zz_simrt"
)

// Prop is the check of one property.
type Prop struct {
	ID   string
	Rule string // how the count of distinct non-trivial evaluations is formed
	Run  func(r *Run)
	// Race: data races seen during simulated executions are violations.
	Race bool
	// Weight of a run relative to others, used to size batches (0: 1).
	PerBatch int
}

// Props lists every check.
var Props = map[string]*Prop{}

func register(p *Prop) { Props[p.ID] = p }

// Violation is a broken property.
type Violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

// Run is one simulated run.
type Run struct {
	Prop     *Prop
	Tier     string
	St       [zz.NumStreams]*zz.Stream
	Index    int
	Dir      string // private scratch directory
	Scratch  string // directory of the process
	Fired    map[string]int
	Probes   map[string]int
	Known    []string // keys of known findings
	KnownHit map[string]int
	Verbose  bool
	refusal  string // text of the panic by which the program refuses its input

	Steps, Switches, Preempts, VNS, Execs int64
	LogHash, Sync                         uint64
	MaxGs                                 int
	Key                                   string // distinguishes evaluations
	Trivial                               bool
	Viol                                  *Violation
	Trace                                 []string
	children                              [][zz.NumStreams][]uint32 // recorded
	replayKids                            [][zz.NumStreams][]uint32
	replaying                             bool
	Sample                                string
	nuniq                                 int
}

type stop struct{}

// Fail ends the run with a violation.
func (r *Run) Fail(class, format string, args ...any) {
	r.Viol = &Violation{Class: class, Detail: fmt.Sprintf(format, args...)}
	panic(stop{})
}

// FailKnown ends the run with a violation unless key is a listed finding; it
// returns true when the finding is listed.
func (r *Run) FailKnown(key, class, format string, args ...any) bool {
	for _, k := range r.Known {
		if k == key {
			r.KnownHit[key]++
			return true
		}
	}
	r.Fail(class+" ["+key+"]", format, args...)
	return false
}

// Int draws from the workload stream.
func (r *Run) Int(n int) int { return r.St[zz.Workload].Int(n) }

// P is true with probability num/den.
func (r *Run) P(num, den int) bool { return r.St[zz.Workload].Chance(num, den) }

// F draws from the fault stream.
func (r *Run) F(n int) int { return r.St[zz.Faults].Int(n) }

// FP is true with probability num/den, drawn from the fault stream.
func (r *Run) FP(num, den int) bool { return r.St[zz.Faults].Chance(num, den) }

// Probe counts a rare condition.
func (r *Run) Probe(name string) { r.Probes[name]++ }

// Log adds a line to the readable trace.
func (r *Run) Log(format string, args ...any) {
	if r.Verbose && len(r.Trace) < 6000 {
		r.Trace = append(r.Trace, fmt.Sprintf(format, args...))
	}
}

func pick[T any](r *Run, xs []T) T { return xs[r.Int(len(xs))] }

func pickF[T any](r *Run, xs []T) T { return xs[r.F(len(xs))] }

// shuffle permutes xs by the workload stream; the default keeps the order.
func shuffle[T any](r *Run, xs []T) {
	for i := 0; i < len(xs)-1; i++ {
		j := i + r.Int(len(xs)-i)
		xs[i], xs[j] = xs[j], xs[i]
	}
}

// SimCfg draws the scheduler settings of an execution.
func (r *Run) SimCfg() zz.Config {
	runLens := []int{0, 2000, 300, 60, 15, 4}
	return zz.Config{RunLen: runLens[r.St[zz.Schedule].Int(len(runLens))], PermuteMap: true, Race: r.Prop.Race, MaxSteps: 30_000_000}
}

func hashMix(h, v uint64) uint64 { return zz.Mix(h*0x9e3779b97f4a7c15 + v) }

// absorb adds the result of an execution to the run's measures and reports
// crashes, deadlocks, leaks and data races.
// A panic that mentions r.refusal is how the program refuses its input.
func (r *Run) absorb(what string, res *zz.Result, judge bool) {
	r.Execs++
	r.Steps += res.Steps
	r.Switches += res.Switches
	r.Preempts += res.Preempts
	r.VNS += res.VirtualNS
	r.LogHash = hashMix(hashMix(r.LogHash, res.LogHash), uint64(res.Steps))
	r.Sync = hashMix(r.Sync, res.SyncHash)
	r.MaxGs = max(r.MaxGs, res.Gs)
	if r.Verbose {
		r.Log("== execution: %s", what)
		r.Trace = append(r.Trace, res.Trace...)
	}
	if res.Panic != "" && !(r.refusal != "" && strings.Contains(firstN(res.Panic, 400), r.refusal)) {
		if !panicInGosec(res.Panic) {
			world.HarnessFail("panic in the harness during %s: %s", what, res.Panic)
		}
		r.Fail("panic", "%s: the program panicked: %s", what, res.Panic)
	}
	if !judge {
		return
	}
	if res.Memory {
		r.Fail("unbounded-memory", "%s: the program holds more than a gigabyte after %d steps", what, res.Steps)
	}
	if res.Overrun {
		r.Fail("no-termination", "%s: still running after %d steps", what, res.Steps)
	}
	if res.Deadlock {
		r.Fail("deadlock", "%s: the caller is blocked for ever; blocked: %s", what, strings.Join(res.Leaked, "; "))
	}
	if len(res.Leaked) > 0 {
		r.Fail("goroutine-leak", "%s: returned, but goroutines stay blocked: %s", what, strings.Join(res.Leaked, "; "))
	}
	if len(res.Races) > 0 && r.Prop.Race {
		r.Fail("data-race", "%s: %s", what, strings.Join(res.Races, "; "))
	}
}

// panicInGosec decides whether a panic stack belongs to the code under test: the
// first frame inside the module decides.
func panicInGosec(stack string) bool {
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "\t") {
			continue
		}
		if i := strings.Index(l, "github.com/securego/gosec/v2"); i >= 0 {
			rest := l[i+len("github.com/securego/gosec/v2"):]
			if strings.HasPrefix(rest, "/zz_simrt") {
				continue
			}
			return !strings.HasPrefix(rest, "/zz_sim/")
		}
		if strings.HasPrefix(l, "main.") {
			return true // cmd/gosec
		}
	}
	return false
}

// Sim runs f as a simulated execution with this run's streams.
func (r *Run) Sim(what string, cfg zz.Config, f func()) *zz.Result {
	cfg.Verbose = r.Verbose
	res := zz.Run(r.St, cfg, f)
	r.absorb(what, res, true)
	return res
}

// Ref runs f under the benign schedule: no preemption, no permutation.
func (r *Run) Ref(what string, f func()) *zz.Result {
	var st [zz.NumStreams]*zz.Stream
	for i := range st {
		st[i] = zz.ReplayStream(nil)
	}
	res := zz.Run(st, zz.Config{MaxSteps: 30_000_000}, f)
	r.absorb(what, res, true)
	return res
}

// CLIResult is the observable outcome of one execution of the command.
type CLIResult struct {
	Code    int
	Stdout  []byte
	Stderr  []byte
	Trailer *world.CLITrailer
	Timeout bool
}

var kidSeq int

// TempDir is the directory for temporary files of the command.
func (r *Run) TempDir() string {
	d := filepath.Join(r.Scratch, "tmp")
	if err := os.MkdirAll(d, 0o755); err != nil {
		world.HarnessFail("scratch: %v", err)
	}
	return d
}

// CLI runs the instrumented command in a child process. kid numbers the
// execution within the run. benign executions use the default schedule.
func (r *Run) CLI(what string, sp world.CLISpec, benign bool) *CLIResult {
	kidSeq++
	sf := filepath.Join(r.Scratch, fmt.Sprintf("spec%d.json", kidSeq))
	sp.Trailer = filepath.Join(r.Scratch, fmt.Sprintf("trailer%d.json", kidSeq))
	if sp.Cfg.MaxSteps == 0 {
		sp.Cfg.MaxSteps = 30_000_000
	}
	sp.Cfg.Verbose = r.Verbose
	if sp.Env == nil {
		sp.Env = map[string]string{}
	}
	n := len(r.children)
	switch {
	case benign:
		sp.Replay = true
	case r.replaying:
		sp.Replay = true
		if n < len(r.replayKids) {
			sp.Streams = r.replayKids[n]
		}
	default:
		sp.Seed = uint64(r.St[zz.Schedule].Int(1<<31))<<20 + uint64(r.Index)
	}
	if r.replaying && !benign {
		r.St[zz.Schedule].Int(1 << 31) // keep the stream aligned with generation
	}
	b, err := json.Marshal(sp)
	if err != nil {
		world.HarnessFail("spec: %v", err)
	}
	if err := os.WriteFile(sf, b, 0o644); err != nil {
		world.HarnessFail("spec: %v", err)
	}
	defer os.Remove(sf)
	defer os.Remove(sp.Trailer)
	prog := "gosec"
	if sp.Prog != "" {
		prog = sp.Prog
	}
	cmd := exec.Command(os.Getenv("ZZ_" + strings.ToUpper(prog)))
	cmd.Env = []string{"ZZ_SPEC=" + sf, "ZZ_CORPUS=" + world.CorpusDir(), "PATH=/nonexistent", "HOME=" + r.Scratch, "TMPDIR=" + r.TempDir(), "TERM=dumb", "TZ=UTC", "GOMAXPROCS=2", "GOTRACEBACK=all"}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Start(); err != nil {
		world.HarnessFail("cannot start the command: %v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	out := &CLIResult{}
	select {
	case err = <-done:
	case <-time.After(60 * time.Second):
		cmd.Process.Kill()
		<-done
		world.HarnessFail("%s: the simulated command did not end within 60 s of real time: %v", what, sp.Args)
	}
	out.Stdout, out.Stderr = so.Bytes(), se.Bytes()
	out.Code = cmd.ProcessState.ExitCode()
	if out.Code == 3 && bytes.Contains(out.Stderr, []byte("HARNESS-ERROR")) {
		world.HarnessFail("%s: %s", what, out.Stderr)
	}
	if tb, err := os.ReadFile(sp.Trailer); err == nil {
		tr := &world.CLITrailer{}
		if err := json.Unmarshal(tb, tr); err != nil {
			world.HarnessFail("trailer: %v", err)
		}
		out.Trailer = tr
		for k, v := range tr.Fired {
			r.Fired[k] += v
		}
		if !benign {
			r.children = append(r.children, tr.Streams)
		}
		if tr.Res != nil {
			res := *tr.Res
			if tr.Exited {
				// the process ended: goroutines end with it
				res.Leaked, res.Deadlock = nil, false
			}
			r.Log("$ %s %s -> exit %d", prog, strings.Join(sp.Args, " "), out.Code)
			r.absorb(what+" ("+prog+" "+strings.Join(sp.Args, " ")+")", &res, true)
		}
	} else {
		// the flag package leaves through the real os.Exit
		r.Execs++
		out.Trailer = &world.CLITrailer{Code: out.Code, Exited: true, AI: &world.AILog{}}
		if !benign {
			r.children = append(r.children, [zz.NumStreams][]uint32{})
		}
		r.Log("$ %s %s -> exit %d (no trailer)", prog, strings.Join(sp.Args, " "), out.Code)
		if bytes.Contains(out.Stderr, []byte("fatal error:")) || bytes.Contains(out.Stderr, []byte("panic:")) {
			if panicInGosec(string(out.Stderr)) {
				r.Fail("panic", "%s (%s %s): %s", what, prog, strings.Join(sp.Args, " "), firstN(string(out.Stderr), 3000))
			}
			world.HarnessFail("%s: child crashed: %s", what, firstN(string(out.Stderr), 3000))
		}
	}
	return out
}

func firstN(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// Outcome of one run as printed for the driver.
type Outcome struct {
	Index    int            `json:"i"`
	Hash     string         `json:"h"`
	Sync     string         `json:"s"`
	Key      string         `json:"k"`
	Trivial  bool           `json:"t,omitempty"`
	Steps    int64          `json:"steps"`
	Switches int64          `json:"sw"`
	Preempts int64          `json:"pre"`
	NS       int64          `json:"ns"`
	Execs    int64          `json:"x"`
	Fired    map[string]int `json:"f,omitempty"`
	Probes   map[string]int `json:"p,omitempty"`
	Known    map[string]int `json:"kn,omitempty"`
	Sample   string         `json:"sample,omitempty"`
	MaxGs    int            `json:"g"`

	Viol  *Violation `json:"viol,omitempty"`
	Trace []string   `json:"trace,omitempty"`
	Rec   *Recording `json:"rec,omitempty"`
	Orig  *Recording `json:"orig,omitempty"`
	Tries int        `json:"tries,omitempty"`
}

// Recording holds every choice of a run.
type Recording struct {
	Streams  [zz.NumStreams][]uint32   `json:"streams"`
	Children [][zz.NumStreams][]uint32 `json:"children,omitempty"`
}

func (rec *Recording) size() int {
	n := 0
	for _, s := range rec.Streams {
		n += len(s)
	}
	for _, c := range rec.Children {
		for _, s := range c {
			n += len(s)
		}
	}
	return n
}

func (rec *Recording) weight() (n int, v uint64) {
	add := func(s []uint32) {
		n += len(s)
		for _, x := range s {
			v += uint64(x)
		}
	}
	for _, s := range rec.Streams {
		add(s)
	}
	for _, c := range rec.Children {
		for _, s := range c {
			add(s)
		}
	}
	return
}

func (rec *Recording) clone() *Recording {
	c := &Recording{}
	for i := range rec.Streams {
		c.Streams[i] = append([]uint32(nil), rec.Streams[i]...)
	}
	for _, k := range rec.Children {
		var n [zz.NumStreams][]uint32
		for i := range k {
			n[i] = append([]uint32(nil), k[i]...)
		}
		c.Children = append(c.Children, n)
	}
	return c
}

// Options of a batch.
type Options struct {
	Seed    uint64
	Tier    string
	Scratch string
	Known   []string
	Verbose bool
}

// Execute performs run number i; rec, if given, replaces the seed.
func Execute(p *Prop, o Options, i int, rec *Recording) *Run {
	r := &Run{Prop: p, Tier: o.Tier, Index: i, Scratch: o.Scratch, Dir: filepath.Join(o.Scratch, "r"), Fired: map[string]int{}, Probes: map[string]int{}, KnownHit: map[string]int{}, Known: o.Known, Verbose: o.Verbose, LogHash: 1, Sync: 1}
	if rec == nil {
		r.St = zz.SeedStreams(hashMix(o.Seed, hashString(p.ID)), uint64(i))
	} else {
		for k := range r.St {
			r.St[k] = zz.ReplayStream(rec.Streams[k])
		}
		r.replaying = true
		r.replayKids = rec.Children
	}
	if err := os.RemoveAll(r.Dir); err != nil {
		world.HarnessFail("scratch: %v", err)
	}
	if err := os.MkdirAll(r.Dir, 0o755); err != nil {
		world.HarnessFail("scratch: %v", err)
	}
	if err := os.Chdir(r.Dir); err != nil {
		world.HarnessFail("scratch: %v", err)
	}
	zz.W = zz.World{EnvSet: true, Env: map[string]string{}, CPUs: 8}
	zz.AI = nil
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(stop); ok {
					return
				}
				st := string(debug.Stack())
				// drop this function's own frames
				if k := strings.Index(st, "panic("); k >= 0 {
					st = st[k:]
				}
				if !panicInGosec(st) {
					world.HarnessFail("run %d of %s: %v\n%s", i, p.ID, x, st)
				}
				r.Viol = &Violation{Class: "panic", Detail: fmt.Sprintf("%v\n%s", x, firstN(st, 2500))}
			}
		}()
		p.Run(r)
	}()
	os.Chdir(o.Scratch)
	return r
}

func hashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// Recording extracts the choices of a finished run.
func (r *Run) Recording() *Recording {
	rec := &Recording{Children: r.children}
	for i := range r.St {
		rec.Streams[i] = append([]uint32(nil), r.St[i].Rec...)
	}
	return rec.clone()
}

// Out is the driver's view of a finished run.
func (r *Run) Out() *Outcome {
	h := r.LogHash
	if r.Viol != nil {
		h = hashMix(h, hashString(r.Viol.Class))
	}
	o := &Outcome{Index: r.Index, Hash: fmt.Sprintf("%016x", h), Sync: fmt.Sprintf("%016x", r.Sync), Key: fmt.Sprintf("%016x", hashString(strings.ReplaceAll(r.Key, r.Dir, ""))), Trivial: r.Trivial,
		Steps: r.Steps, Switches: r.Switches, Preempts: r.Preempts, NS: r.VNS, Execs: r.Execs, Viol: r.Viol, MaxGs: r.MaxGs}
	if len(r.Fired) > 0 {
		o.Fired = r.Fired
	}
	if len(r.Probes) > 0 {
		o.Probes = r.Probes
	}
	if len(r.KnownHit) > 0 {
		o.Known = r.KnownHit
	}
	if r.Index%97 == 0 {
		o.Sample = r.Sample
	}
	return o
}

// Shrink reduces a violating recording while the violation class persists.
func Shrink(p *Prop, o Options, i int, rec *Recording, class string, limit time.Duration) (*Recording, int) {
	end := time.Now().Add(limit)
	best := rec.clone()
	tries := 0
	if class == "unbounded-memory" {
		return best, 0 // every attempt would keep its memory
	}
	o.Verbose = false
	try := func(c *Recording) bool {
		if time.Now().After(end) {
			return false
		}
		tries++
		r := Execute(p, o, i, c)
		if r.Viol == nil || r.Viol.Class != class {
			return false
		}
		got := r.Recording() // normalised: only what was consumed
		bn, bv := best.weight()
		gn, gv := got.weight()
		if gn > bn || (gn == bn && gv >= bv) {
			return false
		}
		best = got
		return true
	}
	type ref struct{ kid, st int }
	get := func(rec *Recording, x ref) *[]uint32 {
		if x.kid < 0 {
			return &rec.Streams[x.st]
		}
		return &rec.Children[x.kid][x.st]
	}
	// first: normalise (a replay that consumes less is already smaller)
	for round := 0; round < 6 && time.Now().Before(end); round++ {
		before, bv := best.weight()
		var refs []ref
		for s := 0; s < zz.NumStreams; s++ {
			refs = append(refs, ref{-1, s})
		}
		for k := range best.Children {
			for s := 0; s < zz.NumStreams; s++ {
				refs = append(refs, ref{k, s})
			}
		}
		for _, x := range refs {
			if x.kid >= len(best.Children) {
				continue
			}
			// whole stream to defaults
			if len(*get(best, x)) > 0 {
				c := best.clone()
				*get(c, x) = nil
				if try(c) {
					continue
				}
			}
			// truncate, then delete and zero blocks
			for size := len(*get(best, x)) / 2; size > 0; size /= 2 {
				if x.kid >= len(best.Children) {
					break
				}
				for at := len(*get(best, x)) - size; at >= 0; at -= size {
					if x.kid >= len(best.Children) || at+size > len(*get(best, x)) {
						break
					}
					if time.Now().After(end) {
						return best, tries
					}
					c := best.clone()
					s := get(c, x)
					*s = append((*s)[:at], (*s)[at+size:]...)
					if try(c) {
						continue
					}
					c = best.clone()
					s = get(c, x)
					changed := false
					for k := at; k < at+size; k++ {
						if (*s)[k] != 0 {
							(*s)[k] = 0
							changed = true
						}
					}
					if changed {
						try(c)
					}
				}
				if size > 64 && len(*get(best, x)) > 3000 {
					continue
				}
			}
			// lower single values
			if x.kid < len(best.Children) && len(*get(best, x)) <= 400 {
				for at := 0; x.kid < len(best.Children) && at < len(*get(best, x)); at++ {
					v := (*get(best, x))[at]
					if v == 0 {
						continue
					}
					for _, nv := range []uint32{v / 2, v - 1} {
						c := best.clone()
						(*get(c, x))[at] = nv
						if try(c) {
							break
						}
					}
				}
			}
		}
		after, av := best.weight()
		if after == before && av == bv {
			break
		}
	}
	return best, tries
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
