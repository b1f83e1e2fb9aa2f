package zzsimrt

import (
	"container/heap"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"time"
)

// G is a simulated goroutine: a real goroutine that only runs while it holds
// the single token.
type G struct {
	id      int
	name    string
	gate    chan struct{}
	state   int // 0 runnable, 1 blocked, 2 dead
	reason  string
	vc      []uint32
	sel     *selState
	panicv  any
	daemon  bool
	pending func() // used by the timer machinery
}

const (
	runnable = iota
	blocked
	dead
)

// Result is what a finished run reports to its driver.
type Result struct {
	Steps       int64
	Switches    int64
	Preempts    int64
	Gs          int
	VirtualNS   int64
	LogHash     uint64
	SyncHash    uint64
	Leaked      []string
	Deadlock    bool
	Overrun     bool
	Memory      bool // stopped because of its memory
	Panic       string // panic value and stack in a simulated goroutine
	Races       []string
	Trace       []string
	MapPerms    int64
	SelChoices  int64
	MaxParallel int
}

// Config tunes one run; every field is derived from the workload stream or is
// a constant of the check.
type Config struct {
	MaxSteps   int64
	RunLen     int // mean number of points between preemptions; 0: switch only when blocked
	PermuteMap bool
	Race       bool
	Verbose    bool
	RootFirst  bool // the root goroutine runs whenever it can
}

type Sim struct {
	St        [NumStreams]*Stream
	cfg       Config
	cur       *G
	gs        []*G
	nlive     int
	countdown int
	now       int64
	timers    timerHeap
	tseq      int64
	res       Result
	done      chan struct{}
	finished  bool
	rootDone  bool
	chans     map[uintptr]*chanState
	nchan     int
	shadow    map[uintptr]*shadowCell
	raceOn    bool
	raceSeen  map[string]bool
	nobj      int
	points    int64
	// KillAfter aborts the run (like a process exit) when the step count is reached.
	idleFires int
}

// S is the running simulation, nil outside runs.
var S *Sim

const simEpoch = 1700000000 * int64(time.Second)

// Run executes root as the first goroutine of a new simulation and returns when
// every goroutine has finished, or nothing can run any more.
func Run(st [NumStreams]*Stream, cfg Config, root func()) *Result {
	if S != nil {
		panic("zzsimrt: nested Run")
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 20_000_000
	}
	s := &Sim{St: st, cfg: cfg, done: make(chan struct{}), chans: map[uintptr]*chanState{}}
	s.res.LogHash = 14695981039346656037
	s.res.SyncHash = 14695981039346656037
	if cfg.Race {
		s.shadow = map[uintptr]*shadowCell{}
		s.raceSeen = map[string]bool{}
	}
	S = s
	g := s.newG("main")
	s.cur = g
	s.rearm()
	go s.gmain(g, root, true)
	g.gate <- struct{}{}
	<-s.done
	S = nil
	s.res.VirtualNS = s.now
	s.res.Gs = len(s.gs)
	sort.Strings(s.res.Leaked)
	return &s.res
}

func (s *Sim) newG(name string) *G {
	g := &G{id: len(s.gs), name: name, gate: make(chan struct{})}
	s.gs = append(s.gs, g)
	s.nlive++
	if s.nlive > s.res.MaxParallel {
		s.res.MaxParallel = s.nlive
	}
	g.vc = make([]uint32, g.id+1)
	if s.cur != nil {
		g.vc = joinVC(g.vc, s.cur.vc)
		s.tick(s.cur)
	}
	g.vc = growVC(g.vc, g.id)
	g.vc[g.id] = 1
	return g
}

func (s *Sim) gmain(g *G, f func(), root bool) {
	<-g.gate
	normal := false
	defer func() {
		if !normal {
			if r := recover(); r != nil {
				s.res.Panic = fmt.Sprintf("%v\n%s", r, trimStack(debug.Stack()))
				s.logEvent('P', uint64(g.id), 0)
				s.note("panic in %s: %v", g.name, r)
				s.finish()
				return
			}
			// runtime.Goexit
		}
		g.state = dead
		s.nlive--
		s.logEvent('X', uint64(g.id), 0)
		if root {
			s.rootDone = true
		}
		s.switchAway(g)
	}()
	f()
	normal = true
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	// drop the frames of the recover machinery
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			lines = lines[i+2:]
			break
		}
	}
	if len(lines) > 24 {
		lines = lines[:24]
	}
	return strings.Join(lines, "\n")
}

// finish ends the run; the calling goroutine must not continue.
func (s *Sim) finish() {
	if s.finished {
		return
	}
	s.finished = true
	s.res.Steps = s.points
	close(s.done)
}

// hang parks the calling real goroutine for ever.
func hang() { select {} }

func (s *Sim) rearm() {
	if s.cfg.RunLen <= 0 {
		s.countdown = 1 << 60
		return
	}
	// Choice 0 means: do not preempt. The value drawn is the run length.
	v := s.St[Schedule].Int(2*s.cfg.RunLen + 1)
	if v == 0 {
		s.countdown = 64 * s.cfg.RunLen
		return
	}
	s.countdown = v
}

// Point is a potential preemption point and a unit of progress.
func Point(site int) {
	s := S
	if s == nil {
		return
	}
	s.points++
	if s.points > s.cfg.MaxSteps {
		s.overrun(site)
	}
	if s.points&0x3fff == 0 && tooMuchMemory() {
		s.res.Memory = true
		s.overrun(site)
	}
	if s.nlive == 1 {
		return
	}
	s.countdown--
	if s.countdown > 0 {
		return
	}
	s.rearm()
	s.res.Preempts++
	s.resched(site)
}

// Pt evaluates to v after a preemption point: it splits read-modify-write.
func Pt[T any](site int, v T) T {
	Point(site)
	return v
}

const (
	heapLook  = 1800 << 20 // heap with garbage from which a collection decides
	heapLimit = 1100 << 20 // live heap
)

var heapSample = []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}

// tooMuchMemory tells whether the live heap is far beyond what any run needs.
func tooMuchMemory() bool {
	metrics.Read(heapSample)
	if heapSample[0].Value.Uint64() < heapLook {
		return false
	}
	runtime.GC()
	metrics.Read(heapSample)
	return heapSample[0].Value.Uint64() > heapLimit
}

func (s *Sim) overrun(site int) {
	if !s.finished {
		s.res.Overrun = true
		s.note("step budget exceeded in %s at site %d", s.cur.name, site)
		s.finish()
	}
	hang()
}

// resched lets the schedule stream pick who runs next; the current goroutine
// stays runnable.
func (s *Sim) resched(site int) {
	g := s.cur
	n := s.pick(g)
	if n == g {
		return
	}
	s.handoff(g, n, site)
}

func (s *Sim) handoff(g, n *G, site int) {
	s.res.Switches++
	s.logEvent('S', uint64(n.id), uint64(site))
	s.cur = n
	n.gate <- struct{}{}
	<-g.gate
}

// pick chooses a runnable goroutine, preferring the current one as default.
func (s *Sim) pick(cur *G) *G {
	var cand []*G
	if cur != nil && cur.state == runnable {
		cand = append(cand, cur)
	}
	for _, g := range s.gs {
		if g.state == runnable && g != cur {
			cand = append(cand, g)
		}
	}
	if len(cand) == 0 {
		return nil
	}
	if s.cfg.RootFirst {
		for _, g := range cand {
			if g.id == 0 {
				return g
			}
		}
	}
	return cand[s.St[Schedule].Int(len(cand))]
}

// block parks the current goroutine until another one makes it runnable.
func (s *Sim) block(reason string) {
	g := s.cur
	g.state = blocked
	g.reason = reason
	for {
		n := s.pick(nil)
		if n == nil {
			if s.fireTimer() {
				continue
			}
			s.stuck()
			hang()
		}
		if n == g {
			s.logEvent('S', uint64(n.id), 1)
			return
		}
		s.handoff(g, n, 2)
		return
	}
}

// switchAway is called by a goroutine that has died.
func (s *Sim) switchAway(g *G) {
	for {
		n := s.pick(nil)
		if n == nil {
			alive := false
			for _, x := range s.gs {
				if x.state != dead {
					alive = true
				}
			}
			if alive && s.fireTimer() {
				continue
			}
			if alive {
				s.stuck()
				return
			}
			s.finish()
			return
		}
		s.res.Switches++
		s.logEvent('S', uint64(n.id), 3)
		s.cur = n
		n.gate <- struct{}{}
		return
	}
}

// stuck: nothing is runnable, no timer is pending.
func (s *Sim) stuck() {
	for _, x := range s.gs {
		if x.state == blocked {
			s.res.Leaked = append(s.res.Leaked, fmt.Sprintf("%s: %s", x.name, x.reason))
		}
	}
	if !s.rootDone {
		s.res.Deadlock = true
	}
	s.finish()
}

func (s *Sim) wake(g *G) {
	if g.state == blocked {
		g.state = runnable
		g.reason = ""
	}
}

// Go starts a simulated goroutine.
func Go(site int, f func()) {
	s := S
	if s == nil {
		go f()
		return
	}
	g := s.newG(fmt.Sprintf("g%d@%s", len(s.gs), siteName(site)))
	s.raceOn = s.shadow != nil
	s.logEvent('G', uint64(g.id), uint64(site))
	go s.gmain(g, f, false)
	Point(site)
}

// GoNamed starts a simulated goroutine on behalf of a harness.
func GoNamed(name string, f func()) {
	s := S
	if s == nil {
		go f()
		return
	}
	g := s.newG(name)
	s.raceOn = s.shadow != nil
	s.logEvent('G', uint64(g.id), 0)
	go s.gmain(g, f, false)
}

// Yield forces a scheduling decision.
func Yield() {
	if s := S; s != nil {
		s.points++
		if s.points > s.cfg.MaxSteps {
			s.overrun(0)
		}
		if s.nlive > 1 {
			s.resched(0)
		}
	}
}

// ---- event log -------------------------------------------------------------

func fnv(h, v uint64) uint64 {
	for i := 0; i < 8; i++ {
		h ^= v & 0xff
		h *= 1099511628211
		v >>= 8
	}
	return h
}

func (s *Sim) logEvent(kind byte, a, b uint64) {
	s.res.LogHash = fnv(fnv(fnv(s.res.LogHash, uint64(kind)), a), b)
	if kind != 'S' {
		id := uint64(0)
		if s.cur != nil {
			id = uint64(s.cur.id)
		}
		s.res.SyncHash = fnv(fnv(fnv(s.res.SyncHash, uint64(kind)), a), id)
	}
	if s.cfg.Verbose && len(s.res.Trace) < 4000 {
		id := -1
		if s.cur != nil {
			id = s.cur.id
		}
		switch kind {
		case 'S':
			s.res.Trace = append(s.res.Trace, fmt.Sprintf("[%d] g%d -> run g%d (at %s)", s.points, id, a, siteName(int(b))))
		case 'N':
		default:
			s.res.Trace = append(s.res.Trace, fmt.Sprintf("[%d] g%d %s obj=%d", s.points, id, kindName(kind), a))
		}
	}
}

func kindName(k byte) string {
	switch k {
	case 'G':
		return "spawn goroutine"
	case 'X':
		return "goroutine exits"
	case 'P':
		return "panic"
	case 's':
		return "chan send"
	case 'r':
		return "chan receive"
	case 'c':
		return "chan close"
	case 'd':
		return "select default"
	case 'L':
		return "lock"
	case 'U':
		return "unlock"
	case 'W':
		return "waitgroup"
	case 'T':
		return "timer fires"
	}
	return string(k)
}

// Current is a snapshot of the result of the running simulation.
func Current() *Result {
	s := S
	if s == nil {
		return nil
	}
	r := s.res
	r.Steps = s.points
	r.VirtualNS = s.now
	r.Gs = len(s.gs)
	return &r
}

// Note records a harness-visible event: it goes into the event hash and, in
// verbose mode, into the readable trace.
func Note(format string, args ...any) {
	if s := S; s != nil {
		s.note(format, args...)
	}
}

func (s *Sim) note(format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	h := uint64(14695981039346656037)
	for i := 0; i < len(msg); i++ {
		h ^= uint64(msg[i])
		h *= 1099511628211
	}
	s.logEvent('N', h, 0)
	if s.cfg.Verbose && len(s.res.Trace) < 4000 {
		id := -1
		if s.cur != nil {
			id = s.cur.id
		}
		s.res.Trace = append(s.res.Trace, fmt.Sprintf("[%d] g%d %s", s.points, id, msg))
	}
}

// CurID is the id of the running simulated goroutine, -1 outside runs.
func CurID() int {
	if S == nil || S.cur == nil {
		return -1
	}
	return S.cur.id
}

// LiveGs counts goroutines that have not exited.
func LiveGs() int {
	if S == nil {
		return 0
	}
	return S.nlive
}

// Steps is the number of points executed so far.
func Steps() int64 {
	if S == nil {
		return 0
	}
	return S.points
}

// Sites maps site numbers to source positions; filled by generated code.
var Sites []string

func siteName(site int) string {
	if site >= 0 && site < len(Sites) && Sites[site] != "" {
		return Sites[site]
	}
	return fmt.Sprintf("site%d", site)
}

// ---- timers ----------------------------------------------------------------

type simTimer struct {
	at     int64
	seq    int64
	f      func()
	idx    int
	active bool
}

type timerHeap []*simTimer

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *timerHeap) Push(x any)   { t := x.(*simTimer); t.idx = len(*h); *h = append(*h, t) }
func (h *timerHeap) Pop() any {
	o := *h
	t := o[len(o)-1]
	*h = o[:len(o)-1]
	return t
}

func (s *Sim) addTimer(d time.Duration, f func()) *simTimer {
	if d < 0 {
		d = 0
	}
	s.tseq++
	t := &simTimer{at: s.now + int64(d), seq: s.tseq, f: f, active: true}
	heap.Push(&s.timers, t)
	return t
}

func (s *Sim) delTimer(t *simTimer) bool {
	if !t.active {
		return false
	}
	t.active = false
	heap.Remove(&s.timers, t.idx)
	return true
}

// fireTimer advances the virtual clock to the next timer and runs it.
func (s *Sim) fireTimer() bool {
	if len(s.timers) == 0 {
		return false
	}
	if s.rootDone {
		s.idleFires++
		if s.idleFires > 1000 {
			return false
		}
	}
	t := heap.Pop(&s.timers).(*simTimer)
	t.active = false
	if t.at > s.now {
		s.now = t.at
	}
	s.logEvent('T', uint64(t.seq), uint64(s.now))
	t.f()
	return true
}

// Fatalf reports a defect of the simulator itself.
func Fatalf2(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "zzsimrt internal error: "+format+"\n", args...)
	buf := make([]byte, 1<<16)
	n := runtime.Stack(buf, true)
	os.Stderr.Write(buf[:n])
	os.Exit(70)
}
