// Package zzsimrt is the deterministic simulation runtime. It is injected into
// the gosec module through a build overlay; the instrumented copy of the gosec
// sources calls it instead of the go statement, channels, sync, time, context,
// os, exec, map iteration and the package loader.
package zzsimrt

// The four independent decision streams of a run. A run is a pure function of
// the code and these streams.
const (
	Workload = iota // what is scanned, with which options
	Schedule        // which goroutine runs, when it is preempted, which ready case fires
	Faults          // which operation fails and how
	Order           // iteration order of unordered collections
	NumStreams
)

var StreamNames = [NumStreams]string{"workload", "schedule", "faults", "order"}

// Stream yields recorded choices. Choice 0 is always the benign default, so
// that shrinking towards zero and shorter lists simplifies a run.
type Stream struct {
	Rec    []uint32
	replay []uint32
	gen    bool
	state  uint64
}

func NewStream(seed uint64) *Stream { return &Stream{gen: true, state: seed} }

func ReplayStream(rec []uint32) *Stream { return &Stream{replay: rec} }

func (s *Stream) next() uint64 {
	s.state += 0x9e3779b97f4a7c15
	return Mix(s.state)
}

// Mix is the splitmix64 finaliser.
func Mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Int draws a choice in [0,n).
func (s *Stream) Int(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	if s.gen {
		v = uint32(s.next() % uint64(n))
	} else if len(s.Rec) < len(s.replay) {
		v = s.replay[len(s.Rec)] % uint32(n)
	}
	s.Rec = append(s.Rec, v)
	return int(v)
}

// Chance is true with probability num/den; the default (0) is false.
func (s *Stream) Chance(num, den int) bool {
	return s.Int(den) >= den-num
}

// SeedStreams derives the streams of run number i of a batch.
func SeedStreams(seed uint64, run uint64) [NumStreams]*Stream {
	var st [NumStreams]*Stream
	for k := range st {
		st[k] = NewStream(Mix(Mix(seed*0x9e3779b97f4a7c15+run)+uint64(k)*0xd1342543de82ef95) | 1)
	}
	return st
}
