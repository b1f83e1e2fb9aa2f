package zzsimrt

import (
	"fmt"
	"unsafe"
)

func growVC(v []uint32, id int) []uint32 {
	for len(v) <= id {
		v = append(v, 0)
	}
	return v
}

func joinVC(dst, src []uint32) []uint32 {
	if len(dst) < len(src) {
		dst = growVC(dst, len(src)-1)
	}
	for i, x := range src {
		if x > dst[i] {
			dst[i] = x
		}
	}
	return dst
}

func (s *Sim) tick(g *G) {
	g.vc = growVC(g.vc, g.id)
	g.vc[g.id]++
}

func (s *Sim) acquire(vc []uint32) { s.cur.vc = joinVC(s.cur.vc, vc) }

// release joins the current clock into vc and advances the goroutine.
func (s *Sim) release(vc []uint32) []uint32 {
	vc = joinVC(append([]uint32(nil), vc...), s.cur.vc)
	s.tick(s.cur)
	return vc
}

// ---- happens-before race detection -----------------------------------------

type epoch struct {
	g    int
	clk  uint32
	site int
}

type shadowCell struct {
	keep  unsafe.Pointer // keeps the object alive: its address is not reused in this run
	w     epoch
	hasW  bool
	reads []epoch
}

const maxShadow = 1 << 20

func (s *Sim) access(p unsafe.Pointer, write bool, site int) {
	c := s.shadow[uintptr(p)]
	if c == nil {
		if len(s.shadow) >= maxShadow {
			return
		}
		c = &shadowCell{keep: p}
		s.shadow[uintptr(p)] = c
	}
	g := s.cur
	if c.hasW && c.w.g != g.id && (c.w.g >= len(g.vc) || g.vc[c.w.g] < c.w.clk) {
		s.race(c.w, true, site, write)
	}
	if write {
		for _, r := range c.reads {
			if r.g != g.id && (r.g >= len(g.vc) || g.vc[r.g] < r.clk) {
				s.race(r, false, site, true)
			}
		}
		c.w = epoch{g.id, g.vc[g.id], site}
		c.hasW = true
		c.reads = c.reads[:0]
		return
	}
	for i := range c.reads {
		if c.reads[i].g == g.id {
			c.reads[i].clk = g.vc[g.id]
			c.reads[i].site = site
			return
		}
	}
	c.reads = append(c.reads, epoch{g.id, g.vc[g.id], site})
}

func (s *Sim) race(prev epoch, prevWrite bool, site int, write bool) {
	k := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	a, b := siteName(prev.site), siteName(site)
	msg := fmt.Sprintf("%s at %s and %s at %s", k(prevWrite), a, k(write), b)
	if s.raceSeen[msg] || len(s.res.Races) > 20 {
		return
	}
	s.raceSeen[msg] = true
	s.res.Races = append(s.res.Races, msg)
	s.note("data race: %s", msg)
}

// Rd records a read of *p.
func Rd[T any](site int, p *T) *T {
	if s := S; s != nil && s.raceOn && p != nil {
		s.access(unsafe.Pointer(p), false, site)
	}
	return p
}

// Wr records a write of *p.
func Wr[T any](site int, p *T) {
	if s := S; s != nil && s.raceOn && p != nil {
		s.access(unsafe.Pointer(p), true, site)
	}
}

// MapRd records a read access to a map as a whole.
func MapRd[M ~map[K]V, K comparable, V any](site int, m M) M {
	if s := S; s != nil && s.raceOn && m != nil {
		s.access(*(*unsafe.Pointer)(unsafe.Pointer(&m)), false, site)
	}
	return m
}

// MapWr records a write access to a map as a whole.
func MapWr[M ~map[K]V, K comparable, V any](site int, m M) M {
	if s := S; s != nil && s.raceOn && m != nil {
		s.access(*(*unsafe.Pointer)(unsafe.Pointer(&m)), true, site)
	}
	return m
}
