package zzsimrt

import (
	"fmt"
	"iter"
	"unsafe"
)

type chanItem struct {
	box any // *T
	vc  []uint32
}

type waiter struct {
	g    *G
	sel  *selState
	idx  int
	send bool
	box  any
	set  func(box any, ok bool)
	vc   []uint32
}

type selState struct {
	fired  int
	closed bool
}

type chanState struct {
	id     int
	cap    int
	buf    []chanItem
	recvq  []*waiter
	sendq  []*waiter
	closed bool
	rvc    []uint32
	cvc    []uint32
	keep   any
	poll   func() (any, bool, bool) // real channel of code outside the simulation
}

func chanPtr[T any](c <-chan T) uintptr {
	return uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&c)))
}

func (s *Sim) chanOf(p uintptr, capacity int, keep any) *chanState {
	cs := s.chans[p]
	if cs == nil {
		s.nchan++
		cs = &chanState{id: s.nchan, cap: capacity, keep: keep}
		s.chans[p] = cs
	}
	return cs
}

func stateR[T any](s *Sim, c <-chan T) *chanState {
	if c == nil {
		return nil
	}
	cs := s.chanOf(chanPtr(c), cap(c), c)
	if cs.poll == nil {
		cs.poll = func() (any, bool, bool) {
			select {
			case v, ok := <-c:
				return &v, ok, true
			default:
				return nil, false, false
			}
		}
	}
	return cs
}

func stateS[T any](s *Sim, c chan<- T) *chanState {
	if c == nil {
		return nil
	}
	return s.chanOf(uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&c))), cap(c), c)
}

// SelCase is one communication clause.
type SelCase interface {
	simCase() *caseData
	realCase()
}

type caseData struct {
	cs   *chanState
	send bool
	box  any
	set  func(box any, ok bool)
}

type RecvCase[T any] struct {
	Val T
	Ok  bool
	c   <-chan T
	d   caseData
}

func (c *RecvCase[T]) simCase() *caseData { return &c.d }
func (c *RecvCase[T]) realCase()          {}

type SendCase[T any] struct {
	c chan<- T
	d caseData
}

func (c *SendCase[T]) simCase() *caseData { return &c.d }
func (c *SendCase[T]) realCase()          {}

// CaseRecv prepares a receive clause.
func CaseRecv[T any](c <-chan T) *RecvCase[T] {
	r := &RecvCase[T]{c: c}
	if s := S; s != nil {
		r.d.cs = stateR(s, c)
	}
	r.d.set = func(box any, ok bool) {
		if box != nil {
			r.Val = *(box.(*T))
		}
		r.Ok = ok
	}
	return r
}

// CaseSend prepares a send clause.
func CaseSend[T any](c chan<- T) func(v T) *SendCase[T] {
	return func(v T) *SendCase[T] {
		r := &SendCase[T]{c: c}
		if s := S; s != nil {
			r.d.cs = stateS(s, c)
		}
		r.d.send = true
		r.d.box = &v
		return r
	}
}

func ready(d *caseData) bool {
	cs := d.cs
	if cs == nil {
		return false
	}
	if d.send {
		return cs.closed || len(cs.buf) < cs.cap || live(&cs.recvq)
	}
	if len(cs.buf) > 0 || live(&cs.sendq) || cs.closed {
		return true
	}
	if cs.poll != nil {
		if box, ok, got := cs.poll(); got {
			if ok {
				cs.buf = append(cs.buf, chanItem{box: box})
			} else {
				cs.closed = true
			}
			return true
		}
	}
	return false
}

// live drops waiters whose select has already fired.
func live(q *[]*waiter) bool {
	for len(*q) > 0 && (*q)[0].sel.fired >= 0 {
		*q = (*q)[1:]
	}
	return len(*q) > 0
}

func (s *Sim) exec(d *caseData) {
	cs := d.cs
	if d.send {
		if cs.closed {
			panic("send on closed channel")
		}
		s.logEvent('s', uint64(cs.id), 0)
		vc := s.release(nil)
		s.acquire(cs.rvc)
		if live(&cs.recvq) {
			w := cs.recvq[0]
			cs.recvq = cs.recvq[1:]
			w.sel.fired = w.idx
			w.set(d.box, true)
			w.g.vc = joinVC(w.g.vc, vc)
			if cs.cap == 0 {
				s.acquire(w.vc)
			}
			s.wake(w.g)
			return
		}
		cs.buf = append(cs.buf, chanItem{d.box, vc})
		return
	}
	s.logEvent('r', uint64(cs.id), 0)
	if len(cs.buf) > 0 {
		it := cs.buf[0]
		cs.buf = cs.buf[1:]
		s.acquire(it.vc)
		cs.rvc = s.release(cs.rvc)
		d.set(it.box, true)
		if live(&cs.sendq) {
			w := cs.sendq[0]
			cs.sendq = cs.sendq[1:]
			w.sel.fired = w.idx
			cs.buf = append(cs.buf, chanItem{w.box, w.vc})
			w.g.vc = joinVC(w.g.vc, cs.rvc)
			s.wake(w.g)
		}
		return
	}
	if live(&cs.sendq) {
		w := cs.sendq[0]
		cs.sendq = cs.sendq[1:]
		w.sel.fired = w.idx
		s.acquire(w.vc)
		w.g.vc = joinVC(w.g.vc, s.release(nil))
		d.set(w.box, true)
		s.wake(w.g)
		return
	}
	// closed
	s.acquire(cs.cvc)
	d.set(nil, false)
}

func (s *Sim) selectOp(cases []*caseData, hasDefault bool, site int) int {
	Point(site)
	if s.nlive > 1 && s.cfg.RunLen > 0 {
		// communication operations are the interesting places to switch at
		if s.St[Schedule].Chance(1, 8) {
			s.resched(site)
		}
	}
	var rdy []int
	for i, d := range cases {
		if ready(d) {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		i := rdy[0]
		if len(rdy) > 1 {
			i = rdy[s.St[Schedule].Int(len(rdy))]
			s.res.SelChoices++
		}
		s.exec(cases[i])
		return i
	}
	if hasDefault {
		s.logEvent('d', 0, uint64(site))
		return -1
	}
	sel := &selState{fired: -1}
	g := s.cur
	any := false
	for i, d := range cases {
		if d.cs == nil {
			continue
		}
		any = true
		w := &waiter{g: g, sel: sel, idx: i, send: d.send, box: d.box, set: d.set}
		if d.send {
			w.vc = s.release(nil)
			d.cs.sendq = append(d.cs.sendq, w)
		} else {
			w.vc = s.release(nil)
			d.cs.recvq = append(d.cs.recvq, w)
		}
	}
	reason := "select"
	if len(cases) == 1 {
		reason = "receive"
		if cases[0].send {
			reason = "send"
		}
	}
	if !any {
		reason += " on nil channel"
	}
	s.block(fmt.Sprintf("%s at %s", reason, siteName(site)))
	if sel.fired < 0 {
		Fatalf2("goroutine resumed without a fired case")
	}
	if sel.closed {
		if cases[sel.fired].send {
			panic("send on closed channel")
		}
	}
	return sel.fired
}

// Select performs a select statement; -1 is the default clause.
func Select(site int, hasDefault bool, cases ...SelCase) int {
	s := S
	if s == nil {
		panic("zzsimrt: select outside a simulation")
	}
	ds := make([]*caseData, len(cases))
	for i, c := range cases {
		ds[i] = c.simCase()
	}
	return s.selectOp(ds, hasDefault, site)
}

// Send performs ch <- v.
func Send[T any](site int, c chan<- T) func(v T) {
	return func(v T) {
		s := S
		if s == nil {
			c <- v
			return
		}
		d := &caseData{cs: stateS(s, c), send: true, box: &v}
		s.selectOp([]*caseData{d}, false, site)
	}
}

// Recv performs <-ch.
func Recv[T any](site int, c <-chan T) T {
	v, _ := Recv2(site, c)
	return v
}

// Recv2 performs v, ok := <-ch.
func Recv2[T any](site int, c <-chan T) (T, bool) {
	s := S
	if s == nil {
		v, ok := <-c
		return v, ok
	}
	r := CaseRecv(c)
	s.selectOp([]*caseData{&r.d}, false, site)
	return r.Val, r.Ok
}

// Close performs close(ch). The real channel is closed too, for code outside
// the simulation that may be watching it.
func Close[T any](site int, c chan<- T) {
	s := S
	if s == nil {
		close(c)
		return
	}
	Point(site)
	if c == nil {
		panic("close of nil channel")
	}
	cs := stateS(s, c)
	if cs.closed {
		panic("close of closed channel")
	}
	close(c)
	s.closeState(cs)
}

func (s *Sim) closeState(cs *chanState) {
	s.logEvent('c', uint64(cs.id), 0)
	cs.closed = true
	cs.cvc = s.release(cs.cvc)
	for live(&cs.recvq) {
		w := cs.recvq[0]
		cs.recvq = cs.recvq[1:]
		w.sel.fired = w.idx
		w.sel.closed = true
		w.g.vc = joinVC(w.g.vc, cs.cvc)
		w.set(nil, false)
		s.wake(w.g)
	}
	for live(&cs.sendq) {
		w := cs.sendq[0]
		cs.sendq = cs.sendq[1:]
		w.sel.fired = w.idx
		w.sel.closed = true
		s.wake(w.g)
	}
}

// Len is len(ch).
func Len[T any](c <-chan T) int {
	if s := S; s != nil {
		if cs := stateR(s, c); cs != nil {
			return len(cs.buf)
		}
		return 0
	}
	return len(c)
}

func LenS[T any](c chan<- T) int {
	if s := S; s != nil {
		if cs := stateS(s, c); cs != nil {
			return len(cs.buf)
		}
		return 0
	}
	return len(c)
}

// RangeChan iterates like for range ch.
func RangeChan[T any](site int, c <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(site, c)
			if !ok || !yield(v) {
				return
			}
		}
	}
}
