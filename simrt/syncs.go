package zzsimrt

import (
	"fmt"
	"sync"
	"sync/atomic"
)

// Mutex replaces sync.Mutex.
type Mutex struct {
	locked bool
	id     int
	wq     []*G
	vc     []uint32
	sim    *Sim
}

func (m *Mutex) reset(s *Sim) {
	if m.sim != s {
		if m.sim != nil {
			// left over from an earlier (aborted) run
			*m = Mutex{}
		}
		m.sim = s
		s.nobj++
		m.id = s.nobj
	}
}

func (m *Mutex) Lock() {
	s := S
	if s == nil {
		m.locked = true
		return
	}
	m.reset(s)
	Point(0)
	for m.locked {
		m.wq = append(m.wq, s.cur)
		s.block(fmt.Sprintf("mutex %d", m.id))
	}
	m.locked = true
	s.acquire(m.vc)
	s.logEvent('L', uint64(m.id), 0)
}

func (m *Mutex) TryLock() bool {
	s := S
	if s == nil {
		if m.locked {
			return false
		}
		m.locked = true
		return true
	}
	m.reset(s)
	Point(0)
	if m.locked {
		return false
	}
	m.locked = true
	s.acquire(m.vc)
	s.logEvent('L', uint64(m.id), 1)
	return true
}

func (m *Mutex) Unlock() {
	s := S
	if s == nil {
		m.locked = false
		return
	}
	m.reset(s)
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	m.vc = s.release(m.vc)
	s.logEvent('U', uint64(m.id), 0)
	for _, g := range m.wq {
		s.wake(g)
	}
	m.wq = m.wq[:0]
	Point(0)
}

// RWMutex replaces sync.RWMutex.
type RWMutex struct {
	writer   bool
	readers  int
	wwaiting int
	id       int
	wq       []*G
	wvc      []uint32
	rvc      []uint32
	sim      *Sim
}

func (m *RWMutex) reset(s *Sim) {
	if m.sim != s {
		if m.sim != nil {
			*m = RWMutex{}
		}
		m.sim = s
		s.nobj++
		m.id = s.nobj
	}
}

func (m *RWMutex) wakeAll(s *Sim) {
	for _, g := range m.wq {
		s.wake(g)
	}
	m.wq = m.wq[:0]
}

func (m *RWMutex) Lock() {
	s := S
	if s == nil {
		return
	}
	m.reset(s)
	Point(0)
	m.wwaiting++
	for m.writer || m.readers > 0 {
		m.wq = append(m.wq, s.cur)
		s.block(fmt.Sprintf("rwmutex %d (write)", m.id))
	}
	m.wwaiting--
	m.writer = true
	s.acquire(m.wvc)
	s.acquire(m.rvc)
	s.logEvent('L', uint64(m.id), 0)
}

func (m *RWMutex) TryLock() bool {
	s := S
	if s == nil {
		return true
	}
	m.reset(s)
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	s.acquire(m.wvc)
	s.acquire(m.rvc)
	return true
}

func (m *RWMutex) Unlock() {
	s := S
	if s == nil {
		return
	}
	m.reset(s)
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	m.wvc = s.release(m.wvc)
	s.logEvent('U', uint64(m.id), 0)
	m.wakeAll(s)
	Point(0)
}

func (m *RWMutex) RLock() {
	s := S
	if s == nil {
		return
	}
	m.reset(s)
	Point(0)
	for m.writer || m.wwaiting > 0 {
		m.wq = append(m.wq, s.cur)
		s.block(fmt.Sprintf("rwmutex %d (read)", m.id))
	}
	m.readers++
	s.acquire(m.wvc)
	s.logEvent('L', uint64(m.id), 2)
}

func (m *RWMutex) TryRLock() bool {
	s := S
	if s == nil {
		return true
	}
	m.reset(s)
	if m.writer || m.wwaiting > 0 {
		return false
	}
	m.readers++
	s.acquire(m.wvc)
	return true
}

func (m *RWMutex) RUnlock() {
	s := S
	if s == nil {
		return
	}
	m.reset(s)
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.rvc = s.release(m.rvc)
	s.logEvent('U', uint64(m.id), 2)
	if m.readers == 0 {
		m.wakeAll(s)
	}
	Point(0)
}

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	n   int
	id  int
	wq  []*G
	vc  []uint32
	sim *Sim
}

func (w *WaitGroup) reset(s *Sim) {
	if w.sim != s {
		if w.sim != nil {
			*w = WaitGroup{}
		}
		w.sim = s
		s.nobj++
		w.id = s.nobj
	}
}

func (w *WaitGroup) Add(d int) {
	s := S
	if s == nil {
		w.n += d
		return
	}
	w.reset(s)
	Point(0)
	w.n += d
	s.logEvent('W', uint64(w.id), uint64(int64(d)))
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if d < 0 {
		w.vc = s.release(w.vc)
	}
	if w.n == 0 {
		for _, g := range w.wq {
			s.wake(g)
		}
		w.wq = w.wq[:0]
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	s := S
	if s == nil {
		return
	}
	w.reset(s)
	Point(0)
	for w.n > 0 {
		w.wq = append(w.wq, s.cur)
		s.block(fmt.Sprintf("waitgroup %d", w.id))
	}
	s.acquire(w.vc)
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(0, func() {
		defer w.Done()
		f()
	})
}

// Once replaces sync.Once.
type Once struct {
	done bool
	m    Mutex
	vc   []uint32
}

func (o *Once) Do(f func()) {
	s := S
	if o.done {
		if s != nil {
			s.acquire(o.vc)
		}
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			o.done = true
			if S != nil {
				o.vc = S.release(o.vc)
			}
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Cond replaces sync.Cond.
type Cond struct {
	L  sync.Locker
	wq []*G
	vc []uint32
}

func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	s := S
	c.wq = append(c.wq, s.cur)
	c.L.Unlock()
	for {
		in := false
		for _, g := range c.wq {
			if g == s.cur {
				in = true
			}
		}
		if !in {
			break
		}
		s.block("cond")
	}
	s.acquire(c.vc)
	c.L.Lock()
}

func (c *Cond) Signal() {
	s := S
	if s == nil {
		return
	}
	c.vc = s.release(c.vc)
	if len(c.wq) > 0 {
		g := c.wq[0]
		c.wq = c.wq[1:]
		s.wake(g)
	}
	Point(0)
}

func (c *Cond) Broadcast() {
	s := S
	if s == nil {
		return
	}
	c.vc = s.release(c.vc)
	q := c.wq
	c.wq = nil
	for _, g := range q {
		s.wake(g)
	}
	Point(0)
}

// Map replaces sync.Map; iteration order is decided by the order stream.
type Map struct {
	m  map[any]any
	vc []uint32
}

func (m *Map) sync() {
	if s := S; s != nil {
		Point(0)
		s.acquire(m.vc)
		m.vc = s.release(m.vc)
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
}

func (m *Map) Load(k any) (any, bool) { m.sync(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { m.sync(); m.m[k] = v }
func (m *Map) Delete(k any)           { m.sync(); delete(m.m, k) }
func (m *Map) Clear()                 { m.sync(); clear(m.m) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.sync()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.sync()
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}
func (m *Map) Swap(k, v any) (any, bool) {
	m.sync()
	o, ok := m.m[k]
	m.m[k] = v
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.sync()
	if c, ok := m.m[k]; ok && c == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.sync()
	if c, ok := m.m[k]; ok && c == o {
		delete(m.m, k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	m.sync()
	for k, v := range RangeMap(0, m.m) {
		if !f(k, v) {
			return
		}
	}
}

// Pool replaces sync.Pool: whether an item is reused is a schedule choice.
type Pool struct {
	New   func() any
	items []any
	vc    []uint32
}

func (p *Pool) Get() any {
	s := S
	if s != nil {
		Point(0)
		s.acquire(p.vc)
	}
	if n := len(p.items); n > 0 && (s == nil || !s.St[Schedule].Chance(1, 4)) {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if s := S; s != nil {
		Point(0)
		p.vc = s.release(p.vc)
	}
	p.items = append(p.items, x)
}

// ---- atomics: a point before each access; all accesses synchronise ----------

type atomicSync struct{ vc []uint32 }

var atomicVC = map[*Sim]*atomicSync{}

func atomicPoint() {
	s := S
	if s == nil {
		return
	}
	Point(0)
	a := atomicVC[s]
	if a == nil {
		clear(atomicVC)
		a = &atomicSync{}
		atomicVC[s] = a
	}
	s.acquire(a.vc)
	a.vc = s.release(a.vc)
}

func AddInt32(p *int32, d int32) int32     { atomicPoint(); return atomic.AddInt32(p, d) }
func AddInt64(p *int64, d int64) int64     { atomicPoint(); return atomic.AddInt64(p, d) }
func AddUint32(p *uint32, d uint32) uint32 { atomicPoint(); return atomic.AddUint32(p, d) }
func AddUint64(p *uint64, d uint64) uint64 { atomicPoint(); return atomic.AddUint64(p, d) }
func LoadInt32(p *int32) int32             { atomicPoint(); return atomic.LoadInt32(p) }
func LoadInt64(p *int64) int64             { atomicPoint(); return atomic.LoadInt64(p) }
func LoadUint32(p *uint32) uint32          { atomicPoint(); return atomic.LoadUint32(p) }
func LoadUint64(p *uint64) uint64          { atomicPoint(); return atomic.LoadUint64(p) }
func StoreInt32(p *int32, v int32)         { atomicPoint(); atomic.StoreInt32(p, v) }
func StoreInt64(p *int64, v int64)         { atomicPoint(); atomic.StoreInt64(p, v) }
func StoreUint32(p *uint32, v uint32)      { atomicPoint(); atomic.StoreUint32(p, v) }
func StoreUint64(p *uint64, v uint64)      { atomicPoint(); atomic.StoreUint64(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	atomicPoint()
	return atomic.CompareAndSwapInt32(p, o, n)
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	atomicPoint()
	return atomic.CompareAndSwapInt64(p, o, n)
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	atomicPoint()
	return atomic.CompareAndSwapUint32(p, o, n)
}

type num interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}

type atomicNum[T num] struct{ v T }

func (a *atomicNum[T]) Load() T    { atomicPoint(); return a.v }
func (a *atomicNum[T]) Store(v T)  { atomicPoint(); a.v = v }
func (a *atomicNum[T]) Add(d T) T  { atomicPoint(); a.v += d; return a.v }
func (a *atomicNum[T]) Swap(v T) T { atomicPoint(); o := a.v; a.v = v; return o }
func (a *atomicNum[T]) CompareAndSwap(o, n T) bool {
	atomicPoint()
	if a.v == o {
		a.v = n
		return true
	}
	return false
}

type Int32 = atomicNum[int32]
type Int64 = atomicNum[int64]
type Uint32 = atomicNum[uint32]
type Uint64 = atomicNum[uint64]

type Bool struct{ v bool }

func (a *Bool) Load() bool       { atomicPoint(); return a.v }
func (a *Bool) Store(v bool)     { atomicPoint(); a.v = v }
func (a *Bool) Swap(v bool) bool { atomicPoint(); o := a.v; a.v = v; return o }
func (a *Bool) CompareAndSwap(o, n bool) bool {
	atomicPoint()
	if a.v == o {
		a.v = n
		return true
	}
	return false
}

type Value struct{ v any }

func (a *Value) Load() any      { atomicPoint(); return a.v }
func (a *Value) Store(v any)    { atomicPoint(); a.v = v }
func (a *Value) Swap(v any) any { atomicPoint(); o := a.v; a.v = v; return o }

type Pointer[T any] struct{ p *T }

func (a *Pointer[T]) Load() *T     { atomicPoint(); return a.p }
func (a *Pointer[T]) Store(v *T)   { atomicPoint(); a.p = v }
func (a *Pointer[T]) Swap(v *T) *T { atomicPoint(); o := a.p; a.p = v; return o }
func (a *Pointer[T]) CompareAndSwap(o, n *T) bool {
	atomicPoint()
	if a.p == o {
		a.p = n
		return true
	}
	return false
}
