// Package vsync has the interface of package sync, but when a Sched is active
// its primitives let that scheduler decide which goroutine goes on at every
// synchronisation operation, so that schedules can be enumerated, repeated and
// found to deadlock. Exactly one managed goroutine runs at any time.
//
// The check builds the code under test with its import of "sync" replaced by
// this package (go build -overlay); see cmd/mkoverlay.
package vsync

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
)

// Managed says that the code under test was built with this package.
var Managed bool

type thread struct {
	id   int
	wake chan struct{}
	pred func() bool
	done bool
}

// Sched runs a set of goroutines one at a time.
type Sched struct {
	threads []*thread
	cur     *thread
	// Choose picks one of n enabled goroutines; 0 is the current one if still says so.
	Choose func(n int, still bool) int
	// MaxSteps bounds an execution.
	MaxSteps int
	Steps    int
	Fault    string
	Live     int // goroutines that were not done at the end
	over     chan struct{}
	ended    bool
	fair     bool
}

var active *Sched

// Active reports whether a schedule is being controlled.
func Active() bool { return active != nil }

func (s *Sched) newThread() *thread {
	t := &thread{id: len(s.threads), wake: make(chan struct{}, 1)}
	s.threads = append(s.threads, t)
	return t
}

// Run executes the programs under the scheduler until no goroutine is left or
// none can go on. Those from index bg on are expected to end by themselves.
func (s *Sched) Run(progs []func()) {
	s.over = make(chan struct{})
	active = s
	var ts []*thread
	for range progs {
		ts = append(ts, s.newThread())
	}
	for i := range progs {
		s.launch(ts[i], progs[i])
	}
	s.cur = nil
	n := s.pick()
	s.cur = n
	n.wake <- struct{}{}
	<-s.over
	for _, t := range s.threads {
		if !t.done {
			s.Live++
		}
	}
	active = nil
}

func (s *Sched) launch(t *thread, f func()) {
	go func() {
		<-t.wake
		defer func() {
			if p := recover(); p != nil {
				s.fail(fmt.Sprintf("panic: %v", p))
				t.done = true
				s.end()
				return
			}
		}()
		f()
		t.done = true
		n := s.pick()
		if n == nil {
			s.end()
			return
		}
		s.cur = n
		n.wake <- struct{}{}
	}()
}

func (s *Sched) fail(f string) {
	if s.Fault == "" {
		s.Fault = f
	}
}

func (s *Sched) end() {
	if !s.ended {
		s.ended = true
		close(s.over)
	}
}

// pick returns the next goroutine to run, nil if there is none.
func (s *Sched) pick() *thread {
	var buf [16]*thread
	en := buf[:0]
	still := false
	if c := s.cur; c != nil && !c.done && (c.pred == nil || c.pred()) {
		en = append(en, c)
		still = true
	}
	for _, t := range s.threads {
		if t != s.cur && !t.done && (t.pred == nil || t.pred()) {
			en = append(en, t)
		}
	}
	if len(en) == 0 {
		return nil
	}
	if s.fair { // in turn
		best := en[0]
		for _, t := range en {
			if s.after(t) < s.after(best) {
				best = t
			}
		}
		return best
	}
	k := 0
	if len(en) > 1 {
		k = s.Choose(len(en), still)
	}
	return en[k]
}

// after says how far t is behind the current goroutine.
func (s *Sched) after(t *thread) int {
	if s.cur == nil {
		return t.id
	}
	n := len(s.threads)
	return (t.id - s.cur.id - 1 + n) % n
}

// Fair makes the rest of the execution take the goroutines in turn, so that
// none is kept waiting for ever by another that goes on and on.
func Fair() {
	if s := active; s != nil {
		s.fair = true
	}
}

// point lets another goroutine run; the caller goes on once pred holds.
func point(pred func() bool) {
	s := active
	if s == nil {
		if pred != nil && !pred() {
			panic("vsync: deadlock outside of a schedule")
		}
		return
	}
	t := s.cur
	s.Steps++
	if s.Steps > s.MaxSteps {
		s.fail("livelock")
		s.end()
		select {}
	}
	t.pred = pred
	n := s.pick()
	if n == t {
		t.pred = nil
		return
	}
	if n == nil { // nobody can go on
		s.fail("deadlock")
		s.end()
		select {}
	}
	s.cur = n
	n.wake <- struct{}{}
	<-t.wake
	t.pred = nil
}

// Yield is a point at which another goroutine may run.
func Yield() {
	if active != nil {
		point(nil)
	} else if !Managed {
		runtime.Gosched()
	}
}

// Await waits until pred holds.
func Await(pred func() bool) {
	if active != nil {
		point(pred)
		return
	}
	for !pred() {
		runtime.Gosched()
	}
}

// Go is the go statement.
func Go(f func()) {
	if s := active; s != nil {
		s.launch(s.newThread(), f)
		point(nil)
		return
	}
	go f()
}

// Locker is sync.Locker.
type Locker = sync.Locker

// Map is sync.Map.
type Map = sync.Map

// Mutex is sync.Mutex.
type Mutex struct{ held bool }

// Lock is as in package sync.
func (m *Mutex) Lock() {
	point(func() bool { return !m.held })
	m.held = true
}

// TryLock is as in package sync.
func (m *Mutex) TryLock() bool {
	point(nil)
	if m.held {
		return false
	}
	m.held = true
	return true
}

// Unlock is as in package sync.
func (m *Mutex) Unlock() {
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	point(nil)
}

// RWMutex is sync.RWMutex.
type RWMutex struct {
	w bool
	r int
}

// Lock is as in package sync.
func (m *RWMutex) Lock() {
	point(func() bool { return !m.w && m.r == 0 })
	m.w = true
}

// TryLock is as in package sync.
func (m *RWMutex) TryLock() bool {
	point(nil)
	if m.w || m.r != 0 {
		return false
	}
	m.w = true
	return true
}

// Unlock is as in package sync.
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	point(nil)
}

// RLock is as in package sync.
func (m *RWMutex) RLock() {
	point(func() bool { return !m.w })
	m.r++
}

// TryRLock is as in package sync.
func (m *RWMutex) TryRLock() bool {
	point(nil)
	if m.w {
		return false
	}
	m.r++
	return true
}

// RUnlock is as in package sync.
func (m *RWMutex) RUnlock() {
	if m.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	point(nil)
}

// RLocker is as in package sync.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Cond is sync.Cond.
type Cond struct {
	L       Locker
	waiters []*bool
}

// NewCond is as in package sync.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait is as in package sync.
func (c *Cond) Wait() {
	w := new(bool)
	c.waiters = append(c.waiters, w)
	c.L.Unlock()
	point(func() bool { return *w })
	c.L.Lock()
}

// Signal is as in package sync: waiters are woken in the order of their calls.
func (c *Cond) Signal() {
	if len(c.waiters) > 0 {
		*c.waiters[0] = true
		c.waiters = c.waiters[1:]
	}
	point(nil)
}

// Broadcast is as in package sync.
func (c *Cond) Broadcast() {
	for _, w := range c.waiters {
		*w = true
	}
	c.waiters = nil
	point(nil)
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct{ n int }

// Add is as in package sync.
func (w *WaitGroup) Add(d int) {
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	point(nil)
}

// Done is as in package sync.
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait is as in package sync.
func (w *WaitGroup) Wait() { point(func() bool { return w.n == 0 }) }

// Go is as in package sync.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Once is sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do is as in package sync.
func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Pool is sync.Pool, but Get always returns what was Put last, so that use
// after Put shows.
type Pool struct {
	New   func() interface{}
	mu    int32
	items []interface{}
}

func (p *Pool) lock() {
	for !atomic.CompareAndSwapInt32(&p.mu, 0, 1) {
		runtime.Gosched()
	}
}

// Get is as in package sync.
func (p *Pool) Get() interface{} {
	point(nil)
	p.lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		atomic.StoreInt32(&p.mu, 0)
		return x
	}
	atomic.StoreInt32(&p.mu, 0)
	if p.New == nil {
		return nil
	}
	return p.New()
}

// Put is as in package sync.
func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	p.lock()
	if len(p.items) < 64 {
		p.items = append(p.items, x)
	}
	atomic.StoreInt32(&p.mu, 0)
	point(nil)
}
