// Package vsync replaces sync: the same, except that while a Run is going on
// only one goroutine at a time runs, and which one continues at every
// scheduling point is chosen by the caller of Run.
package vsync

import (
	"fmt"
	"runtime/debug"
	"sync"
)

type Locker = sync.Locker
type Map = sync.Map
type Pool = sync.Pool

// Kind of a scheduling point
type Kind int

const (
	Stmt    Kind = iota // in front of a statement
	Sync                // at an operation on a lock, condition variable, ...
	Yield               // requested by the harness
	Blocked             // the thread can't continue
	Ended
)

type Thread struct {
	ID      int
	Name    string
	wake    chan struct{}
	waiting func() bool // can it continue?
	What    string      // what it's waiting for
	done    bool
	started bool
	f       func()
	Data    interface{}
}

// Chooser picks the thread to continue.  cur is the running one; it is among
// the runnable unless kind is Blocked or Ended.
type Chooser func(runnable []*Thread, cur *Thread, kind Kind) *Thread

type sched struct {
	threads []*Thread
	cur     *Thread
	choose  Chooser
	aborted bool
	reason  string
	panics  []string
	points  int
	limit   int
	fin     chan struct{}
	wg      sync.WaitGroup
}

var active *sched

type abortSentinel struct{}

// Result of a Run
type Result struct {
	Deadlock string   // description of the blocked threads, if they are
	Panics   []string // panics of threads
	Points   int
	Limit    bool // did not finish within the limit of scheduling points
}

// Run runs main (and all threads it starts) to completion.
func Run(main func(), choose Chooser, limit int) Result {
	if active != nil {
		panic("harness: vsync.Run is not reentrant")
	}
	s := &sched{choose: choose, limit: limit, fin: make(chan struct{})}
	active = s
	t := s.spawn("main", main)
	s.cur = t
	t.start(s)
	<-s.fin
	s.wg.Wait()
	active = nil
	res := Result{Panics: s.panics, Points: s.points}
	switch {
	case s.reason == "limit":
		res.Limit = true
	case s.reason != "" && len(s.panics) == 0:
		res.Deadlock = s.reason
	}
	return res
}

func (s *sched) spawn(name string, f func()) *Thread {
	t := &Thread{ID: len(s.threads), Name: name, wake: make(chan struct{}, 1), f: f}
	s.threads = append(s.threads, t)
	return t
}

func (t *Thread) start(s *sched) {
	t.started = true
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(abortSentinel); !ok {
					s.panics = append(s.panics, fmt.Sprintf("%s: %v\n%s", t.Name, r, debug.Stack()))
					s.abort("panic")
				}
			}
			t.done = true
			s.next(Ended)
		}()
		t.f()
	}()
}

// Hands control over to another thread, from the current one, which ended.
func (s *sched) next(kind Kind) {
	n := s.pick(kind)
	if n == nil {
		close(s.fin)
		return
	}
	s.cur = n
	s.resume(n)
}

func (s *sched) resume(n *Thread) {
	if !n.started {
		n.start(s)
	} else {
		n.wake <- struct{}{}
	}
}

func (s *sched) abort(reason string) {
	if !s.aborted {
		s.aborted = true
		s.reason = reason
	}
}

// Next thread to run, or nil if everything ended.
func (s *sched) pick(kind Kind) *Thread {
	if !s.aborted {
		run := []*Thread{}
		alive := false
		desc := ""
		for _, t := range s.threads {
			if t.done {
				continue
			}
			alive = true
			if t.waiting == nil || t.waiting() {
				run = append(run, t)
			} else {
				desc += fmt.Sprintf("%s waits for %s; ", t.Name, t.What)
			}
		}
		if !alive {
			return nil
		}
		if len(run) > 0 {
			return s.choose(run, s.cur, kind)
		}
		s.abort(desc)
	}
	// Unwind the threads one by one.
	for _, t := range s.threads {
		if t.started && !t.done {
			return t
		}
	}
	return nil
}

// A scheduling point of the current thread.
func (s *sched) point(kind Kind) {
	if s.aborted {
		return
	}
	s.points++
	if s.limit > 0 && s.points > s.limit {
		s.abort("limit")
		panic(abortSentinel{})
	}
	me := s.cur
	n := s.pick(kind)
	if n != me {
		s.cur = n
		s.resume(n)
		<-me.wake
	}
	if s.aborted {
		panic(abortSentinel{})
	}
}

func (s *sched) block(what string, until func() bool) {
	me := s.cur
	if s.aborted {
		// The thread is being unwound
		return
	}
	for !until() {
		me.waiting, me.What = until, what
		s.point(Blocked)
		me.waiting = nil
	}
}

// P is a scheduling point in front of a statement.
func P() {
	if s := active; s != nil {
		s.point(Stmt)
	}
}

// Point is a scheduling point in the harness.
func Point() {
	if s := active; s != nil {
		s.point(Yield)
	}
}

// Block blocks the current thread until the condition holds.
func Block(what string, until func() bool) {
	s := active
	if s == nil {
		panic("harness: vsync.Block outside of Run")
	}
	s.point(Yield)
	s.block(what, until)
}

const Controlled = true

// Settle waits for all other threads to end.
func Settle() bool {
	Block("the background", func() bool { return Alive() == 1 })
	return true
}

// Cur returns the current thread, or nil if outside of Run.
func Cur() *Thread {
	if s := active; s != nil {
		return s.cur
	}
	return nil
}

// Threads returns the number of threads which have not ended.
func Alive() (n int) {
	if s := active; s != nil {
		for _, t := range s.threads {
			if !t.done {
				n++
			}
		}
	}
	return
}

// Aborted tells whether the threads are being unwound.
func Aborted() bool { return active != nil && active.aborted }

// Go starts a goroutine.
func Go(f func()) { GoNamed("", f) }

func GoNamed(name string, f func()) *Thread {
	s := active
	if s == nil {
		go f()
		return nil
	}
	if s.aborted {
		return nil
	}
	t := s.spawn(name, f)
	if name == "" {
		t.Name = fmt.Sprintf("bg%d", t.ID)
	}
	s.point(Sync)
	return t
}

// ---------------------------------------------------------------------------

type Mutex struct {
	m      sync.Mutex
	locked bool
}

func (m *Mutex) Lock() {
	s := active
	if s == nil {
		m.m.Lock()
		return
	}
	s.point(Sync)
	s.block("a lock", func() bool { return !m.locked })
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	s := active
	if s == nil {
		return m.m.TryLock()
	}
	s.point(Sync)
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	s := active
	if s == nil {
		m.m.Unlock()
		return
	}
	if !m.locked {
		if s.aborted {
			return
		}
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	s.point(Sync)
}

type RWMutex struct {
	m       sync.RWMutex
	writer  bool
	readers int
}

func (m *RWMutex) Lock() {
	s := active
	if s == nil {
		m.m.Lock()
		return
	}
	s.point(Sync)
	s.block("a lock", func() bool { return !m.writer && m.readers == 0 })
	m.writer = true
}

func (m *RWMutex) TryLock() bool {
	s := active
	if s == nil {
		return m.m.TryLock()
	}
	s.point(Sync)
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) Unlock() {
	s := active
	if s == nil {
		m.m.Unlock()
		return
	}
	if !m.writer {
		if s.aborted {
			return
		}
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	s.point(Sync)
}

func (m *RWMutex) RLock() {
	s := active
	if s == nil {
		m.m.RLock()
		return
	}
	s.point(Sync)
	s.block("a lock", func() bool { return !m.writer })
	m.readers++
}

func (m *RWMutex) TryRLock() bool {
	s := active
	if s == nil {
		return m.m.TryRLock()
	}
	s.point(Sync)
	if m.writer {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	s := active
	if s == nil {
		m.m.RUnlock()
		return
	}
	if m.readers == 0 {
		if s.aborted {
			return
		}
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	s.point(Sync)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Cond struct {
	L    Locker
	c    *sync.Cond
	wait []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l, c: sync.NewCond(l)} }

func (c *Cond) Wait() {
	s := active
	if s == nil {
		c.c.Wait()
		return
	}
	if s.aborted {
		panic(abortSentinel{})
	}
	woken := false
	c.wait = append(c.wait, &woken)
	c.L.Unlock()
	s.block("a condition variable", func() bool { return woken })
	c.L.Lock()
}

func (c *Cond) Signal() {
	s := active
	if s == nil {
		c.c.Signal()
		return
	}
	if len(c.wait) > 0 {
		*c.wait[0] = true
		c.wait = c.wait[1:]
	}
	s.point(Sync)
}

func (c *Cond) Broadcast() {
	s := active
	if s == nil {
		c.c.Broadcast()
		return
	}
	for _, w := range c.wait {
		*w = true
	}
	c.wait = nil
	s.point(Sync)
}

type WaitGroup struct {
	w sync.WaitGroup
	n int
}

func (w *WaitGroup) Add(d int) {
	s := active
	if s == nil {
		w.w.Add(d)
		return
	}
	w.n += d
	if w.n < 0 && !s.aborted {
		panic("sync: negative WaitGroup counter")
	}
	s.point(Sync)
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	s := active
	if s == nil {
		w.w.Wait()
		return
	}
	s.point(Sync)
	s.block("a WaitGroup", func() bool { return w.n == 0 })
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
