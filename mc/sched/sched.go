// Package sched is a cooperative scheduler for a few controlled goroutines running instrumented code, and an explorer
// that enumerates their schedules up to a bound on preemptions.
//
// Instrumented code calls Y before every statement, and its package sync is replaced by syncx, whose locks block
// cooperatively. Exactly one controlled thread runs at a time. Goroutines the code starts itself are not controlled:
// Y returns at once in them. A controlled thread that does not come back from a call within a while (it waits inside an
// engine that is not instrumented) is set aside until it does, and the others go on: the execution is then still a
// real one, only not one the explorer chose alone.
package sched

import (
	"fmt"
	"runtime/debug"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
)

type state int

const (
	ready    state = iota // may run
	blocked               // waits for a cooperative lock
	external              // runs or waits outside of the scheduler's control
	done
)

type thread struct {
	id    int
	g     uintptr
	st    state
	wake  chan struct{}
	loc   string
	locH  uint64
	what  string // what it is blocked on
	on    interface{}
	panic string
}

// Point is a recorded choice.
type point struct {
	n      int // options
	choice int
}

// S is one execution.
type S struct {
	mu      sync.Mutex
	threads []*thread
	cur     *thread // nil: nobody runs
	bound   int
	preempt int
	steps   int
	maxStep int
	prefix  []int
	points  []point
	Extern  int  // threads set aside
	Diverge bool // the prefix did not fit
	tick    uint64
	aborted string
	finish  chan struct{}
	sig     uint64
	states  map[uint64]struct{}
	trace   []string
	keep    bool
	clock   int64
}

var active atomic.Pointer[S]

// Current returns the running execution (nil outside of one).
func Current() *S { return active.Load() }

// Clock is a logical time, larger at every call.
func (s *S) Clock() int64 {
	hide()
	defer unhide()
	return atomic.AddInt64(&s.clock, 1)
}

// Quietly runs f, whose synchronisation is the harness's own and orders nothing for the race detector. f must not call
// anything that shares memory with the code under test (package fmt has a pool).
func Quietly(f func()) {
	hide()
	defer unhide()
	f()
}

func (s *S) me() *thread {
	g := getg()
	for _, t := range s.threads {
		if atomic.LoadUintptr(&t.g) == g {
			return t
		}
	}
	return nil
}

// Y is a scheduling point.
func Y(loc string) {
	if Racing {
		hide()
		defer unhide()
	}
	s := active.Load()
	if s == nil {
		return
	}
	t := s.me()
	if t == nil {
		return
	}
	s.mu.Lock()
	s.yield(t, loc, false)
}

type abortT struct{}

// setLoc notes where t is.
func (s *S) setLoc(t *thread, loc string) {
	t.loc = loc
	h := uint64(14695981039346656037)
	for i := 0; i < len(loc); i++ {
		h = (h ^ uint64(loc[i])) * 1099511628211
	}
	t.locH = h
}

// yield is called by t with s.mu held and returns without it, once t runs again.
func (s *S) yield(t *thread, loc string, blocking bool) {
	if s.aborted != "" {
		s.mu.Unlock()
		panic(abortT{})
	}
	s.tick++
	s.setLoc(t, loc)
	if t.st == external {
		// comes back: waits for its turn
		t.st = ready
		if blocking {
			t.st = blocked
		} else if s.cur == nil {
			s.cur = t
			s.mu.Unlock()
			return
		}
		s.mu.Unlock()
		s.wait(t)
		return
	}
	s.steps++
	if s.steps > s.maxStep {
		s.abort(fmt.Sprintf("the calls did not end within %d steps", s.maxStep))
		s.mu.Unlock()
		panic(abortT{})
	}
	if blocking {
		t.st = blocked
	}
	if !Racing { // the detector looks at maps wherever they are
		h := uint64(1469598103934665603)
		for _, x := range s.threads {
			h = (h ^ x.locH ^ uint64(x.st)<<1) * 1099511628211
		}
		s.states[h] = struct{}{}
	}
	if s.keep {
		s.trace = append(s.trace, "thread "+strconv.Itoa(t.id)+" at "+loc)
	}
	next := s.choose(t)
	if next == t {
		s.mu.Unlock()
		return
	}
	s.handoff(next)
	s.mu.Unlock()
	s.wait(t)
}

// choose picks the next thread after t stopped at a point (nil when none can run).
func (s *S) choose(t *thread) *thread {
	var opts [8]*thread
	n := 0
	if t != nil && t.st == ready {
		opts[0], n = t, 1
		if s.preempt >= s.bound {
			return t
		}
	}
	for _, x := range s.threads {
		if x != t && x.st == ready {
			opts[n] = x
			n++
		}
	}
	if n == 0 {
		return nil
	}
	c := 0
	if n > 1 {
		if i := len(s.points); i < len(s.prefix) {
			c = s.prefix[i]
			if c >= n {
				c, s.Diverge = n-1, true
			}
		}
		s.points = append(s.points, point{n, c})
	}
	if opts[0] == t && c > 0 {
		s.preempt++
	}
	return opts[c]
}

func (s *S) handoff(next *thread) {
	s.cur = next
	if next != nil {
		next.wake <- struct{}{}
	}
}

func (s *S) wait(t *thread) {
	<-t.wake
	s.mu.Lock()
	a := s.aborted
	s.mu.Unlock()
	if a != "" {
		panic(abortT{})
	}
}

// abort ends the execution: every thread that comes back is unwound. With s.mu held.
func (s *S) abort(why string) {
	if s.aborted != "" {
		return
	}
	s.aborted = why
	for _, t := range s.threads {
		if t.st == ready || t.st == blocked {
			select {
			case t.wake <- struct{}{}:
			default:
			}
		}
	}
	close(s.finish)
}

func (s *S) exit(t *thread) {
	hide()
	defer unhide()
	s.mu.Lock()
	defer s.mu.Unlock()
	s.tick++
	wasCur := s.cur == t
	t.st = done
	atomic.StoreUintptr(&t.g, 0)
	if s.aborted != "" {
		return
	}
	all := true
	for _, x := range s.threads {
		all = all && x.st == done
	}
	if all {
		close(s.finish)
		return
	}
	if wasCur {
		s.handoff(s.choose(t))
	}
}

// Result of one execution.
type Result struct {
	Failure string // a panic, a deadlock or an endless run
	Extern  int
	Diverge bool
	Steps   int
	points  []point
	Trace   []string
}

// run executes the threads once. bodies must not share anything the instrumented code does not synchronise, apart from
// what Clock orders.
func run(bodies []func(), prefix []int, bound, maxStep int, states map[uint64]struct{}, keep bool) *Result {
	s := &S{bound: bound, prefix: prefix, maxStep: maxStep, finish: make(chan struct{}), states: states, keep: keep}
	for i := range bodies {
		s.threads = append(s.threads, &thread{id: i, wake: make(chan struct{}, 1), loc: "start"})
	}
	var started, ended sync.WaitGroup
	started.Add(len(bodies))
	ended.Add(len(bodies))
	for i := range bodies {
		t, f := s.threads[i], bodies[i]
		go func() {
			defer ended.Done()
			defer s.exit(t)
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(abortT); ok {
						return
					}
					s.mu.Lock()
					t.panic = fmt.Sprintf("panic: %v\n%s", x, debug.Stack())
					s.mu.Unlock()
				}
			}()
			hide()
			atomic.StoreUintptr(&t.g, getg())
			started.Done()
			<-t.wake
			unhide()
			f()
		}()
	}
	started.Wait()
	active.Store(s)
	s.mu.Lock()
	s.handoff(s.choose(nil))
	s.mu.Unlock()
	// The watchdog: a thread that keeps running without reaching a point while others could run is set aside; when
	// nothing moves for a long time the execution is stuck.
	var lastTick uint64
	last := time.Now()
	timer := time.NewTimer(stall)
loop:
	for {
		select {
		case <-s.finish:
			break loop
		case <-timer.C:
		}
		s.mu.Lock()
		if s.tick != lastTick {
			lastTick, last = s.tick, time.Now()
		} else {
			if c := s.cur; c != nil && c.st == ready {
				if other := s.others(c); other {
					c.st = external
					s.Extern++
					s.handoff(s.choose(c))
				}
			}
			if time.Since(last) > stuck {
				var w string
				for _, t := range s.threads {
					if t.st != done {
						w += fmt.Sprintf("\n  thread %d at %s %s", t.id, t.loc, t.what)
					}
				}
				s.abort("the calls block forever:" + w)
			}
		}
		s.mu.Unlock()
		timer.Reset(stall)
	}
	timer.Stop()
	active.Store(nil)
	res := &Result{Extern: s.Extern, Diverge: s.Diverge, Steps: s.steps, points: s.points, Trace: s.trace}
	s.mu.Lock()
	res.Failure = s.aborted
	s.mu.Unlock()
	if res.Failure == "" {
		ended.Wait()
	}
	for _, t := range s.threads {
		s.mu.Lock()
		if t.panic != "" {
			res.Failure = t.panic
		}
		s.mu.Unlock()
	}
	return res
}

var (
	stall = 10 * time.Millisecond
	stuck = 30 * time.Second
)

func (s *S) others(c *thread) bool {
	for _, x := range s.threads {
		if x != c && x.st == ready {
			return true
		}
	}
	return false
}

// --- cooperative blocking, used by syncx ---

// The state of all shims is under one lock.
var shim struct {
	sync.Mutex
	cond *sync.Cond
}

func init() { shim.cond = sync.NewCond(&shim.Mutex) }

// Lock the state of the shims.
func Lock() {
	hide()
	shim.Lock()
}

// Unlock the state of the shims.
func Unlock() {
	shim.Unlock()
	unhide()
}

// Block waits, with the shims' lock held, until free() holds; it returns with the lock held. key identifies what is
// waited for: Wake(key) makes the waiters look again.
func Block(key interface{}, what string, free func() bool) {
	for !free() {
		s := active.Load()
		var t *thread
		if s != nil {
			t = s.me()
		}
		if t == nil {
			shim.cond.Wait()
			continue
		}
		s.mu.Lock()
		t.on, t.what = key, what
		shim.Unlock()
		func() {
			defer shim.Lock() // also when the execution is torn down
			s.yield(t, t.loc, true)
		}()
		s.mu.Lock()
		t.on, t.what = nil, ""
		s.mu.Unlock()
	}
}

// Wake lets the waiters of key look again; with the shims' lock held.
func Wake(key interface{}) {
	shim.cond.Broadcast()
	s := active.Load()
	if s == nil {
		return
	}
	s.mu.Lock()
	woke := false
	for _, t := range s.threads {
		if t.st == blocked && t.on == key {
			t.st = ready
			woke = true
		}
	}
	if woke && s.cur == nil && s.aborted == "" {
		s.tick++
		s.handoff(s.choose(nil))
	}
	s.mu.Unlock()
}

// Explorer enumerates schedules.
type Explorer struct {
	Bound   int // preemptions
	MaxRuns int
	MaxStep int

	Runs, Steps, Extern, Diverged int
	Capped                        bool
	States                        map[uint64]struct{}
}

// Explore runs every schedule within the bound. mk returns the bodies of a fresh execution and a function judging it
// after the end ("" when it is fine). It returns the first failure with its schedule.
func (e *Explorer) Explore(mk func() ([]func(), func() string)) (string, []int) {
	if e.States == nil {
		e.States = map[uint64]struct{}{}
	}
	if e.MaxStep == 0 {
		e.MaxStep = 20000
	}
	var prefix []int
	for {
		msg, res := e.Once(mk, prefix, false)
		e.Runs++
		e.Steps += res.Steps
		e.Extern += res.Extern
		if res.Diverge {
			e.Diverged++
		}
		if msg != "" {
			p := make([]int, len(res.points))
			for i, x := range res.points {
				p[i] = x.choice
			}
			return msg, p
		}
		// next schedule
		i := len(res.points) - 1
		for i >= 0 && res.points[i].choice+1 >= res.points[i].n {
			i--
		}
		if i < 0 {
			return "", nil
		}
		if e.Runs >= e.MaxRuns {
			e.Capped = true
			return "", nil
		}
		prefix = prefix[:0]
		for _, x := range res.points[:i] {
			prefix = append(prefix, x.choice)
		}
		prefix = append(prefix, res.points[i].choice+1)
	}
}

// Once runs one schedule.
func (e *Explorer) Once(mk func() ([]func(), func() string), prefix []int, keep bool) (string, *Result) {
	var bodies []func()
	var judge func() string
	if !finish(func() { bodies, judge = mk() }) {
		return "preparing the execution with no other call running: the calls block forever", &Result{}
	}
	res := run(bodies, prefix, e.Bound, e.MaxStep, e.States, keep)
	if res.Failure != "" {
		return res.Failure, res
	}
	var msg string
	if !finish(func() { msg = judge() }) {
		return "reading the outcome after all calls returned: the calls block forever", res
	}
	return msg, res
}

// finish runs f outside of the scheduler and tells whether it ended.
func finish(f func()) bool {
	done := make(chan struct{})
	go func() {
		f()
		close(done)
	}()
	t := time.NewTimer(30 * time.Second)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-t.C:
		return false
	}
}
