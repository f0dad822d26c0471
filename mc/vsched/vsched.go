// Package vsched is the cooperative scheduler that instrumented code runs
// under. Exactly one scheduled thread runs at a time; at every point the
// explorer's chooser decides who runs next. Threads wait either virtually
// (Wait, with a predicate) or, if the code under test blocks in a primitive of
// its own (a mutex, a channel), really; the latter is recognised from the
// goroutine's state, so code may use any synchronisation.
package vsched

import (
	"context"
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
)

// Used keeps the import of instrumented files used.
var Used int

type mode int32

const (
	off mode = iota
	budgeted
	scheduled
)

var (
	curMode   mode
	libPoints bool
	budget    int64
	spent     int64
)

// BudgetError is the panic of a computation that exceeds its budget.
type BudgetError struct{ N int64 }

func (b BudgetError) Error() string {
	return fmt.Sprintf("more than %d statements executed", b.N)
}

// SetBudget limits the number of statements until the next call; 0 turns the
// limit off.
func SetBudget(n int64) {
	spent, budget = 0, n
	if n > 0 {
		curMode = budgeted
	} else {
		curMode = off
	}
}

// Spent returns the number of statements since SetBudget.
func Spent() int64 { return spent }

// Point is called before every statement.
func Point() {
	switch curMode {
	case off:
	case budgeted:
		if spent++; spent > budget {
			curMode = off
			panic(BudgetError{budget})
		}
	default:
		if s := active; s != nil && !Coarse {
			s.point()
		}
	}
}

// Coarse turns the points before statements off for the rest of the
// execution: threads change only where they wait.
var Coarse bool

// LibPoint is a point in library code: it counts, but is a scheduling point
// only when library points are on.
func LibPoint() {
	if curMode == scheduled && !libPoints {
		if s := active; s != nil && !Coarse {
			s.steps++
			if s.steps > s.Horizon {
				s.point()
			}
		}
		return
	}
	Point()
}

// Chooser decides among n alternatives; alternatives other than 0 cost cost.
type Chooser interface {
	Pick(n, cost int) int
	Left() int
	Frozen() bool // all further picks are 0
}

type thread struct {
	id      int
	pos     int // in s.threads
	name    string
	w       *worker
	pred    func() bool // non-nil: waiting virtually
	done    bool
	blocked bool // really blocked, as far as is known
	arrived bool // came back from a real block and waits at a point
	s       *Sched
	fn      func()
}

// worker is a goroutine that runs threads, one after another.
type worker struct {
	label unsafe.Pointer
	goid  int64
	start chan *thread
	ch    chan struct{}
	t     *thread
}

var (
	workersMu sync.Mutex
	workers   = map[unsafe.Pointer]*worker{}
	idle      []*worker
	labelNo   int
)

func getWorker() *worker {
	if n := len(idle); n > 0 {
		w := idle[n-1]
		idle = idle[:n-1]
		return w
	}
	labelNo++
	w := &worker{start: make(chan *thread, 1), ch: make(chan struct{}, 1)}
	ready := make(chan struct{})
	n := labelNo
	go func() {
		pprof.SetGoroutineLabels(pprof.WithLabels(context.Background(), pprof.Labels("thread", strconv.Itoa(n))))
		w.label = getProfLabel()
		w.goid = goid()
		close(ready)
		defer func() {
			workersMu.Lock()
			delete(workers, w.label)
			workersMu.Unlock()
		}()
		for t := range w.start {
			t.body()
		}
	}()
	<-ready
	workersMu.Lock()
	workers[w.label] = w
	workersMu.Unlock()
	return w
}

// Sched is one execution.
type Sched struct {
	ch       Chooser
	threads  []*thread // all that have not ended, and some that have
	spawned  int
	compact  int // size at which ended threads are dropped
	cur      *thread
	main     chan struct{}
	steps    int64
	Horizon  int64
	Switches int64
	real     int32 // number of threads blocked really
	mu       sync.Mutex
	killing  bool
	gen      int64
	Panics   []string
	Livelock bool
	pools    int64
	foreign  int // threads that wait for a channel not made by instrumented code
}

var active *Sched
var generation int64

// Start begins an execution.
func Start(ch Chooser) *Sched {
	generation++
	s := &Sched{ch: ch, main: make(chan struct{}, 1), Horizon: 400000, gen: generation}
	curMode = off
	Coarse = false
	active = s // channels made from here on belong to the execution
	resetChans()
	for _, f := range resets {
		f()
	}
	curMode = scheduled
	startMonitor()
	return s
}

// DelayBound makes every choice of a thread other than the next in order cost,
// not only preemptions.
var DelayBound bool

// SetLib turns scheduling points in library code on.
func SetLib(on bool) { libPoints = on }

// Steps returns the number of statements executed.
func (s *Sched) Steps() int64 { return s.steps }

//go:linkname getProfLabel runtime/pprof.runtime_getProfLabel
func getProfLabel() unsafe.Pointer

func self() *thread {
	p := getProfLabel()
	if s := active; s != nil && s.cur != nil && s.cur.w.label == p {
		return s.cur
	}
	workersMu.Lock()
	defer workersMu.Unlock()
	if w := workers[p]; w != nil {
		return w.t
	}
	return nil
}

func goid() int64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := strings.Fields(string(b[:n]))
	id, _ := strconv.ParseInt(f[1], 10, 64)
	return id
}

// Go starts a scheduled thread that calls f with the given arguments; outside
// an execution it is a plain go statement.
func Go(f any, args ...any) { start(f, false, args) }

// GoVariadic is Go for a call whose last argument is followed by an ellipsis.
func GoVariadic(f any, args ...any) { start(f, true, args) }

func start(f any, variadic bool, args []any) {
	var run func()
	if g, ok := f.(func()); ok && len(args) == 0 {
		run = g
	} else {
		v := reflect.ValueOf(f)
		t := v.Type()
		in := make([]reflect.Value, len(args))
		for i, a := range args {
			var pt reflect.Type
			switch {
			case t.IsVariadic() && i >= t.NumIn()-1 && !variadic:
				pt = t.In(t.NumIn() - 1).Elem()
			default:
				pt = t.In(i)
			}
			if a == nil {
				in[i] = reflect.Zero(pt)
			} else {
				in[i] = reflect.ValueOf(a)
				if !in[i].Type().AssignableTo(pt) {
					in[i] = in[i].Convert(pt)
				}
			}
		}
		run = func() {
			if variadic {
				v.CallSlice(in)
			} else {
				v.Call(in)
			}
		}
	}
	s := active
	if curMode != scheduled || s == nil {
		go run()
		return
	}
	s.Spawn("go", run)
}

// Spawn adds a thread; it runs when the scheduler picks it.
func (s *Sched) Spawn(name string, f func()) {
	if len(s.threads) >= s.compact {
		live := s.threads[:0]
		for _, u := range s.threads {
			if !u.done {
				u.pos = len(live)
				live = append(live, u)
			}
		}
		for i := len(live); i < len(s.threads); i++ {
			s.threads[i] = nil
		}
		s.threads = live
		s.compact = 2*len(live) + 64
	}
	t := &thread{id: s.spawned, pos: len(s.threads), name: name, s: s, fn: f}
	s.spawned++
	s.threads = append(s.threads, t)
}

func (t *thread) body() {
	s := t.s
	exiting := true
	defer func() {
		if p := recover(); p != nil {
			exiting = false
			if !s.killing {
				st := string(debug.Stack())
				if i := strings.Index(st, "panic("); i >= 0 {
					st = st[i:]
				}
				s.Panics = append(s.Panics, fmt.Sprintf("thread %d (%s): panic: %v\n%s", t.id, t.name, p, st))
			}
		}
		w := t.w
		t.done = true
		if active != s || s.killing {
			if !exiting {
				idle = append(idle, w)
			}
			return
		}
		if s.cur != t {
			// ended after a real block without meeting a point
			s.mu.Lock()
			if t.blocked {
				t.blocked = false
				atomic.AddInt32(&s.real, -1)
			}
			s.mu.Unlock()
			return
		}
		s.settleReal()
		if !exiting {
			idle = append(idle, w)
		}
		s.next(t, true)
	}()
	t.fn()
	exiting = false
}

// point is a scheduling point of the running thread.
func (s *Sched) point() {
	if s.killing {
		// deferred calls of threads being ended run through
		if t := self(); t == nil || t.s != s {
			runtime.Goexit()
		}
		return
	}
	t := self()
	if t == nil {
		return // harness code outside any thread
	}
	if t.s != s {
		runtime.Goexit() // left over from an earlier execution
	}
	if t != s.cur {
		// back from a real block: wait to be scheduled
		s.mu.Lock()
		t.arrived = true
		s.mu.Unlock()
		<-t.w.ch
		s.woken(t)
		return
	}
	s.steps++
	if s.steps > s.Horizon {
		s.Livelock = true
		s.cur = nil
		s.toMain()
		<-t.w.ch
		s.woken(t)
		return
	}
	if atomic.LoadInt32(&s.real) > 0 {
		s.settleReal()
	}
	s.next(t, false)
}

// Yield is a point that harness code may use.
func Yield() { Point() }

// Wait blocks the running thread virtually until pred holds. Pred is
// evaluated by whichever thread is running.
func Wait(pred func() bool) {
	s := active
	if s == nil || curMode != scheduled {
		return
	}
	t := self()
	if t == nil || s.killing {
		if s.killing && t != nil {
			runtime.Goexit()
		}
		return
	}
	if t.s != s {
		runtime.Goexit()
	}
	if t != s.cur {
		s.point()
	}
	s.steps++
	if atomic.LoadInt32(&s.real) > 0 {
		s.settleReal()
	}
	t.pred = pred
	s.next(t, false)
	t.pred = nil
}

func (t *thread) enabled() bool {
	if t.done {
		return false
	}
	if t.blocked {
		t.s.mu.Lock()
		a := t.arrived
		t.s.mu.Unlock()
		return a
	}
	return t.pred == nil || t.pred()
}

// next decides who runs after the current thread reached a point, waits or
// ended, and returns when t runs again.
func (s *Sched) next(t *thread, ended bool) {
	var buf [16]*thread
	en := buf[:0]
	cost := 0
	if !ended && t.enabled() {
		if s.ch.Left() <= 0 {
			return
		}
		en = append(en, t)
		cost = 1
	}
	if DelayBound {
		cost = 1
	}
	n := len(s.threads)
	for k := 1; k <= n; k++ {
		u := s.threads[(t.pos+k)%n]
		if u != t && u.enabled() {
			en = append(en, u)
			if s.ch.Frozen() {
				break
			}
		}
	}
	var pick *thread
	switch len(en) {
	case 0:
		if ended {
			s.cur = nil
			s.toMain()
			return
		}
		s.cur = nil
		s.toMain()
		<-t.w.ch
		s.woken(t)
		return
	case 1:
		pick = en[0]
	default:
		pick = en[s.ch.Pick(len(en), cost)]
	}
	if pick == t {
		return
	}
	s.Switches++
	s.resume(pick)
	if ended {
		return
	}
	<-t.w.ch
	s.woken(t)
}

func (s *Sched) resume(u *thread) {
	s.cur = u
	if u.blocked {
		s.mu.Lock()
		u.blocked, u.arrived = false, false
		s.mu.Unlock()
		atomic.AddInt32(&s.real, -1)
	}
	if u.w == nil {
		u.w = getWorker()
		u.w.t = u
		u.w.start <- u
		return
	}
	u.w.ch <- struct{}{}
}

func (s *Sched) woken(t *thread) {
	if s.killing || active != s {
		runtime.Goexit()
	}
}

func (s *Sched) toMain() {
	select {
	case s.main <- struct{}{}:
	default:
	}
}

// Run lets the threads run until none is enabled. It is called by the
// harness, outside any thread. It reports whether every thread has ended.
func (s *Sched) Run() bool {
	for {
		var en []*thread
		for _, u := range s.threads {
			if u.enabled() {
				en = append(en, u)
				if s.ch.Frozen() {
					break
				}
			}
		}
		if s.Livelock {
			return false
		}
		if len(en) == 0 {
			if atomic.LoadInt32(&s.real) > 0 && s.settleIdle() {
				continue
			}
			if s.foreign > 0 && s.settleForeign() {
				continue
			}
			break
		}
		k := 0
		if len(en) > 1 {
			c := 0
			if DelayBound {
				c = 1
			}
			k = s.ch.Pick(len(en), c)
		}
		s.resume(en[k])
		s.wait()
	}
	for _, u := range s.threads {
		if !u.done {
			return false
		}
	}
	return true
}

// wait blocks the harness until control returns, watching for threads that
// block really.
func (s *Sched) wait() {
	<-s.main
}

// monitor: whenever the running thread has stopped making progress while it
// is nominally running, find out whether it is blocked really.
var monitorOnce sync.Once

func startMonitor() { monitorOnce.Do(func() { go monitor() }) }

var monitorWake = make(chan struct{}, 1)

func monitor() {
	for {
		s := active
		if s == nil || curMode != scheduled {
			time.Sleep(time.Millisecond)
			continue
		}
		t := s.cur
		st := s.steps
		time.Sleep(2 * time.Millisecond)
		for i := 0; i < 20; i++ {
			runtime.Gosched()
		}
		if t == nil || active != s || s.cur != t || s.steps != st || t.done || s.killing || curMode != scheduled {
			continue
		}
		w := t.w
		if w == nil || w.t != t || len(w.ch) > 0 || len(w.start) > 0 || !t.isBlocked() {
			continue
		}
		if active != s || s.cur != t || s.steps != st {
			continue
		}
		// The thread cannot run; take over and let another one run.
		s.mu.Lock()
		t.blocked, t.arrived = true, false
		s.mu.Unlock()
		atomic.AddInt32(&s.real, 1)
		s.cur = nil
		s.toMain()
	}
}

// waiting states of a goroutine that another goroutine has to end
func blockedState(st string) bool {
	switch {
	case strings.HasPrefix(st, "running"), strings.HasPrefix(st, "runnable"), strings.HasPrefix(st, "syscall"), strings.HasPrefix(st, "GC"), strings.HasPrefix(st, "copystack"), strings.HasPrefix(st, "preempted"), strings.HasPrefix(st, "waiting"), strings.HasPrefix(st, "force gc"), strings.HasPrefix(st, "garbage"):
		return false
	}
	return true
}

var stackBuf []byte

// state returns the state of t's goroutine as the runtime reports it.
func (t *thread) state() string {
	if t.w == nil {
		return "runnable"
	}
	if stackBuf == nil {
		stackBuf = make([]byte, 1<<20)
	}
	n := runtime.Stack(stackBuf, true)
	all := string(stackBuf[:n])
	head := fmt.Sprintf("goroutine %d [", t.w.goid)
	i := strings.Index(all, head)
	if i < 0 {
		return "gone"
	}
	st := all[i+len(head):]
	if j := strings.IndexByte(st, ']'); j >= 0 {
		st = st[:j]
	}
	return st
}

func (t *thread) isBlocked() bool { return blockedState(t.state()) }

// settleReal waits until every really blocked thread is either blocked for
// certain or has arrived at a point, so that the outcome does not depend on
// the Go scheduler.
func (s *Sched) settleReal() {
	if atomic.LoadInt32(&s.real) == 0 {
		return
	}
	for round := 0; round < 1000; round++ {
		runtime.Gosched()
		ok := true
		for _, u := range s.threads {
			if !u.blocked || u.done {
				continue
			}
			s.mu.Lock()
			a := u.arrived
			s.mu.Unlock()
			if !a && !u.isBlocked() {
				ok = false
			}
		}
		if ok {
			return
		}
	}
}

// settleIdle is called when nothing is enabled but some threads are blocked
// really: a timer may still wake them.
func (s *Sched) settleIdle() bool {
	timed := false
	for _, u := range s.threads {
		if u.blocked && !u.done && u.sleeping() {
			timed = true
		}
	}
	s.settleReal()
	for i := 0; i < 400; i++ {
		for _, u := range s.threads {
			if u.enabled() {
				return true
			}
		}
		if !timed {
			return false
		}
		time.Sleep(5 * time.Millisecond)
	}
	return false
}

// settleForeign gives timers and the like some real time.
func (s *Sched) settleForeign() bool {
	for i := 0; i < 100; i++ {
		for _, u := range s.threads {
			if u.enabled() {
				return true
			}
		}
		time.Sleep(time.Millisecond)
	}
	return false
}

func (t *thread) sleeping() bool {
	st := t.state()
	return strings.HasPrefix(st, "sleep") || strings.HasPrefix(st, "select")
}

// Unfinished describes the threads that have not ended.
func (s *Sched) Unfinished() []string {
	var out []string
	for _, u := range s.threads {
		if !u.done {
			st := "waits"
			if u.blocked {
				st = "is blocked in a primitive"
			}
			out = append(out, fmt.Sprintf("thread %d (%s) %s", u.id, u.name, st))
		}
	}
	return out
}

// Kill ends all threads.
func (s *Sched) Kill() {
	s.killing = true
	for _, u := range s.threads {
		if u.done || u.w == nil || (u.blocked && !u.arrived) {
			continue
		}
		u.w.ch <- struct{}{}
		for i := 0; !u.done; i++ {
			runtime.Gosched()
			if i > 100000 {
				break
			}
		}
	}
	curMode = off
	active = nil
}

// Pool stands in for sync.Pool: what Get returns is the chooser's decision.
// The default is the item put last.
type Pool struct {
	New   func() any
	gen   int64
	items []any
}

func (p *Pool) fresh() any {
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Get() any {
	s := active
	if s == nil || curMode != scheduled {
		if curMode == off && len(p.items) > 0 && p.gen == -1 {
			x := p.items[len(p.items)-1]
			p.items = p.items[:len(p.items)-1]
			return x
		}
		return p.fresh()
	}
	if p.gen != s.gen {
		p.gen, p.items = s.gen, nil
	}
	n := len(p.items)
	if n == 0 {
		return p.fresh()
	}
	k := 0
	if s.ch.Left() > 0 && PoolChoices {
		alts := 2 // last, none
		if n > 1 {
			alts = 3 // last, none, first
		}
		k = s.ch.Pick(alts, 1)
	}
	switch k {
	case 1:
		return p.fresh()
	case 2:
		x := p.items[0]
		p.items = append([]any{}, p.items[1:]...)
		return x
	}
	x := p.items[n-1]
	p.items = p.items[:n-1]
	return x
}

// PoolChoices makes Pool.Get a choice point.
var PoolChoices = true

func (p *Pool) Put(x any) {
	s := active
	if s == nil || curMode != scheduled {
		return
	}
	if p.gen != s.gen {
		p.gen, p.items = s.gen, nil
	}
	if s.killing {
		return
	}
	p.items = append(p.items, x)
}
