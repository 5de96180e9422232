// Package vsched is a controlled scheduler: while a run is active exactly one
// of its threads executes at a time, and which one continues at every
// scheduling point is an answer of mc.Ctx.Choose. Code instrumented by
// /verif/tools goes through the primitives below; outside a run they behave
// like the primitives they replace.
package vsched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"
	"unsafe"

	"github.com/nanobus/iota/go/zzverif/mc"
)

type status uint8

const (
	runnable status = iota
	blocked
	finished
)

// Thread is one controlled goroutine.
type Thread struct {
	id     int
	name   string
	wake   chan struct{}
	st     status
	ready  func() bool
	what   string
	daemon bool // being blocked for ever is fine
	idle   bool // only scheduled when nothing else is enabled
	sel    *Select
	fired  int
	val    any
	yield  bool
}

// Options bounds a run.
type Options struct {
	// Preemptions bounds the context switches away from a thread that could continue.
	Preemptions int
	// FreeSwitch explores every choice of successor when the running thread
	// blocks or ends; otherwise a non-default successor costs one preemption.
	FreeSwitch bool
	// MaxSteps bounds the scheduling points of one execution.
	MaxSteps int
	// Fine enables the statement-level points of instrumented packages.
	Fine bool
}

type sched struct {
	c       *mc.Ctx
	opt     Options
	threads []*Thread
	cur     *Thread
	budget  int
	steps   int
	abort   bool
	fail    any // first panic value to re-raise
	done    chan struct{}
	closed  map[unsafe.Pointer]bool
	epoch   uint64
	killing chan struct{}
	trace   bool
	killed  bool
	order   int // of ranging over maps: 0 not chosen yet
	keys    map[any]int
	uses    map[unsafe.Pointer]*use
}

var (
	active *sched
	epoch  uint64
)

// Active tells whether a controlled run is in progress.
func Active() bool { return active != nil }

// Epoch identifies the current run (0 outside runs).
func Epoch() uint64 {
	if active == nil {
		return 0
	}
	return epoch
}

// Run executes main as thread 0 and returns when it has returned; threads
// still alive then are killed. A panic in any thread is re-raised here.
func Run(c *mc.Ctx, opt Options, main func()) {
	if active != nil {
		panic("vsched: nested run")
	}
	if opt.MaxSteps == 0 {
		opt.MaxSteps = 20000
	}
	epoch++
	s := &sched{c: c, opt: opt, budget: opt.Preemptions, done: make(chan struct{}), closed: map[unsafe.Pointer]bool{}, epoch: epoch, trace: c.Logging()}
	active = s
	t := s.newThread("main")
	s.cur = t
	go s.body(t, func() { main(); s.finish(nil) })
	t.wake <- struct{}{}
	<-s.done
	// Kill the rest one by one.
	for i := 0; i < len(s.threads); i++ {
		th := s.threads[i]
		if th.st == finished {
			continue
		}
		k := make(chan struct{})
		s.killing = k
		s.cur = th
		th.wake <- struct{}{}
		<-k
	}
	active = nil
	c.Steps(s.steps)
	if s.fail != nil {
		panic(s.fail)
	}
}

func (s *sched) newThread(name string) *Thread {
	t := &Thread{id: len(s.threads), name: name, wake: make(chan struct{}, 1)}
	s.threads = append(s.threads, t)
	return t
}

func (s *sched) body(t *Thread, f func()) {
	<-t.wake
	normal := false
	defer func() {
		r := recover()
		t.st = finished
		if s.abort {
			if r != nil && s.fail == nil && !s.killed {
				// a panic in a deferred function while unwinding is ignored
				_ = r
			}
			s.gone()
			return
		}
		if !normal && r != nil {
			if isVerdict(r) {
				s.finish(r)
			} else {
				s.finish(mc.Violation(fmt.Sprintf("panic in goroutine %s: %v\n%s%s", t.name, r, stackOf(debug.Stack()), s.dump())))
			}
			s.gone()
			return
		}
		// runtime.Goexit by the program itself, or a normal return.
		// Another thread may already be running after this.
		if !s.reschedule(true) {
			s.gone()
		}
	}()
	if s.abort {
		normal = true
		return
	}
	f()
	normal = true
}

func isVerdict(r any) bool {
	n := fmt.Sprintf("%T", r)
	return strings.HasPrefix(n, "mc.")
}

func stackOf(b []byte) string {
	lines := strings.Split(string(b), "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			lines = lines[i:]
			break
		}
	}
	if len(lines) > 16 {
		lines = lines[:16]
	}
	return strings.Join(lines, "\n")
}

// finish ends the run with verdict r; called from the running thread, which
// then unwinds and reports with gone.
func (s *sched) finish(r any) {
	if s.abort {
		return
	}
	s.abort = true
	s.fail = r
}

// gone hands control back to Run from a thread that has unwound.
func (s *sched) gone() {
	if !s.killed {
		s.killed = true
		close(s.done)
		return
	}
	if k := s.killing; k != nil {
		s.killing = nil
		close(k)
	}
}

// enabled lists threads that may run now, the current one first.
func (s *sched) enabled(self bool) []*Thread {
	var out []*Thread
	if self && s.cur.isEnabled() {
		out = append(out, s.cur)
	}
	n := len(s.threads)
	for k := 1; k <= n; k++ {
		t := s.threads[(s.cur.id+k)%n]
		if t == s.cur || !t.isEnabled() || t.idle {
			continue
		}
		out = append(out, t)
		if s.budget == 0 && !s.opt.FreeSwitch && !s.cur.yield && !(self && s.cur.idle) {
			break // the first is taken
		}
	}
	return out
}

func (t *Thread) isEnabled() bool {
	switch t.st {
	case runnable:
		return true
	case blocked:
		return t.ready != nil && t.ready()
	}
	return false
}

// reschedule picks the next thread; gone means the current one cannot continue.
// It reports whether there was a thread to pick.
func (s *sched) reschedule(gone bool) bool {
	s.steps++
	if s.steps > s.opt.MaxSteps {
		s.failNow(fmt.Sprintf("livelock: more than %d scheduling points in one execution", s.opt.MaxSteps), gone)
		return false
	}
	cur := s.cur
	if !gone && s.budget == 0 && !cur.idle && !cur.yield && cur.isEnabled() {
		cur.st = runnable // the only choice
		cur.ready = nil
		return true
	}
	en := s.enabled(!gone)
	curEnabled := len(en) > 0 && en[0] == cur
	if curEnabled && cur.idle && len(en) > 1 {
		en = en[1:]
		curEnabled = false
	}
	if len(en) == 0 {
		// idle threads only now
		for _, t := range s.threads {
			if t.idle && t.isEnabled() {
				en = append(en, t)
				break
			}
		}
	}
	if len(en) == 0 {
		s.failNow("deadlock: no goroutine can make progress", gone)
		return false
	}
	if curEnabled && cur.yield && len(en) > 1 {
		en = append(en[1:], en[0])
		curEnabled = false
	}
	pick := 0
	if len(en) > 1 {
		if curEnabled || !s.opt.FreeSwitch {
			if s.budget > 0 {
				pick = s.c.Choose(len(en))
				if pick != 0 {
					s.budget--
				}
			}
		} else {
			pick = s.c.Choose(len(en))
		}
	}
	next := en[pick]
	if next == cur && !gone {
		cur.st = runnable
		cur.ready = nil
		cur.yield = false
		return true
	}
	if s.trace && next != cur {
		s.c.Logf("[switch %s -> %s]", cur.name, next.name)
	}
	next.st = runnable
	s.cur = next
	next.wake <- struct{}{}
	if gone {
		return true
	}
	<-cur.wake
	if s.abort {
		runtime.Goexit()
	}
	cur.st = runnable
	cur.ready = nil
	cur.yield = false
	return true
}

func (s *sched) dump() string {
	var b strings.Builder
	b.WriteString("\nthreads:")
	for _, t := range s.threads {
		switch t.st {
		case blocked:
			fmt.Fprintf(&b, " [%d %s blocked on %s]", t.id, t.name, t.what)
		case runnable:
			fmt.Fprintf(&b, " [%d %s runnable]", t.id, t.name)
		}
	}
	return b.String()
}

func (s *sched) failNow(msg string, gone bool) {
	s.finish(mc.Violation(msg + s.dump()))
	if !gone {
		runtime.Goexit()
	}
}

// Point is a scheduling point.
func Point() {
	s := active
	if s == nil {
		return
	}
	if s.abort {
		runtime.Goexit()
	}
	s.reschedule(false)
}

// P is a statement-level scheduling point.
func P() {
	s := active
	if s == nil || !s.opt.Fine {
		return
	}
	if s.abort {
		return
	}
	s.reschedule(false)
}

// Gosched replaces runtime.Gosched.
func Gosched() {
	s := active
	if s == nil {
		runtime.Gosched()
		return
	}
	if s.abort {
		runtime.Goexit()
	}
	s.cur.yield = true
	s.reschedule(false)
	s.cur.yield = false
}

// block parks the current thread until ready reports true.
func (s *sched) block(what string, ready func() bool) {
	t := s.cur
	t.st = blocked
	t.ready = ready
	t.what = what
	s.reschedule(false)
	t.st = runnable
	t.ready = nil
}

// Wait blocks until cond holds (harness and shims).
func Wait(what string, cond func() bool) {
	s := active
	if s == nil {
		for !cond() {
			runtime.Gosched()
		}
		return
	}
	if s.abort {
		runtime.Goexit()
	}
	s.reschedule(false)
	for !cond() {
		s.block(what, cond)
	}
}

// WaitAfter is Wait without a scheduling point first.
func WaitAfter(what string, cond func() bool) {
	s := active
	if s == nil {
		for !cond() {
			runtime.Gosched()
		}
		return
	}
	if s.abort {
		runtime.Goexit()
	}
	for !cond() {
		s.block(what, cond)
	}
}

// Quiesce lets every other thread run until none can continue (idle sleepers
// excepted), exploring their schedules on the way.
func Quiesce() {
	s := active
	if s == nil || s.abort {
		return
	}
	self := s.cur
	s.block("quiescence", func() bool {
		for _, t := range s.threads {
			if t == self || t.idle {
				continue
			}
			if t.st == runnable || (t.st == blocked && t.ready != nil && t.readyExcept(self)) {
				return false
			}
		}
		return true
	})
}

func (t *Thread) readyExcept(*Thread) bool {
	if t.what == "quiescence" {
		return false
	}
	return t.ready()
}

// Blocked describes the live threads other than the caller.
func Blocked() []string {
	s := active
	var out []string
	if s == nil {
		return nil
	}
	for _, t := range s.threads {
		if t == s.cur || t.st == finished {
			continue
		}
		out = append(out, t.name+": "+t.what)
	}
	return out
}

// Self names the current thread.
func Self() string {
	if active == nil {
		return ""
	}
	return active.cur.name
}

// SelfID is the number of the current thread, or -1.
func SelfID() int {
	if active == nil {
		return -1
	}
	return active.cur.id
}

// Go replaces the go statement.
func Go(f func()) { GoNamed("", f) }

// GoNamed starts a named thread.
func GoNamed(name string, f func()) {
	s := active
	if s == nil {
		go f()
		return
	}
	if s.abort {
		return
	}
	if name == "" {
		name = "go"
		if pc, _, line, ok := runtime.Caller(2); ok {
			if fn := runtime.FuncForPC(pc); fn != nil {
				n := fn.Name()
				if i := strings.LastIndexByte(n, '/'); i >= 0 {
					n = n[i+1:]
				}
				name = fmt.Sprintf("%s:%d", n, line)
			}
		}
	}
	t := s.newThread(fmt.Sprintf("%s#%d", name, len(s.threads)))
	go s.body(t, f)
	s.reschedule(false)
}

// Sleep replaces time.Sleep: the sleeper continues when nothing else can.
func Sleep(d time.Duration) {
	s := active
	if s == nil {
		time.Sleep(d)
		return
	}
	if s.abort {
		runtime.Goexit()
	}
	s.cur.idle = true
	s.reschedule(false)
	s.cur.idle = false
}

// AfterFunc replaces time.AfterFunc: f runs when nothing else can.
func AfterFunc(d time.Duration, f func()) *time.Timer {
	if active == nil {
		return time.AfterFunc(d, f)
	}
	t := time.NewTimer(24 * time.Hour) // its Stop tells whether f is still to run
	GoNamed("timer", func() {
		Sleep(d)
		if t.Stop() {
			f()
		}
	})
	return t
}

// After replaces time.After.
func After(d time.Duration) <-chan time.Time {
	if active == nil {
		return time.After(d)
	}
	c := make(chan time.Time, 1)
	GoNamed("timer", func() {
		Sleep(d)
		Send(c)(Now())
	})
	return c
}

// Clock, when set, stands in for time.Now.
var Clock func() time.Time

// Now replaces time.Now.
func Now() time.Time {
	if Clock != nil {
		return Clock()
	}
	return time.Now()
}

// Fail reports a violation from any thread.
func Fail(format string, a ...any) {
	panic(mc.Violation(fmt.Sprintf(format, a...)))
}

// Logf adds a line to the execution's log.
func Logf(format string, a ...any) {
	if s := active; s != nil && !s.abort {
		if s.trace {
			s.c.Logf("%s: %s", s.cur.name, fmt.Sprintf(format, a...))
		} else {
			s.c.Step()
		}
	}
}

// Choose explores data nondeterminism inside a run.
func Choose(n int) int {
	if active == nil || active.abort {
		return 0
	}
	return active.c.Choose(n)
}

var _ sync.Mutex

// Aborting tells whether the run is being torn down.
func Aborting() bool { return active != nil && active.abort }
