package vsched

import (
	"reflect"
	"runtime"
	"unsafe"
)

// Channels: buffered channels hold their values in the real channel, because
// only one thread runs at a time. Unbuffered channels rendezvous through the
// waiting thread's case list, so the real channel never holds a value and a
// successful non-blocking receive from it means that it is closed.

func rptr[T any](ch <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }
func sptr[T any](ch chan<- T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

// Select is one select statement (or a single channel operation).
type Select struct {
	cases      []selCase
	hasDefault bool
}

type selCase struct {
	p    unsafe.Pointer // nil channel: never ready
	send bool
	unb  bool
	// ready reports readiness without a partner.
	ready func() bool
	// exec performs the operation on the real channel.
	exec func()
	// val is the value to send; put stores a value received by rendezvous.
	val  any
	put  func(v any, ok bool)
	ch   reflect.Value
	rval reflect.Value
}

// NewSelect starts a select.
func NewSelect(hasDefault bool) *Select { return &Select{hasDefault: hasDefault} }

// RecvCase holds a received value.
type RecvCase[T any] struct {
	v  T
	ok bool
}

// Get returns the received value.
func (r *RecvCase[T]) Get() T { return r.v }

// Get2 returns the received value and whether the channel was open.
func (r *RecvCase[T]) Get2() (T, bool) { return r.v, r.ok }

// AddRecv adds a receive case.
func AddRecv[T any](s *Select, ch <-chan T) *RecvCase[T] {
	r := &RecvCase[T]{}
	c := selCase{p: rptr(ch), unb: cap(ch) == 0}
	if active == nil {
		c.ch = reflect.ValueOf(ch)
	}
	c.put = func(v any, ok bool) {
		if v != nil {
			r.v = v.(T)
		}
		r.ok = ok
	}
	if ch != nil {
		c.ready = func() bool {
			if r.ok || len(ch) > 0 {
				return true
			}
			if sc := active; sc != nil && sc.closed[rptr(ch)] {
				return true
			}
			// Closed by code that is not instrumented?
			select {
			case v, ok := <-ch:
				if ok {
					// A real sender outside the run; keep its value.
					r.v, r.ok = v, true
					return true
				}
				return true
			default:
				return false
			}
		}
		c.exec = func() {
			if r.ok {
				return
			}
			r.v, r.ok = <-ch
		}
	}
	s.cases = append(s.cases, c)
	return r
}

// AddSend adds a send case.
func AddSend[T any](s *Select, ch chan<- T) func(T) {
	return func(v T) {
		c := selCase{p: sptr(ch), send: true, unb: cap(ch) == 0, val: v}
		if active == nil {
			c.ch, c.rval = reflect.ValueOf(ch), reflect.ValueOf(&v).Elem()
		}
		if ch != nil {
			c.ready = func() bool {
				if sc := active; sc != nil && sc.closed[sptr(ch)] {
					return true
				}
				return cap(ch) > 0 && len(ch) < cap(ch)
			}
			c.exec = func() { ch <- v }
		}
		s.cases = append(s.cases, c)
	}
}

// partner finds a parked thread with the complementary case.
func (s *sched) partner(self *Thread, c *selCase) (*Thread, int) {
	if !c.unb || c.p == nil {
		return nil, 0
	}
	n := len(s.threads)
	for k := 1; k < n; k++ {
		t := s.threads[(self.id+k)%n]
		if t == self || t.st != blocked || t.sel == nil {
			continue
		}
		for i := range t.sel.cases {
			tc := &t.sel.cases[i]
			if tc.p == c.p && tc.send != c.send {
				return t, i
			}
		}
	}
	return nil, 0
}

func (s *sched) caseReady(self *Thread, c *selCase) bool {
	if c.p == nil {
		return false
	}
	if c.ready() {
		return true
	}
	t, _ := s.partner(self, c)
	return t != nil
}

// Do performs the select and returns the index of the chosen case; the
// default case is len(cases).
func (sel *Select) Do() int {
	s := active
	if s == nil {
		return sel.real()
	}
	if s.abort {
		runtime.Goexit()
	}
	s.reschedule(false)
	self := s.cur
	var ready []int
	scan := func() bool {
		ready = ready[:0]
		for i := range sel.cases {
			if s.caseReady(self, &sel.cases[i]) {
				ready = append(ready, i)
			}
		}
		return len(ready) > 0
	}
	if !scan() {
		if sel.hasDefault {
			return len(sel.cases)
		}
		self.sel = sel
		self.fired = -1
		s.block("channel operation", func() bool { return self.fired >= 0 || scan() })
		self.sel = nil
		if self.fired >= 0 {
			return self.fired
		}
		scan()
	}
	i := ready[0]
	if len(ready) > 1 {
		i = ready[s.c.Choose(len(ready))]
	}
	c := &sel.cases[i]
	if !c.ready() {
		t, k := s.partner(self, c)
		tc := &t.sel.cases[k]
		if c.send {
			tc.put(c.val, true)
		} else {
			c.put(tc.val, true)
		}
		t.fired = k
		t.sel = nil
		return i
	}
	c.exec()
	return i
}

// real performs the operation outside a run.
func (sel *Select) real() int {
	cs := make([]reflect.SelectCase, 0, len(sel.cases)+1)
	for i := range sel.cases {
		c := &sel.cases[i]
		rc := reflect.SelectCase{Dir: reflect.SelectRecv, Chan: c.ch}
		if c.send {
			rc.Dir = reflect.SelectSend
			rc.Send = c.rval
		}
		cs = append(cs, rc)
	}
	if sel.hasDefault {
		cs = append(cs, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(cs)
	if i < len(sel.cases) && !sel.cases[i].send {
		if ok {
			sel.cases[i].put(v.Interface(), true)
		} else {
			sel.cases[i].put(nil, false)
		}
	}
	return i
}

// Send replaces ch <- v.
func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		if active == nil {
			ch <- v
			return
		}
		s := NewSelect(false)
		AddSend(s, ch)(v)
		s.Do()
	}
}

// Recv replaces <-ch.
func Recv[T any](ch <-chan T) T {
	if active == nil {
		return <-ch
	}
	s := NewSelect(false)
	r := AddRecv(s, ch)
	s.Do()
	return r.v
}

// Recv2 replaces v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	if active == nil {
		v, ok := <-ch
		return v, ok
	}
	s := NewSelect(false)
	r := AddRecv(s, ch)
	s.Do()
	return r.v, r.ok
}

// Close replaces close(ch).
func Close[T any](ch chan<- T) {
	s := active
	if s == nil {
		close(ch)
		return
	}
	if s.abort {
		return
	}
	s.reschedule(false)
	close(ch) // panics when already closed, like the original
	s.closed[sptr(ch)] = true
}
