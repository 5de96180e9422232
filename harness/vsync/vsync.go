// Package vsync stands in for package sync in instrumented code.
package vsync

import (
	"sync"

	"github.com/nanobus/iota/go/zzverif/vsched"
)

type Locker = sync.Locker

// Mutex is sync.Mutex under the controlled scheduler.
type Mutex struct {
	real   sync.Mutex
	epoch  uint64
	locked bool
}

func (m *Mutex) reset() {
	if e := vsched.Epoch(); m.epoch != e {
		m.epoch = e
		m.locked = false
	}
}

func (m *Mutex) Lock() {
	if !vsched.Active() {
		m.real.Lock()
		return
	}
	m.reset()
	vsched.Wait("mutex", func() bool { return !m.locked })
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	if !vsched.Active() {
		return m.real.TryLock()
	}
	m.reset()
	vsched.Point()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if !vsched.Active() {
		m.real.Unlock()
		return
	}
	if vsched.Aborting() {
		m.locked = false
		return
	}
	m.reset()
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	vsched.Point()
}

// RWMutex is sync.RWMutex under the controlled scheduler.
type RWMutex struct {
	real    sync.RWMutex
	epoch   uint64
	writer  bool
	readers int
}

func (m *RWMutex) reset() {
	if e := vsched.Epoch(); m.epoch != e {
		m.epoch = e
		m.writer = false
		m.readers = 0
	}
}

func (m *RWMutex) Lock() {
	if !vsched.Active() {
		m.real.Lock()
		return
	}
	m.reset()
	vsched.Wait("rwmutex", func() bool { return !m.writer && m.readers == 0 })
	m.writer = true
}

func (m *RWMutex) TryLock() bool {
	if !vsched.Active() {
		return m.real.TryLock()
	}
	m.reset()
	vsched.Point()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) Unlock() {
	if !vsched.Active() {
		m.real.Unlock()
		return
	}
	if vsched.Aborting() {
		m.writer = false
		return
	}
	m.reset()
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	vsched.Point()
}

func (m *RWMutex) RLock() {
	if !vsched.Active() {
		m.real.RLock()
		return
	}
	m.reset()
	vsched.Wait("rwmutex", func() bool { return !m.writer })
	m.readers++
}

func (m *RWMutex) TryRLock() bool {
	if !vsched.Active() {
		return m.real.TryRLock()
	}
	m.reset()
	vsched.Point()
	if m.writer {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	if !vsched.Active() {
		m.real.RUnlock()
		return
	}
	if vsched.Aborting() {
		return
	}
	m.reset()
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	vsched.Point()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		vsched.Point()
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	real sync.WaitGroup
	n    int
}

func (w *WaitGroup) Add(d int) {
	if !vsched.Active() {
		w.real.Add(d)
		return
	}
	if vsched.Aborting() {
		return
	}
	vsched.Point()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if !vsched.Active() {
		w.real.Wait()
		return
	}
	vsched.Wait("waitgroup", func() bool { return w.n == 0 })
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() {
		defer w.Done()
		f()
	})
}

// Cond is sync.Cond.
type Cond struct {
	L     Locker
	real  *sync.Cond
	queue []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l, real: sync.NewCond(l)} }

func (c *Cond) Wait() {
	if !vsched.Active() {
		c.real.Wait()
		return
	}
	woken := false
	c.queue = append(c.queue, &woken)
	c.L.Unlock()
	vsched.Wait("cond", func() bool { return woken })
	c.L.Lock()
}

func (c *Cond) Signal() {
	if !vsched.Active() {
		c.real.Signal()
		return
	}
	vsched.Point()
	if len(c.queue) > 0 {
		*c.queue[0] = true
		c.queue = c.queue[1:]
	}
}

func (c *Cond) Broadcast() {
	if !vsched.Active() {
		c.real.Broadcast()
		return
	}
	vsched.Point()
	for _, w := range c.queue {
		*w = true
	}
	c.queue = nil
}

// Pool is sync.Pool; under the scheduler it is a deterministic stack that
// prefers reuse, the harshest behaviour the contract allows.
type Pool struct {
	New   func() any
	real  sync.Pool
	epoch uint64
	items []any
}

func (p *Pool) Get() any {
	if !vsched.Active() {
		if v := p.real.Get(); v != nil {
			return v
		}
		if p.New != nil {
			return p.New()
		}
		return nil
	}
	if e := vsched.Epoch(); p.epoch != e {
		p.epoch = e
		p.items = nil
	}
	vsched.Point()
	if n := len(p.items); n > 0 {
		v := p.items[n-1]
		p.items = p.items[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	if !vsched.Active() {
		p.real.Put(v)
		return
	}
	if e := vsched.Epoch(); p.epoch != e {
		p.epoch = e
		p.items = nil
	}
	vsched.Point()
	p.items = append(p.items, v)
}

// Map is sync.Map with a scheduling point before every operation.
type Map struct{ real sync.Map }

func (m *Map) Load(k any) (any, bool)           { vsched.Point(); return m.real.Load(k) }
func (m *Map) Store(k, v any)                   { vsched.Point(); m.real.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { vsched.Point(); return m.real.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { vsched.Point(); return m.real.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { vsched.Point(); m.real.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { vsched.Point(); return m.real.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	vsched.Point()
	return m.real.CompareAndSwap(k, o, n)
}
func (m *Map) CompareAndDelete(k, o any) bool { vsched.Point(); return m.real.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool)    { vsched.Point(); m.real.Range(f) }
func (m *Map) Clear()                         { vsched.Point(); m.real = sync.Map{} }

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}
