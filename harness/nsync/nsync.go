// Package nsync replaces package sync in native replays of counterexamples
// that depend on the schedule: a cooperative scheduler follows the decisions
// of the counterexample. It is never part of an analysed program.
package nsync

import (
	"fmt"
	"os"
	"runtime"
	"sync"

	"github.com/leftmike/maho/zzverif/sym"
)

type (
	Once   = sync.Once
	Pool   = sync.Pool
	Locker = sync.Locker
)

type g struct {
	wake    chan struct{}
	done    bool
	blocked func() bool
}

var (
	main     = &g{wake: make(chan struct{}, 1)}
	gs       = []*g{main}
	cur      = main
	preempts int
)

func init() {
	sym.GoHook = spawn
	sym.YieldHook = Yield
}

func spawn(f func()) {
	n := &g{wake: make(chan struct{}, 1)}
	gs = append(gs, n)
	go func() {
		<-n.wake
		f()
		n.done = true
		next := pick(nil)
		cur = next
		next.wake <- struct{}{}
	}()
}

func pick(c *g) *g {
	var rs []*g
	for _, x := range gs {
		if !x.done && (x.blocked == nil || x.blocked()) {
			rs = append(rs, x)
		}
	}
	if len(rs) == 0 {
		fmt.Println("fatal error: all goroutines are asleep - deadlock")
		os.Exit(2)
	}
	if len(rs) == 1 {
		return rs[0]
	}
	run := false
	if c != nil {
		for i, x := range rs {
			if x == c {
				run = true
				rs[0], rs[i] = rs[i], rs[0]
			}
		}
	}
	if run && preempts >= sym.PreemptMax {
		return c
	}
	n := rs[sym.Choose("sched", len(rs))]
	if run && n != c {
		preempts++
	}
	return n
}

// Yield is a scheduling point.
func Yield() {
	if len(gs) < 2 {
		return
	}
	me := cur
	n := pick(me)
	if n != me {
		cur = n
		n.wake <- struct{}{}
		<-me.wake
	}
}

func block(ready func() bool) {
	me := cur
	for !ready() {
		me.blocked = ready
		n := pick(nil)
		if n != me {
			cur = n
			n.wake <- struct{}{}
			<-me.wake
		}
	}
	me.blocked = nil
}

type RWMutex struct {
	w bool
	r int
}

func (m *RWMutex) Lock() {
	Yield()
	block(func() bool { return !m.w && m.r == 0 })
	m.w = true
}

func (m *RWMutex) TryLock() bool {
	Yield()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) Unlock() {
	if !m.w {
		fatal("fatal error: sync: unlock of unlocked mutex")
	}
	m.w = false
}

func (m *RWMutex) TryRLock() bool {
	Yield()
	if m.w {
		return false
	}
	m.r++
	return true
}

type rlocker struct{ m *RWMutex }

func (l rlocker) Lock()   { l.m.RLock() }
func (l rlocker) Unlock() { l.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

func (m *RWMutex) RLock() {
	Yield()
	block(func() bool { return !m.w })
	m.r++
}

func (m *RWMutex) RUnlock() {
	if m.r == 0 {
		fatal("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.r--
}

func fatal(s string) {
	fmt.Println(s)
	os.Exit(2)
}

type Mutex struct{ m RWMutex }

func (m *Mutex) Lock()         { m.m.Lock() }
func (m *Mutex) TryLock() bool { return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	Yield()
	block(func() bool { return w.n == 0 })
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	spawn(func() {
		defer w.Done()
		f()
	})
}

type Cond struct {
	L       Locker
	waiters []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	woken := false
	c.waiters = append(c.waiters, &woken)
	c.L.Unlock()
	block(func() bool { return woken })
	c.L.Lock()
}

func (c *Cond) Signal() {
	if len(c.waiters) > 0 {
		*c.waiters[0] = true
		c.waiters = c.waiters[1:]
	}
}

func (c *Cond) Broadcast() {
	for len(c.waiters) > 0 {
		c.Signal()
	}
}

func OnceValue[T any](f func() T) func() T               { return sync.OnceValue(f) }
func OnceValues[T, U any](f func() (T, U)) func() (T, U) { return sync.OnceValues(f) }

func OnceFunc(f func()) func() { return sync.OnceFunc(f) }

var _ = runtime.Gosched

// Map is a sync.Map whose operations are scheduling points.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)            { Yield(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                    { Yield(); m.m.Store(k, v) }
func (m *Map) Clear()                            { Yield(); m.m.Clear() }
func (m *Map) LoadOrStore(k, v any) (any, bool)  { Yield(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)   { Yield(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                      { Yield(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)         { Yield(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, old, v any) bool { Yield(); return m.m.CompareAndSwap(k, old, v) }
func (m *Map) CompareAndDelete(k, old any) bool  { Yield(); return m.m.CompareAndDelete(k, old) }
func (m *Map) Range(f func(k, v any) bool) {
	Yield()
	var keys []any
	m.m.Range(func(k, v any) bool { keys = append(keys, k); return true })
	for _, k := range keys {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}
