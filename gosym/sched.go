package main

// Goroutines, locks, channels and the happens-before race monitor. Every
// scheduling decision is a symbolic choice.

import (
	"fmt"
	"go/types"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type VC map[int]int

func (v VC) join(o VC) {
	for k, c := range o {
		if c > v[k] {
			v[k] = c
		}
	}
}

func (v VC) clone() VC {
	n := VC{}
	for k, c := range v {
		n[k] = c
	}
	return n
}

type G struct {
	id      int
	wake    chan struct{}
	done    bool
	blocked func() bool // nil when runnable
	vc      VC
	depth   int
	exited  chan struct{}
}

type lockState struct {
	writer  *G
	readers map[*G]int
	vc      VC // released by writers
	rvc     VC // released by readers
}

type wgState struct {
	n  int
	vc VC
}

type ChanV struct {
	cap      int
	buf      []Value
	closed   bool
	vc       VC
	recvq    int
	sendq    []*chanSender
	recvWait int // goroutines waiting to receive
}

type chanSender struct {
	v    Value
	done bool
}

type shadowCell struct {
	wg, wc int
	reads  map[int]int
	hasW   bool
}

func ptrOf(m any) unsafe.Pointer {
	switch x := m.(type) {
	case *MapV:
		return unsafe.Pointer(x)
	case *ChanV:
		return unsafe.Pointer(x)
	}
	return nil
}

func ptrOfV(p Ptr) unsafe.Pointer { return unsafe.Pointer(p) }

func (in *Interp) raceAccess(p unsafe.Pointer, write bool) {
	if len(in.gs) < 2 || in.spec > 0 {
		return
	}
	g := in.curG
	s := in.shadow[p]
	if s == nil {
		s = &shadowCell{}
		in.shadow[p] = s
	}
	race := false
	if s.hasW && s.wg != g.id && s.wc > g.vc[s.wg] {
		race = true
	}
	if write {
		for r, c := range s.reads {
			if r != g.id && c > g.vc[r] {
				race = true
			}
		}
		s.hasW = true
		s.wg, s.wc = g.id, g.vc[g.id]
		s.reads = nil
	} else {
		if s.reads == nil {
			s.reads = map[int]int{}
		}
		s.reads[g.id] = g.vc[g.id]
	}
	if race {
		in.recordViolation("data-race", "race", "two goroutines access the same memory without synchronisation", "")
		panic(pathEnd{"violation"})
	}
}

// spawn starts an interpreted goroutine.
func (in *Interp) spawn(f Value, args []Value) {
	if in.spec > 0 {
		panic(specAbort{})
	}
	g := &G{id: len(in.gs), wake: make(chan struct{}), exited: make(chan struct{})}
	par := in.curG
	g.vc = par.vc.clone()
	g.vc[g.id] = 1
	par.vc[par.id]++
	in.gs = append(in.gs, g)
	in.raceOn = true
	go func() {
		defer close(g.exited)
		<-g.wake
		func() {
			defer func() {
				if r := recover(); r != nil {
					if pe, ok := r.(pathEnd); ok && pe.why == "killed" {
						return
					}
					in.fatal = r
				}
			}()
			if in.killing {
				panic(pathEnd{"killed"})
			}
			in.callValue(nil, f, args)
		}()
		g.done = true
		if in.killing {
			return
		}
		if in.fatal != nil {
			in.handTo(in.gs[0])
			return
		}
		// pick another
		func() {
			defer func() {
				if r := recover(); r != nil {
					in.fatal = r
					in.handTo(in.gs[0])
				}
			}()
			n := in.pick(nil)
			in.handTo(n)
		}()
	}()
}

func (in *Interp) handTo(g *G) {
	in.curG = g
	g.wake <- struct{}{}
}

func (in *Interp) runnable() []*G {
	var r []*G
	for _, g := range in.gs {
		if g.done {
			continue
		}
		if g.blocked == nil || g.blocked() {
			r = append(r, g)
		}
	}
	return r
}

// pick selects the next goroutine; cur (may be nil) is the running one.
func (in *Interp) pick(cur *G) *G {
	rs := in.runnable()
	if len(rs) == 0 {
		in.recordViolation("deadlock", "deadlock", "all goroutines are blocked", "")
		panic(pathEnd{"violation"})
	}
	if len(rs) == 1 {
		return rs[0]
	}
	curRun := false
	if cur != nil {
		for i, g := range rs {
			if g == cur {
				curRun = true
				rs[0], rs[i] = rs[i], rs[0]
			}
		}
	}
	if curRun && in.preempt >= in.preemptMax {
		return cur
	}
	in.schedN++
	n := in.choose("sched", len(rs))
	if curRun && rs[n] != cur {
		in.preempt++
	}
	return rs[n]
}

// yieldAt is a scheduling point when the call comes from the repository or a
// harness; critical sections inside dependencies are atomic steps.
func (in *Interp) yieldAt(fr *frame) {
	for f := fr; f != nil; f = f.caller {
		p := f.code.fn.Pkg
		if p == nil && f.code.fn.Origin() != nil {
			p = f.code.fn.Origin().Pkg
		}
		if p == nil {
			continue
		}
		path := p.Pkg.Path()
		if path == "sync" || path == "sync/atomic" {
			continue
		}
		if !strings.HasPrefix(path, modPath) {
			return
		}
		break
	}
	in.yield()
}

// yield is a scheduling point.
func (in *Interp) yield() {
	if len(in.gs) < 2 {
		return
	}
	if in.spec > 0 {
		panic(specAbort{})
	}
	cur := in.curG
	n := in.pick(cur)
	if n != cur {
		in.switchFrom(cur, n)
	}
}

func (in *Interp) switchFrom(cur, n *G) {
	cur.depth = in.depth
	if cur.wake == nil {
		cur.wake = make(chan struct{})
	}
	in.handTo(n)
	<-cur.wake
	in.depth = cur.depth
	if in.killing {
		panic(pathEnd{"killed"})
	}
	if cur.id == 0 && in.fatal != nil {
		f := in.fatal
		in.fatal = nil
		panic(f)
	}
}

// block waits until ready() holds.
func (in *Interp) block(ready func() bool) {
	if in.spec > 0 {
		panic(specAbort{})
	}
	cur := in.curG
	for !ready() {
		cur.blocked = ready
		n := in.pick(nil)
		if n != cur {
			if cur.wake == nil {
				cur.wake = make(chan struct{})
			}
			in.switchFrom(cur, n)
		}
	}
	cur.blocked = nil
}

func (in *Interp) killOthers() {
	if len(in.gs) < 2 {
		return
	}
	in.killing = true
	for _, g := range in.gs[1:] {
		if !g.done {
			g.wake <- struct{}{}
			<-g.exited
		} else {
			<-g.exited
		}
	}
}

// ---- sync primitives ----

func (in *Interp) lock(p Ptr) *lockState {
	l := in.locks[p]
	if l == nil {
		l = &lockState{readers: map[*G]int{}, vc: VC{}, rvc: VC{}}
		in.locks[p] = l
	}
	return l
}

func (in *Interp) mutexLock(fr *frame, p Ptr) {
	if p == nil {
		in.throwNil()
	}
	l := in.lock(p)
	in.yieldAt(fr)
	in.block(func() bool { return l.writer == nil && len(l.readers) == 0 })
	l.writer = in.curG
	in.curG.vc.join(l.vc)
	in.curG.vc.join(l.rvc)
}

func (in *Interp) mutexTryLock(fr *frame, p Ptr) bool {
	l := in.lock(p)
	in.yieldAt(fr)
	if l.writer != nil || len(l.readers) > 0 {
		return false
	}
	l.writer = in.curG
	in.curG.vc.join(l.vc)
	in.curG.vc.join(l.rvc)
	return true
}

func (in *Interp) mutexUnlock(p Ptr) {
	l := in.lock(p)
	if l.writer == nil {
		in.recordViolation("unlock", "fatal", "fatal error: sync: unlock of unlocked mutex", "")
		panic(pathEnd{"violation"})
	}
	l.writer = nil
	l.vc.join(in.curG.vc)
	in.curG.vc[in.curG.id]++
}

func (in *Interp) tryRLock(fr *frame, p Ptr) bool {
	l := in.lock(p)
	in.yieldAt(fr)
	if l.writer != nil {
		return false
	}
	l.readers[in.curG]++
	in.curG.vc.join(l.vc)
	return true
}

// condL calls a method of the lock of a sync.Cond.
func (in *Interp) condL(fr *frame, p Ptr, name string) {
	l := (*p).(*Agg).f[1].(Iface)
	if l.t == nil {
		in.throwNil()
	}
	in.callFn(fr, in.lookupMethodName(l.t, name), nil, []Value{l.v})
}

func (in *Interp) condWait(fr *frame, p Ptr) {
	woken := &condWaiter{}
	in.conds[p] = append(in.conds[p], woken)
	in.condL(fr, p, "Unlock")
	in.block(func() bool { return woken.set })
	in.curG.vc.join(woken.vc)
	in.condL(fr, p, "Lock")
}

type condWaiter struct {
	set bool
	vc  VC
}

func (in *Interp) condSignal(p Ptr, all bool) {
	for len(in.conds[p]) > 0 {
		w := in.conds[p][0]
		in.conds[p] = in.conds[p][1:]
		w.set = true
		w.vc = in.curG.vc.clone()
		in.curG.vc[in.curG.id]++
		if !all {
			return
		}
	}
}

func (in *Interp) rLock(fr *frame, p Ptr) {
	l := in.lock(p)
	in.yieldAt(fr)
	in.block(func() bool { return l.writer == nil })
	l.readers[in.curG]++
	in.curG.vc.join(l.vc)
}

func (in *Interp) rUnlock(p Ptr) {
	l := in.lock(p)
	if len(l.readers) == 0 {
		in.recordViolation("unlock", "fatal", "fatal error: sync: RUnlock of unlocked RWMutex", "")
		panic(pathEnd{"violation"})
	}
	g := in.curG
	if l.readers[g] == 0 {
		for r := range l.readers {
			g = r
			break
		}
	}
	l.readers[g]--
	if l.readers[g] == 0 {
		delete(l.readers, g)
	}
	l.rvc.join(in.curG.vc)
	in.curG.vc[in.curG.id]++
}

func (in *Interp) wg(p Ptr) *wgState {
	w := in.wgs[p]
	if w == nil {
		w = &wgState{vc: VC{}}
		in.wgs[p] = w
	}
	return w
}

func (in *Interp) wgAdd(p Ptr, d int) {
	w := in.wg(p)
	w.n += d
	if w.n < 0 {
		panic(&goPanic{v: Iface{t: in.canon(types.Typ[types.String]), v: "sync: negative WaitGroup counter"}})
	}
	w.vc.join(in.curG.vc)
	in.curG.vc[in.curG.id]++
}

func (in *Interp) wgWait(fr *frame, p Ptr) {
	w := in.wg(p)
	in.yieldAt(fr)
	in.block(func() bool { return w.n == 0 })
	in.curG.vc.join(w.vc)
}

// atomicSync makes an atomic access a synchronisation point.
func (in *Interp) atomicSync(fr *frame, p any) {
	if len(in.gs) < 2 {
		return
	}
	in.yieldAt(fr)
	v := in.syncVC[p]
	if v == nil {
		v = VC{}
		in.syncVC[p] = v
	}
	in.curG.vc.join(v)
	v.join(in.curG.vc)
	in.curG.vc[in.curG.id]++
}

// ---- channels (buffered and unbuffered; simple FIFO) ----

func (in *Interp) chanSync(c *ChanV) {
	if c.vc == nil {
		c.vc = VC{}
	}
	in.curG.vc.join(c.vc)
	c.vc.join(in.curG.vc)
	in.curG.vc[in.curG.id]++
}

func (in *Interp) chanSend(c *ChanV, v Value) {
	if c == nil {
		in.block(func() bool { return false })
	}
	in.yield()
	if c.closed {
		in.throwPlain("send on closed channel")
	}
	if c.cap == 0 {
		s := &chanSender{v: v}
		c.sendq = append(c.sendq, s)
		in.chanSync(c)
		in.block(func() bool { return s.done || c.closed })
		in.chanSync(c)
		return
	}
	in.block(func() bool { return len(c.buf) < c.cap || c.closed })
	if c.closed {
		in.throwPlain("send on closed channel")
	}
	c.buf = append(c.buf, v)
	in.chanSync(c)
}

func (in *Interp) chanReady(c *ChanV) bool {
	return c != nil && (len(c.buf) > 0 || len(c.sendq) > 0 || c.closed)
}

func (in *Interp) chanRecv(c *ChanV, et types.Type) (Value, Value) {
	if c == nil {
		in.block(func() bool { return false })
	}
	in.yield()
	c.recvWait++
	in.block(func() bool { return in.chanReady(c) })
	c.recvWait--
	in.chanSync(c)
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]Value(nil), c.buf[1:]...)
		return v, true
	}
	if len(c.sendq) > 0 {
		s := c.sendq[0]
		c.sendq = append([]*chanSender(nil), c.sendq[1:]...)
		s.done = true
		return s.v, true
	}
	return in.zero(et), false
}

func (in *Interp) chanClose(c *ChanV) {
	if c == nil {
		in.throwPlain("close of nil channel")
	}
	if c.closed {
		in.throwPlain("close of closed channel")
	}
	c.closed = true
	in.chanSync(c)
}

func (in *Interp) selectStmt(fr *frame, ic *insCode, x *ssa.Select) Value {
	ready := func() []int {
		var r []int
		for i, s := range x.States {
			c := fr.get(ic.args[2*i]).(*ChanV)
			if c == nil {
				continue
			}
			if s.Dir == types.RecvOnly {
				if in.chanReady(c) {
					r = append(r, i)
				}
			} else if c.closed || (c.cap > 0 && len(c.buf) < c.cap) || (c.cap == 0 && c.recvWait > len(c.sendq)) {
				r = append(r, i)
			}
		}
		return r
	}
	in.yield()
	rs := ready()
	res := Tuple{uint64(0), false}
	for _, s := range x.States {
		if s.Dir == types.RecvOnly {
			res = append(res, in.zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
		}
	}
	if len(rs) == 0 {
		if !x.Blocking {
			res[0] = ^uint64(0)
			return res
		}
		wait := func(d int) {
			for i, s := range x.States {
				if c := fr.get(ic.args[2*i]).(*ChanV); c != nil && s.Dir == types.RecvOnly {
					c.recvWait += d
				}
			}
		}
		wait(1)
		in.block(func() bool { return len(ready()) > 0 })
		wait(-1)
		rs = ready()
	}
	k := rs[in.choose("select", len(rs))]
	res[0] = uint64(k)
	s := x.States[k]
	c := fr.get(ic.args[2*k]).(*ChanV)
	if s.Dir == types.RecvOnly {
		v, ok := in.chanRecv(c, s.Chan.Type().Underlying().(*types.Chan).Elem())
		res[1] = ok
		ri := 2
		for i := 0; i < k; i++ {
			if x.States[i].Dir == types.RecvOnly {
				ri++
			}
		}
		res[ri] = v
	} else {
		in.chanSend(c, fr.get(ic.args[2*k+1]))
	}
	return res
}

var _ = fmt.Sprint
