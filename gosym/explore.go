package main

// Path exploration by deterministic re-execution with decision prefixes.

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Dec struct {
	v       uint64
	kind    uint8 // 'b' branch, 'i' implied branch, 'c' choice, 'k' concretise value
	implied bool
}

type item struct {
	prefix []Dec
	model  Model
}

type inputVar struct {
	Name string
	t    *Term
	w    uint8
}

type observation struct {
	label string
	vals  []Value
	str   bool
}

type pathState struct {
	prefix []Dec
	pos    int
	decs   []Dec
	pc     []*Term
	model  Model
	inputs []inputVar
	nameN  map[string]int
	obs    []observation
	cuts   map[string]bool

	// scheduler
	gs         []*G
	curG       *G
	raceOn     bool
	shadow     map[any]*shadowCell
	locks      map[Ptr]*lockState
	wgs        map[Ptr]*wgState
	preempt    int
	preemptMax int
	mapPerm    bool
	fatal      any
	killing    bool
	schedN     int
	syncVC     map[any]VC
	conds      map[Ptr][]*condWaiter
	noPanicMsg string
	nativeObj  map[any]any
}

type Violation struct {
	Label   string
	Msg     string
	Kind    string // assert, panic, deadlock, race
	Model   Model
	Inputs  []inputVar
	Known   string
	Harness string
	Decs    int
	Stack   string
}

type Explorer struct {
	P       *Program
	harness *ssa.Function
	hname   string
	params  map[string]int64
	nw      int
	solver  string
	smtTO   int

	mu       sync.Mutex
	cv       *sync.Cond
	workers  []*worker
	active   int
	stop     bool
	end      time.Time
	maxPaths int64

	paths, done, killedAssume int64
	forks                     int64
	asserts, assertTerms      int64
	cuts                      map[string]int64
	reach                     map[string]int64
	viol                      map[string]*Violation
	violOrder                 []string
	funcs                     map[string]bool
	errs                      map[string]int64
	unknownBr                 int64
	steps                     int64
	st                        SolverStats
	traces                    []*Trace
	maxTraces                 int
	timedOut                  bool
	pendingLeft               int
	cutExample                map[string]string
	t0                        time.Time
	wall                      time.Duration
	merges                    int64
	tableQ, cacheQ, certQ     int64
	certified                 sync.Map
	symInputs                 int
}

type Trace struct {
	Model  Model
	Inputs []inputVar
	Obs    []string
}

type worker struct {
	id    int
	ex    *Explorer
	in    *Interp
	queue []item
}

func newExplorer(P *Program, h *ssa.Function, hname string, params map[string]int64, nw int, solver string) *Explorer {
	ex := &Explorer{P: P, harness: h, hname: hname, params: params, nw: nw, solver: solver, smtTO: 30000,
		cuts: map[string]int64{}, reach: map[string]int64{}, viol: map[string]*Violation{}, funcs: map[string]bool{},
		errs: map[string]int64{}, cutExample: map[string]string{}, maxTraces: 24}
	ex.cv = sync.NewCond(&ex.mu)
	return ex
}

func (in *Interp) resetPath() {
	in.pathState = pathState{
		nameN: map[string]int{}, cuts: map[string]bool{},
		shadow: map[any]*shadowCell{}, locks: map[Ptr]*lockState{}, wgs: map[Ptr]*wgState{},
		preemptMax: 1000, syncVC: map[any]VC{}, conds: map[Ptr][]*condWaiter{}, nativeObj: map[any]any{},
	}
	g := &G{id: 0, vc: VC{0: 1}}
	in.gs = []*G{g}
	in.curG = g
	in.gobState.nodes = nil
	in.depth = 0
	in.spec = 0
}

// run explores until the frontier is empty or limits are hit.
func (ex *Explorer) run(pool []*Interp) {
	ex.t0 = time.Now()
	for i := 0; i < ex.nw; i++ {
		w := &worker{id: i, ex: ex, in: pool[i]}
		ex.workers = append(ex.workers, w)
	}
	ex.workers[0].queue = []item{{model: Model{}}}
	var wg sync.WaitGroup
	for _, w := range ex.workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w.loop()
		}()
	}
	wg.Wait()
	for _, w := range ex.workers {
		ex.pendingLeft += len(w.queue)
	}
	ex.wall = time.Since(ex.t0)
	sort.Strings(ex.violOrder)
}

func (w *worker) take() (item, bool) {
	ex := w.ex
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stop {
			return item{}, false
		}
		if memoryFull.Load() || !ex.end.IsZero() && time.Now().After(ex.end) {
			ex.stop = true
			ex.timedOut = true
			ex.cv.Broadcast()
			return item{}, false
		}
		if n := len(w.queue); n > 0 {
			it := w.queue[n-1]
			w.queue = w.queue[:n-1]
			ex.active++
			return it, true
		}
		// steal the oldest item of the richest worker
		var v *worker
		for _, o := range ex.workers {
			if len(o.queue) > 0 && (v == nil || len(o.queue) > len(v.queue)) {
				v = o
			}
		}
		if v != nil {
			it := v.queue[0]
			v.queue = v.queue[1:]
			ex.active++
			return it, true
		}
		if ex.active == 0 {
			ex.stop = true
			ex.cv.Broadcast()
			return item{}, false
		}
		ex.cv.Wait()
	}
}

func (w *worker) push(it item) {
	ex := w.ex
	ex.mu.Lock()
	w.queue = append(w.queue, it)
	ex.mu.Unlock()
	ex.cv.Signal()
}

func (w *worker) loop() {
	in := w.in
	ex := w.ex
	in.w = w
	in.ex = ex
	if in.sol == nil {
		in.sol = newSolver(ex.solver, ex.smtTO)
	}
	in.sol.timeout = ex.smtTO
	in.deadline = func() bool { return !ex.end.IsZero() && time.Now().After(ex.end) }
	for {
		it, ok := w.take()
		if !ok {
			break
		}
		in.runPath(it)
		ex.mu.Lock()
		ex.active--
		ex.paths++
		if ex.maxPaths > 0 && ex.paths >= ex.maxPaths {
			ex.stop = true
			ex.timedOut = true
		}
		ex.cv.Broadcast()
		ex.mu.Unlock()
		if in.sol.nterms > 400000 || len(in.tc.tab) > 3000000 {
			if len(in.tc.tab) > 3000000 {
				in.sol.reset()
				in.freshTerms()
			} else {
				in.sol.reset()
			}
		}
	}
	ex.mu.Lock()
	s := in.sol.st
	ex.st.Queries += s.Queries
	ex.st.Sat += s.Sat
	ex.st.Unsat += s.Unsat
	ex.st.Unknown += s.Unknown
	ex.st.Time += s.Time
	ex.st.MaxQuery = max(ex.st.MaxQuery, s.MaxQuery)
	in.sol.st = SolverStats{}
	ex.steps += in.steps
	ex.merges += in.mergeCount
	in.mergeCount = 0
	ex.tableQ += in.tableQ
	ex.cacheQ += in.cacheQ
	ex.certQ += in.certQ
	in.tableQ, in.cacheQ, in.certQ = 0, 0, 0
	for c := range in.fnSeen {
		ex.funcs[c.name] = true
	}
	ex.mu.Unlock()
}

// freshTerms drops the hash-consing table. Only legal between paths: the
// initialised globals hold concrete values.
func (in *Interp) freshTerms() {
	in.tc = newTermCtx()
	in.qcache = map[string]qres{}
}

func (in *Interp) undoJournal() {
	for i := len(in.journal) - 1; i >= 0; i-- {
		j := in.journal[i]
		if j.undo != nil {
			j.undo()
		} else {
			*j.p = j.old
		}
	}
	for i := range in.journal {
		in.journal[i] = jent{}
	}
	in.journal = in.journal[:0]
}

func (in *Interp) runPath(it item) {
	ex := in.ex
	in.resetPath()
	in.prefix = it.prefix
	in.model = it.model
	in.journalOn = true
	base := in.steps
	in.stepLimit = base + 30_000_000
	if v := ex.params["steplimit"]; v > 0 {
		in.stepLimit = base + v
	}
	end := in.runHarness()
	in.killOthers()
	in.undoJournal()
	in.journalOn = false
	ex.mu.Lock()
	defer ex.mu.Unlock()
	switch e := end.(type) {
	case nil:
		ex.done++
	case pathEnd:
		switch e.why {
		case "assume":
			ex.killedAssume++
		case "violation":
			ex.done++
		case "deadline":
			ex.cuts[e.why]++
		default:
			ex.cuts[e.why]++
		}
	case unsupported:
		ex.errs["unsupported: "+string(e)+" in "+in.where()]++
	default:
		ex.errs[fmt.Sprintf("internal: %v", e)]++
	}
	for c := range in.cuts {
		ex.cuts[c]++
	}
	if end == nil && len(ex.traces) < ex.maxTraces {
		// sample: take early ones and then sparsely
		if len(ex.traces) < 8 || ex.done%int64(1+ex.done/16) == 0 {
			ex.traces = append(ex.traces, in.mkTrace())
		}
	}
	if len(in.inputs) > ex.symInputs {
		ex.symInputs = len(in.inputs)
	}
}

func (in *Interp) mkTrace() *Trace {
	t := &Trace{Model: Model{}, Inputs: append([]inputVar(nil), in.inputs...)}
	for _, v := range in.inputs {
		t.Model[v.Name] = in.model[v.Name] & mask(v.w)
	}
	for _, o := range in.obs {
		t.Obs = append(t.Obs, o.label+"="+in.obsString(o))
	}
	return t
}

func (in *Interp) obsString(o observation) string {
	if o.str {
		var sb strings.Builder
		for _, v := range o.vals {
			sb.WriteByte(byte(in.tc.Eval(in.tm(v, 8), in.model)))
		}
		return fmt.Sprintf("%q", sb.String())
	}
	return fmt.Sprintf("%d", int64(in.tc.Eval(in.tm(o.vals[0], 64), in.model)))
}

func (in *Interp) runHarness() (end any) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case pathEnd:
				if e.why == "step limit" {
					in.recordViolation("terminates", "hang", "execution exceeds the step bound", "")
				}
				end = e
			case *goPanic:
				msg := in.panicString(e.v)
				if in.noPanicMsg != "" {
					msg = in.noPanicMsg + ": " + msg
				}
				in.recordViolation("panic", "panic", msg, "")
				end = pathEnd{"violation"}
			case unsupported:
				end = e
			default:
				if os.Getenv("GOSYM_DEBUG") != "" {
					debug.PrintStack()
				}
				end = fmt.Sprintf("%v at %s in %s", r, firstFrames(), in.where())
			}
		}
	}()
	args := []Value{}
	in.callFn(nil, in.ex.harness, nil, args)
	return nil
}

func firstFrames() string {
	s := strings.Split(string(debug.Stack()), "\n")
	var out []string
	seenPanic := false
	for _, l := range s {
		if strings.HasPrefix(l, "panic(") {
			seenPanic = true
			continue
		}
		if seenPanic && strings.HasPrefix(l, "main.") {
			out = append(out, strings.SplitN(l, "(0x", 2)[0])
			if len(out) == 4 {
				break
			}
		}
	}
	return strings.Join(out, " < ")
}

func (in *Interp) panicString(v Iface) string {
	if v.t == nil {
		return "nil"
	}
	defer func() {
		recover()
	}()
	if v.t == in.rtErrT {
		return "runtime error: " + in.describeStr(v.v)
	}
	if k := kindOf(v.t); k.str {
		return in.describeStr(v.v)
	}
	return v.t.String()
}

func (in *Interp) describeStr(v Value) string {
	switch s := v.(type) {
	case string:
		return s
	case *SymStr:
		var sb strings.Builder
		for _, b := range s.b {
			sb.WriteByte(byte(in.tc.Eval(in.tm(b, 8), in.model)))
		}
		return sb.String()
	}
	return "<formatted>"
}

// recordViolation stores a counterexample given the current model.
func (in *Interp) recordViolation(label, kind, msg, known string) {
	in.recordViolationModel(label, kind, msg, known, in.model)
}

func (in *Interp) recordViolationModel(label, kind, msg, known string, m Model) {
	ex := in.ex
	v := &Violation{Label: label, Msg: msg, Kind: kind, Model: Model{}, Inputs: append([]inputVar(nil), in.inputs...), Known: known, Harness: ex.hname, Decs: len(in.decs)}
	for _, i := range in.inputs {
		v.Model[i.Name] = m[i.Name] & mask(i.w)
	}
	key := label + "|" + kind + "|" + known
	if kind == "panic" {
		key += "|" + msg
	}
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for i := 0; i < 4; i++ {
		k := fmt.Sprintf("%s|%d", key, i)
		if ex.viol[k] == nil {
			ex.viol[k] = v
			ex.violOrder = append(ex.violOrder, k)
			return
		}
	}
}

// ---- decisions ----

func (in *Interp) nextDec() (Dec, bool) {
	if in.pos < len(in.prefix) {
		d := in.prefix[in.pos]
		in.pos++
		in.decs = append(in.decs, d)
		return d, true
	}
	return Dec{}, false
}

func (in *Interp) record(d Dec) {
	in.decs = append(in.decs, d)
	in.pos++
}

func (in *Interp) assumeTerm(t *Term) {
	if t.op == OAnd {
		in.assumeTerm(t.a)
		in.assumeTerm(t.b)
		return
	}
	in.pc = append(in.pc, t)
}

func (in *Interp) pushAlt(d Dec, m Model) {
	p := make([]Dec, len(in.decs)+1)
	copy(p, in.decs)
	p[len(in.decs)] = d
	in.w.push(item{prefix: p, model: m})
}

// branch decides a bool Value.
func (in *Interp) branch(v Value) bool {
	switch c := v.(type) {
	case bool:
		return c
	case *Term:
		return in.fork(c)
	}
	panic(fmt.Sprintf("branch on %T", v))
}

func (in *Interp) fork(c *Term) bool {
	if in.spec > 0 {
		panic(specAbort{})
	}
	if in.inInit {
		panic(unsupported("symbolic branch during initialisation"))
	}
	if d, ok := in.nextDec(); ok {
		if d.kind != 'b' {
			panic("decision mismatch: branch")
		}
		if !d.implied {
			if d.v != 0 {
				in.assumeTerm(c)
			} else {
				in.assumeTerm(in.tc.Not(c))
			}
		}
		return d.v != 0
	}
	side := in.tc.Eval(c, in.model) != 0
	here, other := c, in.tc.Not(c)
	if !side {
		here, other = other, here
	}
	// cheap syntactic check
	for _, p := range in.pc {
		if p == here {
			in.record(Dec{kind: 'b', v: b2u(side), implied: true})
			return side
		}
	}
	res, m := in.check(other, true, true)
	switch res {
	case Unsat:
		in.record(Dec{kind: 'b', v: b2u(side), implied: true})
		return side
	case Sat:
		in.mergeModel(m)
		in.pushAlt(Dec{kind: 'b', v: b2u(!side)}, m)
	case Unknown:
		in.ex.mu.Lock()
		in.ex.unknownBr++
		in.ex.mu.Unlock()
		in.cuts["solver unknown on a branch"] = true
	}
	in.ex.mu.Lock()
	in.ex.forks++
	in.ex.mu.Unlock()
	in.record(Dec{kind: 'b', v: b2u(side)})
	in.assumeTerm(here)
	return side
}

// mergeModel completes m with the current model for unconstrained inputs.
func (in *Interp) mergeModel(m Model) {
	for k, v := range in.model {
		if _, ok := m[k]; !ok {
			m[k] = v
		}
	}
}

// choose makes an n-way nondeterministic choice, represented by a fresh
// symbolic variable constrained to [0,n).
func (in *Interp) choose(label string, n int) int {
	if n <= 1 {
		return 0
	}
	if in.spec > 0 {
		panic(specAbort{})
	}
	t := in.newInput(label, 8)
	if d, ok := in.nextDec(); ok {
		if d.kind != 'c' {
			panic("decision mismatch: choice")
		}
		in.assumeTerm(in.tc.Eq(t, in.tc.Const(8, d.v)))
		return int(d.v)
	}
	for i := n - 1; i >= 1; i-- {
		m := Model{}
		in.mergeModel(m)
		m[t.name] = uint64(i)
		in.pushAlt(Dec{kind: 'c', v: uint64(i)}, m)
	}
	in.record(Dec{kind: 'c', v: 0})
	m := Model{}
	in.mergeModel(m)
	m[t.name] = 0
	in.model = m
	in.assumeTerm(in.tc.Eq(t, in.tc.Const(8, 0)))
	return 0
}

// newInput creates the k-th symbolic input called name.
func (in *Interp) newInput(name string, w uint8) *Term {
	k := in.nameN[name]
	in.nameN[name] = k + 1
	full := name
	if k > 0 {
		full = fmt.Sprintf("%s#%d", name, k)
	}
	t := in.tc.Var(w, fmt.Sprintf("%s:%d", full, w))
	in.inputs = append(in.inputs, inputVar{Name: t.name, t: t, w: w})
	return t
}

// concretizeFork enumerates the feasible values of t, one path each.
func (in *Interp) concretizeFork(t *Term) uint64 {
	if t.isConst() {
		return t.k
	}
	if in.spec > 0 {
		panic(specAbort{})
	}
	for {
		if d, ok := in.nextDec(); ok {
			if d.kind != 'k' && d.kind != 'n' {
				panic("decision mismatch: value")
			}
			c := in.tc.Eq(t, in.tc.Const(t.w, d.v))
			if d.kind == 'k' {
				if !d.implied {
					in.assumeTerm(c)
				}
				return d.v
			}
			in.assumeTerm(in.tc.Not(c))
			continue
		}
		v := in.tc.Eval(t, in.model)
		c := in.tc.Eq(t, in.tc.Const(t.w, v))
		nc := in.tc.Not(c)
		res, m := in.check(nc, true, true)
		switch res {
		case Sat:
			in.mergeModel(m)
			in.pushAlt(Dec{kind: 'n', v: v}, m)
			in.record(Dec{kind: 'k', v: v})
			in.assumeTerm(c)
		case Unknown:
			in.cuts["solver unknown on a value"] = true
			in.record(Dec{kind: 'k', v: v})
			in.assumeTerm(c)
		default:
			in.record(Dec{kind: 'k', v: v, implied: true})
		}
		return v
	}
}

// enumerate makes t concrete by exploring every value of the inputs it depends
// on when these are at most two bytes; otherwise it is a stated cut.
func (in *Interp) enumerate(v Value) uint64 {
	t, ok := v.(*Term)
	if !ok {
		return in.concretize(v)
	}
	var vars []*Term
	for i, x := range in.tc.varsOf(t) {
		for b := 0; b < 64; b++ {
			if x&(1<<b) != 0 {
				vars = append(vars, in.tc.varByIdx[i*64+b])
			}
		}
	}
	if len(vars) > 2 {
		return in.concretize(v)
	}
	for _, x := range vars {
		if x.w != 8 {
			return in.concretize(v)
		}
	}
	for _, x := range vars {
		in.concretizeFork(x)
	}
	return in.tc.Eval(t, in.model)
}

// concretize pins v to one value; the values left out are a stated cut.
func (in *Interp) concretize(v Value) uint64 {
	switch x := v.(type) {
	case uint64:
		return x
	case bool:
		return b2u(x)
	case *Term:
		if in.spec > 0 {
			panic(specAbort{})
		}
		if d, ok := in.nextDec(); ok {
			in.assumeTerm(in.tc.Eq(x, in.tc.Const(x.w, d.v)))
			if !d.implied {
				in.cuts["value concretised in "+in.where()] = true
			}
			return d.v
		}
		u := in.tc.Eval(x, in.model)
		c := in.tc.Eq(x, in.tc.Const(x.w, u))
		res, _ := in.check(in.tc.Not(c), false, true)
		implied := res == Unsat
		if !implied {
			in.cuts["value concretised in "+in.where()] = true
		}
		in.record(Dec{kind: 'k', v: u, implied: implied})
		in.assumeTerm(c)
		return u
	}
	panic(fmt.Sprintf("concretize %T", v))
}

// assume restricts the path; ends it when infeasible.
func (in *Interp) assume(v Value) {
	switch c := v.(type) {
	case bool:
		if !c {
			panic(pathEnd{"assume"})
		}
	case *Term:
		if d, ok := in.nextDec(); ok {
			_ = d
			in.assumeTerm(c)
			return
		}
		if in.tc.Eval(c, in.model) == 0 {
			res, m := in.check(c, true, false)
			switch res {
			case Unsat:
				panic(pathEnd{"assume"})
			case Unknown:
				panic(pathEnd{"solver unknown on an assumption"})
			}
			in.mergeModel(m)
			in.model = m
		}
		in.record(Dec{kind: 'a', v: 1})
		in.assumeTerm(c)
	}
}

// assert decides the assertion for every value on this path.
func (in *Interp) assert(v Value, label, msg, known string) {
	ex := in.ex
	replaying := in.pos < len(in.prefix)
	if !replaying {
		ex.mu.Lock()
		ex.asserts++
		ex.mu.Unlock()
	}
	switch c := v.(type) {
	case bool:
		if !c {
			if replaying {
				panic(pathEnd{"violation"})
			}
			in.recordViolation(label, "assert", msg, known)
			panic(pathEnd{"violation"})
		}
	case *Term:
		if d, ok := in.nextDec(); ok {
			if !d.implied {
				in.assumeTerm(c)
			}
			return
		}
		ex.mu.Lock()
		ex.assertTerms++
		ex.mu.Unlock()
		nc := in.tc.Not(c)
		if in.tc.Eval(c, in.model) == 0 {
			in.recordViolation(label, "assert", msg, known)
		} else {
			res, m := in.check(nc, true, false)
			switch res {
			case Unsat:
				in.record(Dec{kind: 'a', v: 1, implied: true})
				return
			case Unknown:
				in.cuts["solver unknown on assertion "+label] = true
				in.record(Dec{kind: 'a', v: 1})
				in.assumeTerm(c)
				return
			}
			in.mergeModel(m)
			in.recordViolationModel(label, "assert", msg, known, m)
		}
		// continue under the assertion if possible
		res, m := in.check(c, true, false)
		if res != Sat {
			panic(pathEnd{"violation"})
		}
		in.mergeModel(m)
		in.model = m
		in.record(Dec{kind: 'a', v: 1})
		in.assumeTerm(c)
	}
}
