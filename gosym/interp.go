package main

// The symbolic interpreter proper: executes go/ssa instructions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type unsupported string

type specAbort struct{}

type pathEnd struct{ why string }

type goPanic struct{ v Iface }

type jent struct {
	p    Ptr
	old  Value
	undo func()
}

type opnd int32

const noOpnd opnd = math.MinInt32

type insCode struct {
	i    ssa.Instruction
	dst  int32
	x, y opnd
	z    opnd
	args []opnd
	k    kind // operand kind where relevant
	k2   kind
	typ  types.Type // canonical, where relevant
	aux  any
}

type blockCode struct {
	b      *ssa.BasicBlock
	phis   []*insCode
	body   []*insCode // non-phi instructions
	region *region    // if-conversion, computed lazily
	regOK  int8       // 0 unknown, 1 ok, -1 no
}

type fnCode struct {
	fn       *ssa.Function
	name     string
	nregs    int
	consts   []Value
	blocks   []*blockCode
	params   []int32
	free     []int32
	hasDefer bool
	intr     *intrinsic
	pure     int8
	calls    int64
	inRepo   bool
}

type deferred struct {
	fn   Value
	args []Value
	bi   *ssa.Builtin
	call *ssa.CallCommon
	tail *deferred
}

type frame struct {
	in        *Interp
	code      *fnCode
	caller    *frame
	regs      []Value
	block     int
	prev      int
	done      bool
	defers    *deferred
	panicking bool
	pval      any
	result    Value
	g         *G
}

type Interp struct {
	P       *Program
	tc      *TermCtx
	sol     *Solver
	globals map[*ssa.Global]Ptr
	codes   map[*ssa.Function]*fnCode

	canonMap typeutil.Map
	canonPtr map[types.Type]types.Type
	implC    map[[2]types.Type]bool
	ptrC     map[types.Type]types.Type
	methC    map[methKey]*ssa.Function
	rtypes   map[types.Type]*RType

	journalOn bool
	journal   []jent

	// path state
	pathState

	spec       int
	steps      int64
	stepLimit  int64
	deadline   func() bool
	depth      int
	ex         *Explorer
	w          *worker
	inInit     bool
	fnSeen     map[*fnCode]bool
	rvT        types.Type
	rtypePtrT  types.Type
	rtErrT     types.Type
	noMerge    bool
	gobState   gobState
	initDone   map[*ssa.Package]bool
	trace      bool
	mergeCount int64
	tableQ     int64
	cacheQ     int64
	certQ      int64
	qcache     map[string]qres
	sliceUse   []bool
	cur        *frame // innermost frame, for diagnostics
}

// where lists the interpreted call chain, for diagnostics.
func (in *Interp) where() string {
	var out []string
	for f := in.cur; f != nil && len(out) < 8; f = f.caller {
		out = append(out, f.code.name)
	}
	return strings.Join(out, " < ")
}

type methKey struct {
	t types.Type
	m *types.Func
}

func newInterp(P *Program) *Interp {
	in := &Interp{
		P: P, tc: newTermCtx(),
		globals:   map[*ssa.Global]Ptr{},
		codes:     map[*ssa.Function]*fnCode{},
		canonPtr:  map[types.Type]types.Type{},
		implC:     map[[2]types.Type]bool{},
		ptrC:      map[types.Type]types.Type{},
		methC:     map[methKey]*ssa.Function{},
		rtypes:    map[types.Type]*RType{},
		fnSeen:    map[*fnCode]bool{},
		stepLimit: 50_000_000,
		initDone:  map[*ssa.Package]bool{},
		qcache:    map[string]qres{},
	}
	in.canonMap.SetHasher(typeutil.MakeHasher())
	if p := P.pkgs["reflect"]; p != nil {
		in.rvT = p.Type("Value").Type()
		in.rtypePtrT = in.ptrTo(p.Type("rtype").Type())
	}
	in.rtErrT = in.canon(P.pkgs["runtime"].Type("errorString").Type())
	in.resetPath()
	return in
}

func (in *Interp) isReflectValue(t types.Type) bool {
	if in.rvT == nil {
		return false
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj() == in.rvT.(*types.Named).Obj()
}

// ptrTo returns the canonical pointer type to t.
func (in *Interp) ptrTo(t types.Type) types.Type {
	t = in.canon(t)
	p, ok := in.ptrC[t]
	if !ok {
		p = in.canon(types.NewPointer(t))
		in.ptrC[t] = p
	}
	return p
}

func (in *Interp) canon(t types.Type) types.Type {
	if c, ok := in.canonPtr[t]; ok {
		return c
	}
	var c types.Type
	u := types.Unalias(t)
	if x := in.canonMap.At(u); x != nil {
		c = x.(types.Type)
	} else {
		in.canonMap.Set(u, u)
		c = u
	}
	in.canonPtr[t] = c
	return c
}

func (in *Interp) implements(t types.Type, it *types.Interface, key types.Type) bool {
	k := [2]types.Type{t, key}
	if r, ok := in.implC[k]; ok {
		return r
	}
	r := types.Implements(t, it)
	in.implC[k] = r
	return r
}

// ---- throwing interpreted panics ----

func (in *Interp) throwRuntime(msg string) {
	if in.spec > 0 {
		panic(specAbort{})
	}
	panic(&goPanic{v: Iface{t: in.rtErrT, v: msg}})
}

func (in *Interp) throwPlain(msg string) { in.throwRuntime(msg) }

func (in *Interp) throwNil() {
	in.throwRuntime("invalid memory address or nil pointer dereference")
}

// ---- compilation ----

func (in *Interp) codeOf(fn *ssa.Function) *fnCode {
	if c, ok := in.codes[fn]; ok {
		return c
	}
	c := &fnCode{fn: fn, name: fn.String()}
	in.codes[fn] = c
	name := c.name
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	c.intr = intrinsics[name]
	if pk := fn.Pkg; pk != nil {
		c.inRepo = strings.HasPrefix(pk.Pkg.Path(), modPath) && !strings.Contains(pk.Pkg.Path(), "/zzverif")
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		c.inRepo = strings.HasPrefix(o.Pkg.Pkg.Path(), modPath)
	}
	if isPkgInit(fn) && skipInit(fn.Pkg.Pkg.Path()) {
		c.intr = &intrinsic{f: func(in *Interp, fr *frame, a []Value) Value { return nil }}
	}
	if c.intr != nil || fn.Blocks == nil {
		return c
	}
	regs := map[ssa.Value]int32{}
	nr := int32(0)
	for _, p := range fn.Params {
		regs[p] = nr
		c.params = append(c.params, nr)
		nr++
	}
	for _, p := range fn.FreeVars {
		regs[p] = nr
		c.free = append(c.free, nr)
		nr++
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				regs[v] = nr
				nr++
			}
		}
	}
	c.nregs = int(nr)
	cidx := map[ssa.Value]opnd{}
	get := func(v ssa.Value) opnd {
		if v == nil {
			return noOpnd
		}
		if r, ok := regs[v]; ok {
			return opnd(r)
		}
		if o, ok := cidx[v]; ok {
			return o
		}
		var val Value
		switch x := v.(type) {
		case *ssa.Const:
			val = in.constVal(x)
		case *ssa.Global:
			val = in.globalPtr(x)
		case *ssa.Function:
			val = &Closure{fn: x}
		case *ssa.Builtin:
			val = &Closure{bi: x}
		default:
			panic(unsupported(fmt.Sprintf("operand %T", v)))
		}
		c.consts = append(c.consts, val)
		o := ^opnd(len(c.consts) - 1)
		cidx[v] = o
		return o
	}
	for _, b := range fn.Blocks {
		bc := &blockCode{b: b}
		for _, i := range b.Instrs {
			ic := &insCode{i: i, dst: -1, x: noOpnd, y: noOpnd, z: noOpnd}
			if v, ok := i.(ssa.Value); ok {
				ic.dst = regs[v]
			}
			switch x := i.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Phi:
				for _, e := range x.Edges {
					ic.args = append(ic.args, get(e))
				}
				ic.typ = x.Type()
				bc.phis = append(bc.phis, ic)
				continue
			case *ssa.BinOp:
				ic.x, ic.y = get(x.X), get(x.Y)
				ic.k = kindOf(x.X.Type())
				ic.k2 = kindOf(x.Y.Type())
				ic.typ = x.X.Type()
			case *ssa.UnOp:
				ic.x = get(x.X)
				ic.k = kindOf(x.X.Type())
				ic.typ = x.X.Type()
			case *ssa.Convert:
				ic.x = get(x.X)
				ic.k = kindOf(x.X.Type())
				ic.k2 = kindOf(x.Type())
			case *ssa.MultiConvert:
				ic.x = get(x.X)
				ic.k = kindOf(x.X.Type())
				ic.k2 = kindOf(x.Type())
			case *ssa.ChangeType:
				ic.x = get(x.X)
			case *ssa.ChangeInterface:
				ic.x = get(x.X)
			case *ssa.MakeInterface:
				ic.x = get(x.X)
				ic.typ = in.canon(x.X.Type())
			case *ssa.TypeAssert:
				ic.x = get(x.X)
				ic.typ = in.canon(x.AssertedType)
			case *ssa.Extract:
				ic.x = get(x.Tuple)
			case *ssa.Field:
				ic.x = get(x.X)
			case *ssa.FieldAddr:
				ic.x = get(x.X)
			case *ssa.Index:
				ic.x, ic.y = get(x.X), get(x.Index)
				ic.k = kindOf(x.Index.Type())
			case *ssa.IndexAddr:
				ic.x, ic.y = get(x.X), get(x.Index)
				ic.k = kindOf(x.Index.Type())
			case *ssa.Lookup:
				ic.x, ic.y = get(x.X), get(x.Index)
				ic.k = kindOf(x.Index.Type())
			case *ssa.Slice:
				ic.x = get(x.X)
				ic.args = []opnd{get(x.Low), get(x.High), get(x.Max)}
			case *ssa.Store:
				ic.x, ic.y = get(x.Addr), get(x.Val)
			case *ssa.MapUpdate:
				ic.x, ic.y, ic.z = get(x.Map), get(x.Key), get(x.Value)
			case *ssa.MakeSlice:
				ic.x, ic.y = get(x.Len), get(x.Cap)
			case *ssa.MakeMap, *ssa.RunDefers, *ssa.Jump:
			case *ssa.Alloc:
				ic.typ = x.Type().Underlying().(*types.Pointer).Elem()
			case *ssa.MakeChan:
				ic.x = get(x.Size)
			case *ssa.MakeClosure:
				ic.x = get(x.Fn)
				for _, e := range x.Bindings {
					ic.args = append(ic.args, get(e))
				}
			case *ssa.Range:
				ic.x = get(x.X)
			case *ssa.Next:
				ic.x = get(x.Iter)
			case *ssa.If:
				ic.x = get(x.Cond)
			case *ssa.Return:
				for _, e := range x.Results {
					ic.args = append(ic.args, get(e))
				}
			case *ssa.Panic:
				ic.x = get(x.X)
			case *ssa.Send:
				ic.x, ic.y = get(x.Chan), get(x.X)
			case *ssa.SliceToArrayPointer:
				ic.x = get(x.X)
			case *ssa.Call:
				in.compCall(ic, &x.Call, get)
			case *ssa.Go:
				in.compCall(ic, &x.Call, get)
			case *ssa.Defer:
				in.compCall(ic, &x.Call, get)
				c.hasDefer = true
			case *ssa.Select:
				for _, s := range x.States {
					ic.args = append(ic.args, get(s.Chan), get(s.Send))
				}
			default:
				panic(unsupported(fmt.Sprintf("instruction %T", i)))
			}
			bc.body = append(bc.body, ic)
		}
		c.blocks = append(c.blocks, bc)
	}
	return c
}

func (in *Interp) compCall(ic *insCode, cc *ssa.CallCommon, get func(ssa.Value) opnd) {
	ic.aux = cc
	ic.x = get(cc.Value)
	for _, a := range cc.Args {
		ic.args = append(ic.args, get(a))
	}
}

func (in *Interp) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return in.zero(c.Type())
	}
	t := c.Type().Underlying()
	if tp, ok := c.Type().(*types.TypeParam); ok {
		t = tp.Underlying()
	}
	k := kindOf(t)
	switch {
	case k.boolk:
		return constant.BoolVal(c.Value)
	case k.str:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		n, _ := constant.Int64Val(c.Value)
		return string(rune(n))
	case k.float:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if k.w == 32 {
			f32, _ := constant.Float32Val(constant.ToFloat(c.Value))
			return uint64(math.Float32bits(f32))
		}
		return math.Float64bits(f)
	case k.ok:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return uint64(i) & mask(k.w)
		}
		u, _ := constant.Uint64Val(v)
		return u & mask(k.w)
	}
	if k.cplx {
		return complex(0, 0)
	}
	panic(unsupported("constant of type " + c.Type().String()))
}

func (in *Interp) globalPtr(g *ssa.Global) Ptr {
	if p, ok := in.globals[g]; ok {
		return p
	}
	p := new(Value)
	*p = in.zero(g.Type().Underlying().(*types.Pointer).Elem())
	in.globals[g] = p
	return p
}

// ---- frames and calls ----

func (fr *frame) get(o opnd) Value {
	if o >= 0 {
		return fr.regs[o]
	}
	return fr.code.consts[^o]
}

func (in *Interp) callFn(caller *frame, fn *ssa.Function, env, args []Value) Value {
	return in.callCode(caller, in.codeOf(fn), env, args)
}

func (in *Interp) callCode(caller *frame, c *fnCode, env, args []Value) Value {
	if c.intr != nil {
		return c.intr.f(in, caller, args)
	}
	if c.blocks == nil {
		panic(unsupported("function without body: " + c.name))
	}
	if in.depth > 5000 {
		panic(pathEnd{"stack depth"})
	}
	if c.calls == 0 && c.inRepo {
		in.fnSeen[c] = true
	}
	c.calls++
	if !in.noMerge && in.isPure(c) && anySymbolic(args) {
		if v, ok := in.mergeCall(caller, c, env, args); ok {
			return v
		}
		if in.spec > 0 {
			panic(specAbort{})
		}
	}
	fr := &frame{in: in, code: c, caller: caller, regs: make([]Value, c.nregs), prev: -1, g: in.curG}
	for i, p := range c.params {
		fr.regs[p] = args[i]
	}
	for i, p := range c.free {
		fr.regs[p] = env[i]
	}
	in.depth++
	in.cur = fr
	if !c.hasDefer {
		in.run(fr)
	} else {
		for !fr.done {
			in.runDeferFrame(fr)
		}
	}
	in.depth--
	in.cur = caller
	return fr.result
}

func anySymbolic(args []Value) bool {
	for _, a := range args {
		switch x := a.(type) {
		case *Term, *SymStr, *LazyStr:
			return true
		case []Value:
			for _, e := range x {
				if _, ok := e.(*Term); ok {
					return true
				}
			}
		}
	}
	return false
}

func (in *Interp) runDeferFrame(fr *frame) {
	depth := in.depth
	defer func() {
		if fr.done {
			return
		}
		r := recover()
		gp, ok := r.(*goPanic)
		if !ok {
			panic(r)
		}
		in.depth = depth
		fr.panicking = true
		fr.pval = gp
		in.runDefers(fr)
		// recovered
		if rb := fr.code.fn.Recover; rb != nil {
			fr.block = rb.Index
			fr.prev = -1
		} else {
			fr.done = true
			fr.result = in.zeroResult(fr.code.fn.Signature)
		}
	}()
	in.run(fr)
}

func (in *Interp) zeroResult(s *types.Signature) Value {
	switch s.Results().Len() {
	case 0:
		return nil
	case 1:
		return in.zero(s.Results().At(0).Type())
	}
	return in.zero(s.Results())
}

func (in *Interp) runDefers(fr *frame) {
	for d := fr.defers; d != nil; d = fr.defers {
		fr.defers = d.tail
		in.runDefer(fr, d)
	}
	fr.defers = nil
	if fr.panicking {
		panic(fr.pval)
	}
}

func (in *Interp) runDefer(fr *frame, d *deferred) {
	ok := false
	depth := in.depth
	defer func() {
		if !ok {
			r := recover()
			if gp, isGo := r.(*goPanic); isGo {
				in.depth = depth
				fr.panicking = true
				fr.pval = gp
				return
			}
			panic(r)
		}
	}()
	if d.bi != nil {
		in.builtin(fr, d.bi, d.call, d.args)
	} else {
		in.callValue(fr, d.fn, d.args)
	}
	ok = true
}

func (in *Interp) callValue(fr *frame, f Value, args []Value) Value {
	c, _ := f.(*Closure)
	if c == nil {
		in.throwNil()
	}
	if c.native != nil {
		return c.native(in, fr, args)
	}
	return in.callFn(fr, c.fn, c.env, args)
}

func (in *Interp) findMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if f, ok := in.methC[k]; ok {
		return f
	}
	f := in.P.prog.LookupMethod(t, m.Pkg(), m.Name())
	in.methC[k] = f
	return f
}

// methodByName calls a niladic method by name if dynamic type has it.
func (in *Interp) lookupMethodName(t types.Type, name string) *ssa.Function {
	ms := in.P.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(nil, name)
	if sel == nil {
		return nil
	}
	return in.P.prog.MethodValue(sel)
}

func (in *Interp) prepCall(fr *frame, ic *insCode) (Value, []Value) {
	cc := ic.aux.(*ssa.CallCommon)
	if cc.IsInvoke() {
		recv := fr.get(ic.x).(Iface)
		if recv.t == nil {
			in.throwNil()
		}
		f := in.findMethod(recv.t, cc.Method)
		if f == nil {
			panic(unsupported("method " + cc.Method.Name() + " of " + recv.t.String()))
		}
		args := make([]Value, 0, len(ic.args)+1)
		args = append(args, recv.v)
		for _, a := range ic.args {
			args = append(args, fr.get(a))
		}
		return &Closure{fn: f}, args
	}
	args := make([]Value, len(ic.args))
	for i, a := range ic.args {
		args[i] = fr.get(a)
	}
	return fr.get(ic.x), args
}

// ---- main loop ----

func (in *Interp) run(fr *frame) {
	for {
		bc := fr.code.blocks[fr.block]
		if len(bc.phis) > 0 && fr.prev >= 0 {
			in.doPhis(fr, bc)
		}
		next := -1
		for _, ic := range bc.body {
			in.steps++
			if in.steps >= in.stepLimit {
				panic(pathEnd{"step limit"})
			}
			if in.steps&0x3fff == 0 && in.deadline != nil && in.deadline() {
				panic(pathEnd{"deadline"})
			}
			switch x := ic.i.(type) {
			case *ssa.If:
				c := fr.get(ic.x)
				b, ok := c.(bool)
				if !ok {
					if !in.noMerge && in.tryRegion(fr, bc, c.(*Term)) {
						// state moved to the join block with phis done
						next = -2
						break
					}
					b = in.fork(c.(*Term))
				}
				if b {
					next = bc.b.Succs[0].Index
				} else {
					next = bc.b.Succs[1].Index
				}
			case *ssa.Jump:
				next = bc.b.Succs[0].Index
			case *ssa.Return:
				switch len(ic.args) {
				case 0:
					fr.result = nil
				case 1:
					fr.result = fr.get(ic.args[0])
				default:
					r := make(Tuple, len(ic.args))
					for i, a := range ic.args {
						r[i] = fr.get(a)
					}
					fr.result = r
				}
				fr.done = true
				return
			case *ssa.RunDefers:
				in.runDefers(fr)
			case *ssa.Panic:
				panic(&goPanic{v: in.panicVal(fr.get(ic.x))})
			default:
				in.exec(fr, ic, x)
			}
		}
		if next == -2 {
			continue
		}
		fr.prev = fr.block
		fr.block = next
	}
}

func (in *Interp) panicVal(v Value) Iface {
	i := v.(Iface)
	return i
}

func (in *Interp) doPhis(fr *frame, bc *blockCode) {
	pi := -1
	for i, p := range bc.b.Preds {
		if p.Index == fr.prev {
			pi = i
			break
		}
	}
	if len(bc.phis) == 1 {
		fr.regs[bc.phis[0].dst] = fr.get(bc.phis[0].args[pi])
		return
	}
	tmp := make([]Value, len(bc.phis))
	for i, p := range bc.phis {
		tmp[i] = fr.get(p.args[pi])
	}
	for i, p := range bc.phis {
		fr.regs[p.dst] = tmp[i]
	}
}

func (in *Interp) intOf(v Value, k kind) int {
	switch x := v.(type) {
	case uint64:
		return int(sextK(x, k))
	case *Term:
		return int(sextK(in.concretizeFork(x), k))
	}
	panic(fmt.Sprintf("intOf %T", v))
}

func sextK(v uint64, k kind) int64 {
	if k.signed {
		return sext(v, k.w)
	}
	return int64(v)
}

var intKind = kind{w: 64, signed: true, ok: true}

// index resolves an index operand against length n with bounds check.
func (in *Interp) index(v Value, k kind, n int) int {
	switch x := v.(type) {
	case uint64:
		i := sextK(x, k)
		if i < 0 || i >= int64(n) {
			in.throwRuntime(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i)
	case *Term:
		in.boundsCheck(x, k, n)
		return int(sextK(in.concretizeFork(x), k))
	}
	panic(fmt.Sprintf("index %T", v))
}

func (in *Interp) boundsCheck(x *Term, k kind, n int) {
	t := in.tc.Resize(x, 64, k.signed)
	okc := in.tc.Cmp(OUlt, t, in.tc.Const(64, uint64(n)))
	if !in.branch(fromTerm(okc)) {
		in.throwRuntime(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
}

// iteSelect builds an ITE over scalar elements for a symbolic index.
func (in *Interp) iteSelect(x *Term, k kind, elems []Value) (Value, bool) {
	if len(elems) == 0 || len(elems) > 512 {
		return nil, false
	}
	w := uint8(255)
	for _, e := range elems {
		switch s := e.(type) {
		case uint64:
		case bool:
			w = 0
		case *Term:
			w = s.w
		default:
			return nil, false
		}
	}
	t := in.tc.Resize(x, 64, k.signed)
	if w == 255 {
		w = 64
	}
	r := in.tm(elems[len(elems)-1], w)
	for i := len(elems) - 2; i >= 0; i-- {
		e := in.tm(elems[i], w)
		r = in.tc.Ite(in.tc.Eq(t, in.tc.Const(64, uint64(i))), e, r)
	}
	return fromTerm(r), true
}

type elemRef struct { // symbolic element address within scalar slice (load only)
	elems []Value
	idx   *Term
	k     kind
}

func (in *Interp) exec(fr *frame, ic *insCode, i ssa.Instruction) {
	switch x := i.(type) {
	case *ssa.BinOp:
		fr.regs[ic.dst] = in.binop(ic, x.Op, fr.get(ic.x), fr.get(ic.y))
	case *ssa.UnOp:
		fr.regs[ic.dst] = in.unop(fr, ic, x)
	case *ssa.Call:
		cc := ic.aux.(*ssa.CallCommon)
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			args := make([]Value, len(ic.args))
			for i, a := range ic.args {
				args[i] = fr.get(a)
			}
			fr.regs[ic.dst] = in.builtin(fr, b, cc, args)
			return
		}
		if !cc.IsInvoke() {
			if f, ok := cc.Value.(*ssa.Function); ok {
				args := make([]Value, len(ic.args))
				for i, a := range ic.args {
					args[i] = fr.get(a)
				}
				fr.regs[ic.dst] = in.callFn(fr, f, nil, args)
				return
			}
		}
		f, args := in.prepCall(fr, ic)
		fr.regs[ic.dst] = in.callValue(fr, f, args)
	case *ssa.Store:
		p, ok := fr.get(ic.x).(Ptr)
		if !ok {
			panic(unsupported(fmt.Sprintf("store through %T in %s", fr.get(ic.x), fr.code.name)))
		}
		if p == nil {
			in.throwNil()
		}
		in.store(p, fr.get(ic.y))
	case *ssa.Alloc:
		p := new(Value)
		*p = in.zero(ic.typ)
		fr.regs[ic.dst] = p
	case *ssa.FieldAddr:
		p, ok := fr.get(ic.x).(Ptr)
		if !ok {
			panic(unsupported(fmt.Sprintf("field address of %T in %s", fr.get(ic.x), fr.code.name)))
		}
		if p == nil {
			in.throwNil()
		}
		a, ok := (*p).(*Agg)
		if !ok {
			panic(unsupported(fmt.Sprintf("field address in %T in %s", *p, fr.code.name)))
		}
		fr.regs[ic.dst] = &a.f[x.Field]
	case *ssa.Field:
		a, ok := fr.get(ic.x).(*Agg)
		if !ok {
			panic(unsupported(fmt.Sprintf("field of %T in %s", fr.get(ic.x), fr.code.name)))
		}
		fr.regs[ic.dst] = a.f[x.Field]
	case *ssa.IndexAddr:
		var s []Value
		switch b := fr.get(ic.x).(type) {
		case []Value:
			s = b
		case Ptr:
			if b == nil {
				in.throwNil()
			}
			s = (*b).(*Agg).f
		default:
			panic(unsupported(fmt.Sprintf("IndexAddr %T in %s", b, fr.code.name)))
		}
		idx := fr.get(ic.y)
		if t, ok := idx.(*Term); ok && onlyLoaded(x) {
			if len(s) > 0 && isScalar(s[0]) && len(s) <= 512 {
				in.boundsCheck(t, ic.k, len(s))
				fr.regs[ic.dst] = &elemRef{elems: s, idx: t, k: ic.k}
				return
			}
			if i, ok := in.indexClass(s, t, ic.k); ok {
				fr.regs[ic.dst] = &s[i]
				return
			}
		}
		fr.regs[ic.dst] = &s[in.index(idx, ic.k, len(s))]
	case *ssa.Index:
		switch b := fr.get(ic.x).(type) {
		case *Agg:
			fr.regs[ic.dst] = in.indexElems(b.f, fr.get(ic.y), ic.k)
		case []Value:
			fr.regs[ic.dst] = in.indexElems(b, fr.get(ic.y), ic.k)
		default:
			fr.regs[ic.dst] = in.indexStr(b, fr.get(ic.y), ic.k)
		}
	case *ssa.Lookup:
		m, ok := fr.get(ic.x).(*MapV)
		if !ok {
			fr.regs[ic.dst] = in.indexStr(fr.get(ic.x), fr.get(ic.y), ic.k)
			return
		}
		v, found := in.mapLookup(m, x.X.Type().Underlying().(*types.Map), fr.get(ic.y))
		if x.CommaOk {
			fr.regs[ic.dst] = Tuple{v, found}
		} else {
			fr.regs[ic.dst] = v
		}
	case *ssa.Extract:
		fr.regs[ic.dst] = fr.get(ic.x).(Tuple)[x.Index]
	case *ssa.Convert:
		fr.regs[ic.dst] = in.convert(fr, ic, x.X.Type(), x.Type(), fr.get(ic.x))
	case *ssa.MultiConvert:
		fr.regs[ic.dst] = in.convert(fr, ic, x.X.Type(), x.Type(), fr.get(ic.x))
	case *ssa.ChangeType, *ssa.ChangeInterface:
		fr.regs[ic.dst] = fr.get(ic.x)
	case *ssa.MakeInterface:
		fr.regs[ic.dst] = in.makeIface(ic.typ, fr.get(ic.x))
	case *ssa.TypeAssert:
		fr.regs[ic.dst] = in.typeAssert(ic, x, fr.get(ic.x).(Iface))
	case *ssa.Slice:
		fr.regs[ic.dst] = in.slice(fr, ic, x)
	case *ssa.MakeSlice:
		n, c := in.intOf(fr.get(ic.x), intKind), in.intOf(fr.get(ic.y), intKind)
		if n < 0 {
			in.throwRuntime("makeslice: len out of range")
		}
		if c < n {
			in.throwRuntime("makeslice: cap out of range")
		}
		if c > 1<<24 {
			panic(pathEnd{"makeslice too large"})
		}
		et := x.Type().Underlying().(*types.Slice).Elem()
		fr.regs[ic.dst] = in.makeSlice(et, n, c)
	case *ssa.MakeMap:
		fr.regs[ic.dst] = newMap()
	case *ssa.MapUpdate:
		in.mapUpdate(fr.get(ic.x).(*MapV), x.Map.Type().Underlying().(*types.Map), fr.get(ic.y), fr.get(ic.z))
	case *ssa.MakeClosure:
		f := fr.get(ic.x).(*Closure)
		env := make([]Value, len(ic.args))
		for i, a := range ic.args {
			env[i] = fr.get(a)
		}
		fr.regs[ic.dst] = &Closure{fn: f.fn, env: env}
	case *ssa.Range:
		v := fr.get(ic.x)
		if m, ok := v.(*MapV); ok {
			it := &mapIter{}
			if m != nil {
				if in.raceOn {
					in.raceAccess(ptrOf(m), false)
				}
				it.ents = in.mapOrder(m)
			}
			fr.regs[ic.dst] = it
		} else {
			fr.regs[ic.dst] = &strIter{s: in.force(v)}
		}
	case *ssa.Next:
		fr.regs[ic.dst] = in.next(fr, x, fr.get(ic.x))
	case *ssa.Defer:
		cc := ic.aux.(*ssa.CallCommon)
		d := &deferred{tail: fr.defers, call: cc}
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			d.bi = b
			for _, a := range ic.args {
				d.args = append(d.args, fr.get(a))
			}
		} else {
			d.fn, d.args = in.prepCall(fr, ic)
		}
		fr.defers = d
	case *ssa.Go:
		cc := ic.aux.(*ssa.CallCommon)
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			panic(unsupported("go builtin " + b.Name()))
		}
		f, args := in.prepCall(fr, ic)
		in.spawn(f, args)
	case *ssa.MakeChan:
		n := in.intOf(fr.get(ic.x), intKind)
		fr.regs[ic.dst] = &ChanV{cap: n}
	case *ssa.Send:
		in.chanSend(fr.get(ic.x).(*ChanV), fr.get(ic.y))
	case *ssa.Select:
		fr.regs[ic.dst] = in.selectStmt(fr, ic, x)
	case *ssa.SliceToArrayPointer:
		s := fr.get(ic.x).([]Value)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			in.throwRuntime("cannot convert slice to array pointer")
		}
		p := new(Value)
		*p = &Agg{f: s[:n:n]}
		fr.regs[ic.dst] = p
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", i)))
	}
}

func onlyLoaded(x *ssa.IndexAddr) bool {
	for _, r := range *x.Referrers() {
		u, ok := r.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			if _, dbg := r.(*ssa.DebugRef); dbg {
				continue
			}
			return false
		}
	}
	return true
}

func (in *Interp) makeSlice(et types.Type, n, c int) []Value {
	s := make([]Value, c)
	if c > 0 {
		z := in.zero(et)
		if _, isAgg := z.(*Agg); isAgg {
			for i := range s {
				s[i] = in.zero(et)
			}
		} else {
			for i := range s {
				s[i] = z
			}
		}
	}
	return s[:n]
}

func (in *Interp) makeIface(t types.Type, v Value) Value {
	if rt, ok := v.(*RType); ok {
		return Iface{t: in.rtypePtrT, v: rt}
	}
	return Iface{t: t, v: v}
}

func (in *Interp) indexElems(s []Value, idx Value, k kind) Value {
	if t, ok := idx.(*Term); ok {
		if len(s) > 0 && isScalar(s[0]) {
			in.boundsCheck(t, k, len(s))
			if v, ok := in.iteSelect(t, k, s); ok {
				return v
			}
		} else if i, ok := in.indexClass(s, t, k); ok {
			return s[i]
		}
	}
	return s[in.index(idx, k, len(s))]
}

// indexClass chooses between the groups of identical elements of a table
// instead of between its indices, for an element that is only read.
func (in *Interp) indexClass(s []Value, t *Term, k kind) (int, bool) {
	if len(s) < 8 || len(s) > 512 {
		return 0, false
	}
	var classes [][]int
next:
	for i, e := range s {
		for c := range classes {
			if sameRef(s[classes[c][0]], e) {
				classes[c] = append(classes[c], i)
				continue next
			}
		}
		classes = append(classes, []int{i})
		if len(classes) > 32 {
			return 0, false
		}
	}
	if len(classes) > len(s)/2 {
		return 0, false
	}
	in.boundsCheck(t, k, len(s))
	big := 0
	for c := range classes {
		if len(classes[c]) > len(classes[big]) {
			big = c
		}
	}
	for c, l := range classes {
		if c == big {
			continue
		}
		g := in.tc.Bool(false)
		for _, i := range l {
			g = in.tc.Or(g, in.tc.Eq(t, in.tc.Const(t.w, uint64(i))))
		}
		if in.branch(fromTerm(g)) {
			return l[0], true
		}
	}
	return classes[big][0], true
}

// sameRef reports whether two values are identical: reading one instead of
// the other cannot be observed.
func sameRef(a, b Value) bool {
	switch x := a.(type) {
	case []Value:
		y, ok := b.([]Value)
		return ok && len(x) == len(y) && cap(x) == cap(y) && (x == nil) == (y == nil) && (cap(x) == 0 || &x[:1][0] == &y[:1][0])
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	case *Closure:
		y, ok := b.(*Closure)
		return ok && x == y
	case *MapV:
		y, ok := b.(*MapV)
		return ok && x == y
	case Iface:
		y, ok := b.(Iface)
		return ok && x.t == nil && y.t == nil
	}
	return false
}

func (in *Interp) indexStr(s Value, idx Value, k kind) Value {
	if t, ok := idx.(*Term); ok {
		b := in.strBytes(s)
		in.boundsCheck(t, k, len(b))
		if v, ok := in.iteSelect(t, k, b); ok {
			if u, isT := v.(*Term); isT && u.w == 64 {
				return fromTerm(in.tc.Extract(7, 0, u))
			}
			return v
		}
	}
	return in.strAt(s, in.index(idx, k, in.strLen(s)))
}

func (in *Interp) typeAssert(ic *insCode, x *ssa.TypeAssert, i Iface) Value {
	at := ic.typ
	ok := false
	var v Value
	if it, isI := at.Underlying().(*types.Interface); isI {
		if i.t != nil && in.implements(i.t, it, at) {
			ok = true
			v = i
		} else {
			v = Iface{}
		}
	} else {
		if i.t == at {
			ok = true
			v = i.v
		} else if x.CommaOk {
			v = in.zero(at)
		}
	}
	if x.CommaOk {
		return Tuple{v, ok}
	}
	if !ok {
		dyn := "nil"
		if i.t != nil {
			dyn = i.t.String()
		}
		if in.spec > 0 {
			panic(specAbort{})
		}
		in.throwTypeAssert(fmt.Sprintf("interface conversion: interface is %s, not %s", dyn, at.String()))
	}
	return v
}

func (in *Interp) throwTypeAssert(msg string) { in.throwRuntime(msg) }

func (in *Interp) slice(fr *frame, ic *insCode, x *ssa.Slice) Value {
	v := fr.get(ic.x)
	var n, c int
	var s []Value
	isStr := false
	switch b := v.(type) {
	case []Value:
		s = b
		n, c = len(b), cap(b)
	case Ptr:
		if b == nil {
			in.throwNil()
		}
		s = (*b).(*Agg).f
		n, c = len(s), len(s)
		s = s[:n:n]
	default:
		isStr = true
		n = in.strLen(v)
		c = n
	}
	lo, hi, mx := 0, n, c
	if ic.args[0] != noOpnd {
		lo = in.intOf(fr.get(ic.args[0]), in.kindOfOp(x.Low))
	}
	if ic.args[1] != noOpnd {
		hi = in.intOf(fr.get(ic.args[1]), in.kindOfOp(x.High))
	}
	if ic.args[2] != noOpnd {
		mx = in.intOf(fr.get(ic.args[2]), in.kindOfOp(x.Max))
	}
	if lo < 0 || hi < lo || mx < hi || mx > c {
		in.throwRuntime(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, c))
	}
	if isStr {
		return in.substr(v, lo, hi)
	}
	if s == nil {
		return s
	}
	return s[lo:hi:mx]
}

func (in *Interp) kindOfOp(v ssa.Value) kind {
	if v == nil {
		return intKind
	}
	return kindOf(v.Type())
}

// ---- iteration ----

type mapIter struct {
	ents []*mapEnt
	i    int
}

type strIter struct {
	s Value
	i int
}

// mapOrder: Go leaves the order unspecified. Iteration is deterministic
// here (insertion order) unless the harness asked for every order.
func (in *Interp) mapOrder(m *MapV) []*mapEnt {
	ents := append([]*mapEnt(nil), m.ents...)
	if in.mapPerm && len(ents) > 1 && len(ents) <= 4 {
		for i := 0; i < len(ents)-1; i++ {
			j := i + in.choose("maporder", len(ents)-i)
			ents[i], ents[j] = ents[j], ents[i]
		}
	}
	return ents
}

func (in *Interp) next(fr *frame, x *ssa.Next, it Value) Value {
	switch t := it.(type) {
	case *mapIter:
		for t.i < len(t.ents) {
			e := t.ents[t.i]
			t.i++
			if e.live {
				return Tuple{true, copyVal(e.k), copyVal(e.v)}
			}
		}
		return Tuple{false, nil, nil}
	case *strIter:
		n := in.strLen(t.s)
		if t.i >= n {
			return Tuple{false, uint64(0), uint64(0)}
		}
		at := t.i
		b := in.strAt(t.s, at)
		if u, ok := b.(uint64); ok && u < 0x80 {
			t.i++
			return Tuple{true, uint64(at), u}
		}
		if tt, ok := b.(*Term); ok {
			if in.branch(fromTerm(in.tc.Cmp(OUlt, tt, in.tc.Const(8, 0x80)))) {
				t.i++
				return Tuple{true, uint64(at), fromTerm(in.tc.ZExt(32, tt))}
			}
		}
		r := in.callNamed(fr, "unicode/utf8", "DecodeRuneInString", in.substr(t.s, at, n)).(Tuple)
		t.i += in.intOf(r[1], intKind)
		return Tuple{true, uint64(at), r[0]}
	}
	panic("next")
}

func (in *Interp) callNamed(fr *frame, pkg, fn string, args ...Value) Value {
	p := in.P.pkgs[pkg]
	if p == nil || p.Func(fn) == nil {
		panic(unsupported("no function " + pkg + "." + fn))
	}
	return in.callFn(fr, p.Func(fn), nil, args)
}

// ---- operators ----

func (in *Interp) unop(fr *frame, ic *insCode, x *ssa.UnOp) Value {
	v := fr.get(ic.x)
	switch x.Op {
	case token.MUL:
		switch p := v.(type) {
		case Ptr:
			return in.load(p)
		case *elemRef:
			r, ok := in.iteSelect(p.idx, p.k, p.elems)
			if !ok {
				return p.elems[in.index(p.idx, p.k, len(p.elems))]
			}
			k := kindOf(x.Type())
			if t, isT := r.(*Term); isT && k.w != 0 && t.w > k.w {
				return fromTerm(in.tc.Extract(k.w-1, 0, t))
			}
			return r
		}
		panic(unsupported(fmt.Sprintf("load through %T in %s", v, fr.code.name)))
	case token.NOT:
		if b, ok := v.(bool); ok {
			return !b
		}
		return fromTerm(in.tc.Not(v.(*Term)))
	case token.SUB:
		k := ic.k
		if k.float {
			_, sb := in.tc.fparams(k.w)
			return fromTerm(in.tc.Bin(OBXor, in.tm(v, k.w), in.tc.Const(k.w, sb)))
		}
		return fromTerm(in.tc.Neg(in.tm(v, k.w)))
	case token.XOR:
		return fromTerm(in.tc.BVNot(in.tm(v, ic.k.w)))
	case token.ARROW:
		r, ok := in.chanRecv(v.(*ChanV), x.X.Type().Underlying().(*types.Chan).Elem())
		if x.CommaOk {
			return Tuple{r, ok}
		}
		return r
	}
	panic(unsupported("unop " + x.Op.String()))
}

func (in *Interp) binop(ic *insCode, op token.Token, x, y Value) Value {
	k := ic.k
	switch op {
	case token.EQL:
		return in.eqVal(ic.typ, x, y)
	case token.NEQ:
		r := in.eqVal(ic.typ, x, y)
		if b, ok := r.(bool); ok {
			return !b
		}
		return fromTerm(in.tc.Not(r.(*Term)))
	}
	if k.str {
		switch op {
		case token.ADD:
			return in.concat(x, y)
		case token.LSS:
			return in.strLess(x, y, false)
		case token.LEQ:
			return in.strLess(x, y, true)
		case token.GTR:
			return in.strLess(y, x, false)
		case token.GEQ:
			return in.strLess(y, x, true)
		}
	}
	if !k.ok {
		panic(unsupported("binop " + op.String() + " on " + ic.typ.String()))
	}
	tc := in.tc
	if k.boolk {
		a, b := in.tb(x), in.tb(y)
		switch op {
		case token.AND, token.LAND:
			return fromTerm(tc.And(a, b))
		case token.OR, token.LOR:
			return fromTerm(tc.Or(a, b))
		}
		panic(unsupported("bool binop " + op.String()))
	}
	if op == token.SHL || op == token.SHR {
		return in.shift(k, ic.k2, op, x, y)
	}
	a, b := in.tm(x, k.w), in.tm(y, k.w)
	if k.float {
		switch op {
		case token.ADD:
			return fromTerm(tc.Bin(OFAdd, a, b))
		case token.SUB:
			return fromTerm(tc.Bin(OFSub, a, b))
		case token.MUL:
			return fromTerm(tc.Bin(OFMul, a, b))
		case token.QUO:
			return fromTerm(tc.Bin(OFDiv, a, b))
		case token.LSS:
			return fromTerm(tc.FLt(a, b))
		case token.LEQ:
			return fromTerm(tc.FLe(a, b))
		case token.GTR:
			return fromTerm(tc.FLt(b, a))
		case token.GEQ:
			return fromTerm(tc.FLe(b, a))
		}
		panic(unsupported("float binop " + op.String()))
	}
	lt, le := OUlt, OUle
	if k.signed {
		lt, le = OSlt, OSle
	}
	switch op {
	case token.ADD:
		return fromTerm(tc.Bin(OAdd, a, b))
	case token.SUB:
		return fromTerm(tc.Bin(OSub, a, b))
	case token.MUL:
		return fromTerm(tc.Bin(OMul, a, b))
	case token.QUO, token.REM:
		z := fromTerm(tc.Eq(b, tc.Const(k.w, 0)))
		if in.branch(z) {
			in.throwRuntime("integer divide by zero")
		}
		o := OUDiv
		switch {
		case op == token.QUO && k.signed:
			o = OSDiv
		case op == token.REM && k.signed:
			o = OSRem
		case op == token.REM:
			o = OURem
		}
		return fromTerm(tc.Bin(o, a, b))
	case token.AND:
		return fromTerm(tc.Bin(OBAnd, a, b))
	case token.OR:
		return fromTerm(tc.Bin(OBOr, a, b))
	case token.XOR:
		return fromTerm(tc.Bin(OBXor, a, b))
	case token.AND_NOT:
		return fromTerm(tc.Bin(OBAnd, a, tc.BVNot(b)))
	case token.LSS:
		return fromTerm(tc.Cmp(lt, a, b))
	case token.LEQ:
		return fromTerm(tc.Cmp(le, a, b))
	case token.GTR:
		return fromTerm(tc.Cmp(lt, b, a))
	case token.GEQ:
		return fromTerm(tc.Cmp(le, b, a))
	}
	panic(unsupported("binop " + op.String()))
}

func (in *Interp) shift(k, k2 kind, op token.Token, x, y Value) Value {
	tc := in.tc
	a := in.tm(x, k.w)
	c := in.tm(y, k2.w)
	if k2.signed {
		neg := fromTerm(tc.Cmp(OSlt, c, tc.Const(k2.w, 0)))
		if in.branch(neg) {
			in.throwRuntime("negative shift amount")
		}
	}
	if c.w > k.w {
		big := tc.Cmp(OUle, tc.Const(c.w, uint64(k.w)), c)
		c = tc.Ite(big, tc.Const(k.w, uint64(k.w)), tc.Extract(k.w-1, 0, c))
	} else if c.w < k.w {
		c = tc.ZExt(k.w, c)
	}
	if op == token.SHL {
		return fromTerm(tc.Bin(OShl, a, c))
	}
	if k.signed {
		return fromTerm(tc.Bin(OAShr, a, c))
	}
	return fromTerm(tc.Bin(OLShr, a, c))
}

func (in *Interp) convert(fr *frame, ic *insCode, from, to types.Type, v Value) Value {
	tc := in.tc
	k, k2 := ic.k, ic.k2
	if k.ok && k2.ok && !k.boolk && !k2.boolk {
		if !k.float && !k2.float {
			switch a := v.(type) {
			case uint64:
				return uint64(sextK(a, k)) & mask(k2.w)
			case *Term:
				return fromTerm(tc.Resize(a, k2.w, k.signed))
			}
		}
		a := in.tm(v, k.w)
		switch {
		case k.float && k2.float:
			if k.w == k2.w {
				return v
			}
			if k.w == 32 {
				return fromTerm(tc.Conv(OF32to64, 64, a))
			}
			return fromTerm(tc.Conv(OF64to32, 32, a))
		case k2.float:
			if k.signed {
				return fromTerm(tc.Conv(OFFromS, k2.w, a))
			}
			return fromTerm(tc.Conv(OFFromU, k2.w, a))
		default:
			if k2.w == 64 && !k2.signed {
				if a.isConst() {
					return in.f2u(a)
				}
				lim := tc.Conv(OFFromU, k.w, tc.Const(64, 1<<63))
				small := tc.Conv(OFToS64, 64, a)
				big := tc.Bin(OBXor, tc.Conv(OFToS64, 64, tc.Bin(OFSub, a, lim)), tc.Const(64, 1<<63))
				return fromTerm(tc.Ite(tc.FLt(a, lim), small, big))
			}
			return fromTerm(tc.Resize(tc.Conv(OFToS64, 64, a), k2.w, true))
		}
	}
	// strings
	ut, uf := to.Underlying(), from.Underlying()
	if k2.str {
		switch f := uf.(type) {
		case *types.Slice:
			ek := kindOf(f.Elem())
			s := v.([]Value)
			if in.raceOn {
				for i := range s {
					in.raceAccess(ptrOfV(&s[i]), false)
				}
			}
			if ek.w == 8 {
				return mkStr(s)
			}
			var out []Value
			for _, r := range s {
				out = append(out, in.encodeRune(fr, r)...)
			}
			return mkStr(out)
		case *types.Basic:
			if k.str {
				return v
			}
			// integer to string
			switch a := v.(type) {
			case uint64:
				n := sextK(a, k)
				if n < 0 || n > 0x10ffff {
					n = 0xfffd
				}
				return string(rune(n))
			case *Term:
				r := tc.Resize(a, 64, k.signed)
				bad := tc.Cmp(OUlt, tc.Const(64, 0x10ffff), r)
				rr := tc.Ite(bad, tc.Const(32, 0xfffd), tc.Extract(31, 0, r))
				return mkStr(in.encodeRune(fr, fromTerm(rr)))
			}
		}
	}
	if k.str {
		if s, ok := ut.(*types.Slice); ok {
			ek := kindOf(s.Elem())
			if ek.w == 8 {
				b := in.strBytes(v)
				out := in.makeSlice(s.Elem(), len(b), roundupsize(len(b)))
				copy(out, b)
				return out
			}
			// []rune
			var out []Value
			it := &strIter{s: in.force(v)}
			for {
				t := in.next(fr, nil, it).(Tuple)
				if !t[0].(bool) {
					break
				}
				out = append(out, t[2])
			}
			if out == nil {
				out = []Value{}
			}
			return out[:len(out):len(out)]
		}
	}
	if _, ok := ut.(*types.Pointer); ok {
		return v
	}
	if b, ok := ut.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v
	}
	if types.Identical(ut, uf) {
		return v
	}
	switch v.(type) {
	case []Value:
		if _, ok := ut.(*types.Slice); ok {
			return v
		}
	}
	panic(unsupported("conversion " + from.String() + " -> " + to.String() + " in " + fr.code.name))
}

func (in *Interp) f2u(a *Term) Value {
	var f float64
	if a.w == 32 {
		f = float64(math.Float32frombits(uint32(a.k)))
	} else {
		f = math.Float64frombits(a.k)
	}
	return uint64(f)
}

func (in *Interp) encodeRune(fr *frame, r Value) []Value {
	if u, ok := r.(uint64); ok {
		return in.strBytes(string(rune(int32(u))))
	}
	t := r.(*Term)
	if in.branch(fromTerm(in.tc.Cmp(OUlt, t, in.tc.Const(32, 0x80)))) {
		return []Value{fromTerm(in.tc.Extract(7, 0, t))}
	}
	return in.callNamed(fr, "unicode/utf8", "AppendRune", []Value(nil), r).([]Value)
}

// ---- builtins ----

func (in *Interp) builtin(fr *frame, b *ssa.Builtin, cc *ssa.CallCommon, args []Value) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case []Value:
			return uint64(len(x))
		case *MapV:
			if x == nil {
				return uint64(0)
			}
			if in.raceOn {
				in.raceAccess(ptrOf(x), false)
			}
			return uint64(x.n)
		case *Agg:
			return uint64(len(x.f))
		case Ptr:
			return uint64(len((*x).(*Agg).f))
		case *ChanV:
			return uint64(len(x.buf))
		}
		return uint64(in.strLen(args[0]))
	case "cap":
		switch x := args[0].(type) {
		case []Value:
			return uint64(cap(x))
		case *Agg:
			return uint64(len(x.f))
		case Ptr:
			return uint64(len((*x).(*Agg).f))
		case *ChanV:
			return uint64(x.cap)
		}
	case "append":
		return in.doAppend(cc, args)
	case "copy":
		dst := args[0].([]Value)
		var src []Value
		if s, ok := args[1].([]Value); ok {
			src = s
		} else {
			src = in.strBytes(args[1])
		}
		n := min(len(dst), len(src))
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			if in.raceOn {
				in.raceAccess(ptrOfV(&src[i]), false)
			}
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			in.store(&dst[i], tmp[i])
		}
		return uint64(n)
	case "delete":
		in.mapDelete(args[0].(*MapV), cc.Args[0].Type().Underlying().(*types.Map), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				for _, e := range append([]*mapEnt(nil), x.ents...) {
					in.mapDelete(x, cc.Args[0].Type().Underlying().(*types.Map), e.k)
				}
			}
		case []Value:
			et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				in.store(&x[i], in.zero(et))
			}
		}
		return nil
	case "panic":
		panic(&goPanic{v: args[0].(Iface)})
	case "recover":
		// recover must be called by a deferred function of a panicking frame
		if fr != nil && !fr.panicking && fr.caller != nil && fr.caller.panicking {
			p := fr.caller.pval.(*goPanic)
			fr.caller.panicking = false
			fr.caller.pval = nil
			return p.v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "close":
		in.chanClose(args[0].(*ChanV))
		return nil
	case "min", "max":
		k := kindOf(cc.Args[0].Type())
		r := args[0]
		for _, a := range args[1:] {
			if k.str {
				lt := in.strLess(a, r, false)
				if b.Name() == "max" {
					lt = in.strLess(r, a, false)
				}
				if in.branch(lt) {
					r = a
				}
				continue
			}
			x, y := in.tm(a, k.w), in.tm(r, k.w)
			if b.Name() == "max" {
				x, y = y, x
			}
			var lt *Term
			switch {
			case k.float:
				lt = in.tc.FLt(x, y)
			case k.signed:
				lt = in.tc.Cmp(OSlt, x, y)
			default:
				lt = in.tc.Cmp(OUlt, x, y)
			}
			r = fromTerm(in.tc.Ite(lt, in.tm(a, k.w), in.tm(r, k.w)))
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p == nil {
			in.throwNil()
		}
		return args[0]
	case "String": // unsafe.String(ptr, len)
		if sp, ok := args[0].(*slicePtr); ok {
			return mkStr(sp.s[:in.intOf(args[1], intKind)])
		}
		if in.intOf(args[1], intKind) == 0 {
			return ""
		}
	case "SliceData":
		s := args[0].([]Value)
		return &slicePtr{s: s[:cap(s)]}
	case "StringData":
		return &slicePtr{s: in.strBytes(args[0])}
	case "Slice":
		if sp, ok := args[0].(*slicePtr); ok {
			n := in.intOf(args[1], intKind)
			return sp.s[:n:n]
		}
	}
	panic(unsupported("builtin " + b.Name()))
}

type slicePtr struct{ s []Value }

func (in *Interp) doAppend(cc *ssa.CallCommon, args []Value) Value {
	dst := args[0].([]Value)
	if len(args) == 1 {
		return dst
	}
	var src []Value
	if s, ok := args[1].([]Value); ok {
		src = s
	} else {
		src = in.strBytes(args[1])
	}
	et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	return in.appendVals(et, dst, src)
}

func (in *Interp) appendVals(et types.Type, dst, src []Value) []Value {
	n := len(dst)
	need := n + len(src)
	if len(src) == 0 {
		return dst
	}
	tmp := make([]Value, len(src))
	for i := range src {
		if in.raceOn {
			in.raceAccess(ptrOfV(&src[i]), false)
		}
		tmp[i] = copyVal(src[i])
	}
	if need <= cap(dst) {
		dst = dst[:need]
		for i := range tmp {
			in.store(&dst[n+i], tmp[i])
		}
		return dst
	}
	nc := growCap(cap(dst), need, int(in.P.sizes.Sizeof(et)))
	r := make([]Value, nc)
	for i := 0; i < n; i++ {
		if in.raceOn {
			in.raceAccess(ptrOfV(&dst[i]), false)
		}
		r[i] = copyVal(dst[i])
	}
	copy(r[n:], tmp)
	if nc > need {
		z := in.zero(et)
		_, isAgg := z.(*Agg)
		for i := need; i < nc; i++ {
			if isAgg {
				r[i] = in.zero(et)
			} else {
				r[i] = z
			}
		}
	}
	return r[:need]
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n int) int {
	if n <= 32768 {
		i := sort.SearchInts(sizeClasses, n)
		return sizeClasses[i]
	}
	return (n + 8191) &^ 8191
}

func growCap(oldCap, need, es int) int {
	nc := oldCap
	if need > 2*oldCap {
		nc = need
	} else if oldCap < 256 {
		nc = 2 * oldCap
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	if es == 0 {
		return nc
	}
	return roundupsize(nc*es) / es
}

func isPkgInit(fn *ssa.Function) bool {
	return fn.Name() == "init" && fn.Pkg != nil && fn.Synthetic != "" && fn.Signature.Recv() == nil
}
