package main

// If-conversion: acyclic, side-effect-free regions of the SSA graph are
// evaluated once with ITE terms instead of forking a path per branch.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type region struct {
	blocks []int // topological order, excludes head and join
	join   int   // -1: function exit
}

const maxRegion = 48

func (in *Interp) pureIns(i ssa.Instruction) bool {
	switch x := i.(type) {
	case *ssa.BinOp:
		switch x.Op {
		case token.QUO, token.REM:
			c, ok := x.Y.(*ssa.Const)
			return ok && c.Value != nil
		case token.ADD:
			return !kindOf(x.X.Type()).str
		}
		return true
	case *ssa.UnOp:
		return x.Op != token.ARROW
	case *ssa.Convert:
		k, k2 := kindOf(x.X.Type()), kindOf(x.Type())
		return k.ok && k2.ok
	case *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.Extract, *ssa.Field, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Index,
		*ssa.Lookup, *ssa.TypeAssert, *ssa.DebugRef, *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Return:
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap", "min", "max":
				return true
			}
			return false
		}
		if x.Call.IsInvoke() {
			return false
		}
		f, ok := x.Call.Value.(*ssa.Function)
		if !ok {
			return false
		}
		return in.isPure(in.codeOf(f))
	}
	return false
}

// isPure: whole function is an acyclic pure region ending in returns.
func (in *Interp) isPure(c *fnCode) bool {
	if c.pure != 0 {
		return c.pure > 0
	}
	c.pure = -1 // also cuts recursion
	if c.intr != nil {
		if c.intr.pure {
			c.pure = 1
		}
		return c.pure > 0
	}
	if c.blocks == nil || len(c.blocks) > maxRegion || c.hasDefer {
		return false
	}
	if c.fn.Recover != nil {
		return false
	}
	res := c.fn.Signature.Results()
	if res.Len() == 0 {
		return false
	}
	for i := 0; i < res.Len(); i++ {
		if !kindOf(res.At(i).Type()).ok {
			return false
		}
	}
	for _, b := range c.fn.Blocks {
		for _, s := range b.Succs {
			if s.Index == 0 {
				return false
			}
		}
		for _, i := range b.Instrs {
			if !in.pureIns(i) {
				return false
			}
		}
	}
	if topo(c.fn, 0, -1, nil) == nil {
		return false
	}
	c.pure = 1
	return true
}

// topo returns the blocks reachable from start without passing through
// stop, in topological order, or nil if cyclic or too large.
func topo(fn *ssa.Function, start, stop int, keep func(*ssa.BasicBlock) bool) []int {
	state := map[int]int{}
	var order []int
	okAll := true
	var visit func(b int)
	visit = func(b int) {
		if !okAll || b == stop {
			return
		}
		switch state[b] {
		case 1:
			okAll = false
			return
		case 2:
			return
		}
		state[b] = 1
		if keep != nil && !keep(fn.Blocks[b]) {
			okAll = false
			return
		}
		for _, s := range fn.Blocks[b].Succs {
			visit(s.Index)
		}
		state[b] = 2
		order = append(order, b)
		if len(order) > maxRegion {
			okAll = false
		}
	}
	visit(start)
	if !okAll {
		return nil
	}
	for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
		order[i], order[j] = order[j], order[i]
	}
	return order
}

// postdominator tree by simple iteration, cached per function
var _ = types.Typ

func (in *Interp) findRegion(c *fnCode, head int) *region {
	fn := c.fn
	// candidate join: nearest block J such that all paths from head reach J
	// through pure acyclic blocks. Explore forward in BFS order.
	pure := func(b *ssa.BasicBlock) bool {
		if b.Index == head {
			return false
		}
		for _, i := range b.Instrs {
			switch i.(type) {
			case *ssa.Return:
				return false
			}
			if !in.pureIns(i) {
				return false
			}
		}
		return true
	}
	// collect forward set, limited
	var cand []int
	seen := map[int]bool{}
	q := []int{}
	for _, s := range fn.Blocks[head].Succs {
		q = append(q, s.Index)
	}
	for len(q) > 0 && len(cand) < 64 {
		b := q[0]
		q = q[1:]
		if seen[b] {
			continue
		}
		seen[b] = true
		cand = append(cand, b)
		if !pure(fn.Blocks[b]) {
			continue
		}
		for _, s := range fn.Blocks[b].Succs {
			q = append(q, s.Index)
		}
	}
	for _, j := range cand {
		if j == head || len(fn.Blocks[j].Preds) < 2 {
			continue
		}
		var all []int
		ok := true
		// virtual start: both successors
		state := map[int]int{}
		var order []int
		var visit func(b int)
		visit = func(b int) {
			if !ok || b == j {
				return
			}
			switch state[b] {
			case 1:
				ok = false
				return
			case 2:
				return
			}
			state[b] = 1
			if !pure(fn.Blocks[b]) {
				ok = false
				return
			}
			for _, s := range fn.Blocks[b].Succs {
				visit(s.Index)
			}
			state[b] = 2
			order = append(order, b)
			if len(order) > maxRegion {
				ok = false
			}
		}
		for _, s := range fn.Blocks[head].Succs {
			visit(s.Index)
		}
		if !ok {
			continue
		}
		for i := len(order) - 1; i >= 0; i-- {
			all = append(all, order[i])
		}
		// every pred of region blocks must be head or region (true by
		// dominance of head, else values could come from elsewhere)
		inR := map[int]bool{head: true}
		for _, b := range all {
			inR[b] = true
		}
		for _, b := range all {
			for _, p := range fn.Blocks[b].Preds {
				if !inR[p.Index] {
					ok = false
				}
			}
		}
		if !ok {
			continue
		}
		return &region{blocks: all, join: j}
	}
	return nil
}

type edge struct{ from, to int }

// tryRegion if-converts the region headed by bc. On success the frame is at
// the join block with its phis evaluated... the join's phis are set and
// fr.prev is -1 so they are not re-evaluated.
func (in *Interp) tryRegion(fr *frame, bc *blockCode, cond *Term) bool {
	if bc.regOK < 0 {
		return false
	}
	if bc.regOK == 0 {
		bc.region = in.findRegion(fr.code, bc.b.Index)
		if bc.region == nil {
			bc.regOK = -1
			return false
		}
		bc.regOK = 1
	}
	r := bc.region
	guards := map[edge]*Term{}
	h := bc.b.Index
	in.addEdge(guards, edge{h, bc.b.Succs[0].Index}, cond)
	in.addEdge(guards, edge{h, bc.b.Succs[1].Index}, in.tc.Not(cond))
	if bc.b.Succs[0] == bc.b.Succs[1] {
		return false
	}
	jp, ok := in.evalRegion(fr, r.blocks, guards, r.join, nil)
	if !ok {
		return false
	}
	jb := fr.code.blocks[r.join]
	for i, p := range jb.phis {
		fr.regs[p.dst] = jp[i]
	}
	in.mergeCount++
	fr.block = r.join
	fr.prev = -1
	return true
}

func (in *Interp) addEdge(g map[edge]*Term, e edge, t *Term) {
	if o, ok := g[e]; ok {
		g[e] = in.tc.Or(o, t)
	} else {
		g[e] = t
	}
}

// evalRegion evaluates blocks speculatively under edge guards. With join>=0
// returns the values of the join's phis; with rets != nil collects returns.
func (in *Interp) evalRegion(fr *frame, blocks []int, guards map[edge]*Term, join int, rets *[]retVal) (jp []Value, ok bool) {
	in.spec++
	depth := in.depth
	defer func() {
		in.spec--
		if e := recover(); e != nil {
			switch e.(type) {
			case specAbort:
				in.depth = depth
				jp, ok = nil, false
				return
			}
			panic(e)
		}
	}()
	for _, b := range blocks {
		bc := fr.code.blocks[b]
		g := in.tc.False
		if len(bc.b.Preds) == 0 {
			g = in.tc.True
		}
		for _, p := range bc.b.Preds {
			if e, ok := guards[edge{p.Index, b}]; ok {
				g = in.tc.Or(g, e)
			}
		}
		if g.isConst() && g.k == 0 {
			continue
		}
		if len(bc.phis) > 0 {
			vals := in.mergePhis(fr, bc, guards)
			for i, p := range bc.phis {
				fr.regs[p.dst] = vals[i]
			}
		}
		for _, ic := range bc.body {
			in.steps++
			switch ic.i.(type) {
			case *ssa.Jump:
				in.addEdge(guards, edge{b, bc.b.Succs[0].Index}, g)
			case *ssa.If:
				c := in.tb(fr.get(ic.x))
				in.addEdge(guards, edge{b, bc.b.Succs[0].Index}, in.tc.And(g, c))
				in.addEdge(guards, edge{b, bc.b.Succs[1].Index}, in.tc.And(g, in.tc.Not(c)))
			case *ssa.Return:
				if rets == nil {
					panic(specAbort{})
				}
				rv := retVal{g: g}
				for _, a := range ic.args {
					rv.v = append(rv.v, fr.get(a))
				}
				*rets = append(*rets, rv)
			default:
				in.exec(fr, ic, ic.i)
			}
		}
	}
	if join >= 0 {
		return in.mergePhis(fr, fr.code.blocks[join], guards), true
	}
	return nil, true
}

type retVal struct {
	g *Term
	v []Value
}

func (in *Interp) mergePhis(fr *frame, bc *blockCode, guards map[edge]*Term) []Value {
	out := make([]Value, len(bc.phis))
	for i, p := range bc.phis {
		var acc Value
		have := false
		for pi, pred := range bc.b.Preds {
			g, ok := guards[edge{pred.Index, bc.b.Index}]
			if !ok || (g.isConst() && g.k == 0) {
				continue
			}
			v := fr.get(p.args[pi])
			if !have {
				acc, have = v, true
				continue
			}
			acc = in.mergeVal(g, v, acc, p.typ)
		}
		if !have {
			panic(specAbort{})
		}
		out[i] = acc
	}
	return out
}

// mergeVal: if g then a else b.
func (in *Interp) mergeVal(g *Term, a, b Value, t types.Type) Value {
	if isScalar(a) && isScalar(b) {
		k := kindOf(t)
		if k.ok {
			return fromTerm(in.tc.Ite(g, in.tm(a, k.w), in.tm(b, k.w)))
		}
	}
	switch x := a.(type) {
	case string:
		if y, ok := b.(string); ok && x == y {
			return a
		}
	case Ptr:
		if y, ok := b.(Ptr); ok && x == y {
			return a
		}
	case *Closure:
		if y, ok := b.(*Closure); ok && x == y {
			return a
		}
	case *MapV:
		if y, ok := b.(*MapV); ok && x == y {
			return a
		}
	case Iface:
		if y, ok := b.(Iface); ok {
			if x.t == nil && y.t == nil {
				return a
			}
			if x.t == y.t && x.t != nil && isScalar(x.v) && isScalar(y.v) {
				return Iface{t: x.t, v: in.mergeVal(g, x.v, y.v, x.t)}
			}
		}
	}
	panic(specAbort{})
}

func (in *Interp) mergeCall(caller *frame, c *fnCode, env, args []Value) (res Value, ok bool) {
	fr := &frame{in: in, code: c, caller: caller, regs: make([]Value, c.nregs), prev: -1, g: in.curG}
	for i, p := range c.params {
		fr.regs[p] = args[i]
	}
	for i, p := range c.free {
		fr.regs[p] = env[i]
	}
	order := topo(c.fn, 0, -1, nil)
	var rets []retVal
	_, ok = in.evalRegion(fr, order, map[edge]*Term{}, -1, &rets)
	if !ok || len(rets) == 0 {
		return nil, false
	}
	n := c.fn.Signature.Results().Len()
	vals := make([]Value, n)
	for i := 0; i < n; i++ {
		k := kindOf(c.fn.Signature.Results().At(i).Type())
		acc := in.tm(rets[len(rets)-1].v[i], k.w)
		for j := len(rets) - 2; j >= 0; j-- {
			acc = in.tc.Ite(rets[j].g, in.tm(rets[j].v[i], k.w), acc)
		}
		vals[i] = fromTerm(acc)
	}
	in.mergeCount++
	if n == 1 {
		return vals[0], true
	}
	return Tuple(vals), true
}
