package main

// Run-time values of the symbolic interpreter.
//
//	bool              bool | *Term (w==0)
//	ints, floats      uint64 (bit pattern, zero extended) | *Term
//	string            string | *SymStr | *LazyStr
//	pointer           Ptr (nil for nil)
//	struct, array     *Agg
//	slice             []Value (Go's own slice header gives len/cap/aliasing)
//	map               *MapV
//	chan              *ChanV
//	func              *Closure
//	interface         Iface
//	reflect.Value     RValue, reflect.Type carriers: *RType
//	tuple             Tuple

import (
	"encoding/binary"
	"fmt"
	"go/types"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type Value = any
type Ptr = *Value

type Agg struct{ f []Value }

type Iface struct {
	t types.Type
	v Value
}

type Tuple []Value

type Closure struct {
	fn     *ssa.Function
	env    []Value
	native func(in *Interp, fr *frame, args []Value) Value
	bi     *ssa.Builtin
}

type SymStr struct{ b []Value }

// LazyStr defers formatting that depends on symbolic values until somebody
// inspects the text.
type LazyStr struct {
	f func() Value
}

type mapEnt struct {
	k, v Value
	live bool
}

type MapV struct {
	ents []*mapEnt
	idx  map[string]*mapEnt
	nsym int // live entries with a symbolic key
	n    int
}

type kind struct {
	w      uint8
	signed bool
	float  bool
	str    bool
	boolk  bool
	cplx   bool
	ok     bool // scalar
}

func kindOf(t types.Type) kind {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return kind{}
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return kind{boolk: true, ok: true}
	case types.Int, types.Int64, types.UntypedInt:
		return kind{w: 64, signed: true, ok: true}
	case types.Int8:
		return kind{w: 8, signed: true, ok: true}
	case types.Int16:
		return kind{w: 16, signed: true, ok: true}
	case types.Int32, types.UntypedRune:
		return kind{w: 32, signed: true, ok: true}
	case types.Uint, types.Uint64, types.Uintptr:
		return kind{w: 64, ok: true}
	case types.Uint8:
		return kind{w: 8, ok: true}
	case types.Uint16:
		return kind{w: 16, ok: true}
	case types.Uint32:
		return kind{w: 32, ok: true}
	case types.Float64, types.UntypedFloat:
		return kind{w: 64, float: true, ok: true}
	case types.Float32:
		return kind{w: 32, float: true, ok: true}
	case types.String, types.UntypedString:
		return kind{str: true}
	case types.Complex64, types.Complex128:
		return kind{cplx: true}
	}
	return kind{}
}

func (in *Interp) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return Ptr(nil)
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&(types.IsInteger|types.IsFloat) != 0:
			return uint64(0)
		case u.Kind() == types.UntypedNil:
			return Iface{}
		}
		if u.Info()&types.IsComplex != 0 {
			return complex(0, 0)
		}
	case *types.Pointer:
		return Ptr(nil)
	case *types.Slice:
		return []Value(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		if in.isReflectValue(t) {
			return RValue{}
		}
		a := &Agg{f: make([]Value, u.NumFields())}
		for i := range a.f {
			a.f[i] = in.zero(u.Field(i).Type())
		}
		return a
	case *types.Array:
		n := int(u.Len())
		a := &Agg{f: make([]Value, n)}
		if n > 0 {
			z := in.zero(u.Elem())
			if _, isAgg := z.(*Agg); isAgg {
				for i := range a.f {
					a.f[i] = in.zero(u.Elem())
				}
			} else {
				for i := range a.f {
					a.f[i] = z
				}
			}
		}
		return a
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = in.zero(u.At(i).Type())
		}
		return r
	}
	panic(unsupported("zero value of " + t.String()))
}

// copyVal copies aggregates (value semantics).
func copyVal(v Value) Value {
	if a, ok := v.(*Agg); ok {
		n := &Agg{f: make([]Value, len(a.f))}
		for i, x := range a.f {
			if _, isAgg := x.(*Agg); isAgg {
				n.f[i] = copyVal(x)
			} else {
				n.f[i] = x
			}
		}
		return n
	}
	return v
}

func (in *Interp) setSlot(p Ptr, v Value) {
	if in.journalOn {
		in.journal = append(in.journal, jent{p: p, old: *p})
	}
	*p = v
}

// store writes v through p, element-wise for aggregates so that interior
// pointers stay valid.
func (in *Interp) store(p Ptr, v Value) {
	if a, ok := v.(*Agg); ok {
		if d, ok := (*p).(*Agg); ok && len(d.f) == len(a.f) {
			if d == a {
				return
			}
			// read everything first: source may alias destination
			c := copyVal(a).(*Agg)
			for i := range d.f {
				in.store(&d.f[i], c.f[i])
			}
			return
		}
		in.setSlot(p, copyVal(a))
		return
	}
	if in.raceOn {
		in.raceAccess(unsafe.Pointer(p), true)
	}
	in.setSlot(p, v)
}

func (in *Interp) load(p Ptr) Value {
	if p == nil {
		in.throwNil()
	}
	if a, ok := (*p).(*Agg); ok {
		if in.raceOn {
			in.raceAgg(a)
		}
		return copyVal(a)
	}
	if in.raceOn {
		in.raceAccess(unsafe.Pointer(p), false)
	}
	return *p
}

func (in *Interp) raceAgg(a *Agg) {
	for i := range a.f {
		if s, ok := a.f[i].(*Agg); ok {
			in.raceAgg(s)
		} else {
			in.raceAccess(unsafe.Pointer(&a.f[i]), false)
		}
	}
}

// ---- strings ----

func (in *Interp) force(v Value) Value {
	for {
		l, ok := v.(*LazyStr)
		if !ok {
			return v
		}
		v = l.f()
	}
}

func mkStr(b []Value) Value {
	for _, x := range b {
		if _, ok := x.(uint64); !ok {
			return &SymStr{b: append([]Value(nil), b...)}
		}
	}
	r := make([]byte, len(b))
	for i, x := range b {
		r[i] = byte(x.(uint64))
	}
	return string(r)
}

func (in *Interp) strLen(v Value) int {
	switch s := in.force(v).(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen %T", v))
}

func (in *Interp) strAt(v Value, i int) Value {
	switch s := in.force(v).(type) {
	case string:
		return uint64(s[i])
	case *SymStr:
		return s.b[i]
	}
	panic("strAt")
}

func (in *Interp) strBytes(v Value) []Value {
	switch s := in.force(v).(type) {
	case string:
		r := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = uint64(s[i])
		}
		return r
	case *SymStr:
		return s.b
	}
	panic(fmt.Sprintf("strBytes %T", v))
}

func (in *Interp) concat(x, y Value) Value {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return a + b
		}
		if a == "" {
			return y
		}
	}
	if b, ok := y.(string); ok && b == "" {
		return x
	}
	_, lx := x.(*LazyStr)
	_, ly := y.(*LazyStr)
	if lx || ly {
		return &LazyStr{f: func() Value { return in.concat(in.force(x), in.force(y)) }}
	}
	xb, yb := in.strBytes(x), in.strBytes(y)
	r := make([]Value, 0, len(xb)+len(yb))
	r = append(r, xb...)
	r = append(r, yb...)
	return &SymStr{b: r}
}

func (in *Interp) substr(v Value, lo, hi int) Value {
	switch s := in.force(v).(type) {
	case string:
		return s[lo:hi]
	case *SymStr:
		return mkStr(s.b[lo:hi])
	}
	panic("substr")
}

// concreteStr returns the native string, or ok=false if symbolic.
func (in *Interp) concreteStr(v Value) (string, bool) {
	s, ok := in.force(v).(string)
	return s, ok
}

// mustStr concretises a string, pinning symbolic bytes (recorded as a cut).
func (in *Interp) mustStr(v Value) string {
	switch s := in.force(v).(type) {
	case string:
		return s
	case *SymStr:
		r := make([]byte, len(s.b))
		for i, x := range s.b {
			r[i] = byte(in.concretize(x))
		}
		return string(r)
	}
	panic(fmt.Sprintf("mustStr %T", v))
}

func allConcrete(b []Value) bool {
	for _, x := range b {
		if _, ok := x.(uint64); !ok {
			return false
		}
	}
	return true
}

// ---- terms from values ----

func (in *Interp) tm(v Value, w uint8) *Term {
	switch x := v.(type) {
	case uint64:
		return in.tc.Const(w, x)
	case bool:
		return in.tc.Bool(x)
	case *Term:
		return x
	}
	panic(fmt.Sprintf("gosym: scalar expected, have %T", v))
}

func (in *Interp) tb(v Value) *Term {
	switch x := v.(type) {
	case bool:
		return in.tc.Bool(x)
	case *Term:
		return x
	}
	panic(fmt.Sprintf("gosym: bool expected, have %T", v))
}

func fromTerm(t *Term) Value {
	if t.op == OConst {
		if t.w == 0 {
			return t.k != 0
		}
		return t.k
	}
	return t
}

func isScalar(v Value) bool {
	switch v.(type) {
	case uint64, bool, *Term:
		return true
	}
	return false
}

func scalarWidth(a, b Value) uint8 {
	if t, ok := a.(*Term); ok {
		return t.w
	}
	if t, ok := b.(*Term); ok {
		return t.w
	}
	return 64
}

// strEq returns bool or Term.
func (in *Interp) strEq(x, y Value) Value {
	x, y = in.force(x), in.force(y)
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return a == b
		}
	}
	return in.bytesEq(in.strBytes(x), in.strBytes(y))
}

func (in *Interp) bytesEq(xb, yb []Value) Value {
	if len(xb) != len(yb) {
		return false
	}
	r := in.tc.True
	for i := range xb {
		e := in.scalarEq(xb[i], yb[i], 8)
		r = in.tc.And(r, in.tb(e))
		if r.isConst() && r.k == 0 {
			return false
		}
	}
	return fromTerm(r)
}

func (in *Interp) scalarEq(x, y Value, w uint8) Value {
	if a, ok := x.(uint64); ok {
		if b, ok := y.(uint64); ok {
			return a == b
		}
	}
	return fromTerm(in.tc.Eq(in.tm(x, w), in.tm(y, w)))
}

// bytesLess: lexicographic x<y (or <= when orEq).
func (in *Interp) bytesLess(xb, yb []Value, orEq bool) Value {
	n := min(len(xb), len(yb))
	var r *Term
	if len(xb) == len(yb) {
		r = in.tc.Bool(orEq)
	} else {
		r = in.tc.Bool(len(xb) < len(yb))
	}
	for i := n - 1; i >= 0; i-- {
		a, b := in.tm(xb[i], 8), in.tm(yb[i], 8)
		r = in.tc.Or(in.tc.Cmp(OUlt, a, b), in.tc.And(in.tc.Eq(a, b), r))
	}
	return fromTerm(r)
}

func (in *Interp) strLess(x, y Value, orEq bool) Value {
	x, y = in.force(x), in.force(y)
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			if orEq {
				return a <= b
			}
			return a < b
		}
	}
	return in.bytesLess(in.strBytes(x), in.strBytes(y), orEq)
}

// eqVal compares two values of static type t.
func (in *Interp) eqVal(t types.Type, x, y Value) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		k := kindOf(u)
		switch {
		case k.boolk:
			if a, ok := x.(bool); ok {
				if b, ok := y.(bool); ok {
					return a == b
				}
			}
			return fromTerm(in.tc.Eq(in.tb(x), in.tb(y)))
		case k.str:
			return in.strEq(x, y)
		case k.float:
			return fromTerm(in.tc.FEq(in.tm(x, k.w), in.tm(y, k.w)))
		case k.ok:
			return in.scalarEq(x, y, k.w)
		}
		if u.Kind() == types.UnsafePointer {
			return x == y
		}
	case *types.Pointer:
		if _, ok := x.(*RType); ok {
			return x.(*RType) == y
		}
		if px, ok := x.(Ptr); ok {
			py, ok := y.(Ptr)
			return ok && px == py
		}
		return x == y
	case *types.Interface:
		a, b := x.(Iface), y.(Iface)
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if a.t != b.t {
			return false
		}
		if !types.Comparable(a.t) {
			in.throwRuntime("comparing uncomparable type " + a.t.String())
		}
		return in.eqVal(a.t, a.v, b.v)
	case *types.Struct:
		if _, ok := x.(RValue); ok {
			return x == y
		}
		r := in.tc.True
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				continue
			}
			e := in.tb(in.eqVal(u.Field(i).Type(), x.(*Agg).f[i], y.(*Agg).f[i]))
			r = in.tc.And(r, e)
			if r.isConst() && r.k == 0 {
				return false
			}
		}
		return fromTerm(r)
	case *types.Array:
		r := in.tc.True
		for i := range x.(*Agg).f {
			e := in.tb(in.eqVal(u.Elem(), x.(*Agg).f[i], y.(*Agg).f[i]))
			r = in.tc.And(r, e)
			if r.isConst() && r.k == 0 {
				return false
			}
		}
		return fromTerm(r)
	case *types.Chan:
		return x == y
	case *types.Signature:
		a, _ := x.(*Closure)
		b, _ := y.(*Closure)
		return a == b
	case *types.Slice:
		a, b := x.([]Value), y.([]Value)
		return a == nil && b == nil
	case *types.Map:
		a, b := x.(*MapV), y.(*MapV)
		return a == b
	}
	panic(unsupported("comparison of " + t.String()))
}

// ---- maps ----

func (in *Interp) hashKey(v Value, sb *strings.Builder) bool {
	switch x := v.(type) {
	case bool:
		if x {
			sb.WriteString("T")
		} else {
			sb.WriteString("F")
		}
	case uint64:
		var b [9]byte
		b[0] = 'i'
		binary.BigEndian.PutUint64(b[1:], x)
		sb.Write(b[:])
	case string:
		fmt.Fprintf(sb, "s%d:", len(x))
		sb.WriteString(x)
	case *LazyStr:
		return in.hashKey(in.force(x), sb)
	case Iface:
		if x.t == nil {
			sb.WriteString("N")
			return true
		}
		fmt.Fprintf(sb, "I%p", x.t)
		return in.hashKey(x.v, sb)
	case *Agg:
		fmt.Fprintf(sb, "A%d", len(x.f))
		for _, e := range x.f {
			if !in.hashKey(e, sb) {
				return false
			}
		}
	case Ptr:
		fmt.Fprintf(sb, "p%p", x)
	case *RType:
		fmt.Fprintf(sb, "r%p", x)
	case *Closure:
		in.throwRuntime("hash of unhashable type func")
	case []Value:
		in.throwRuntime("hash of unhashable type slice")
	case *MapV:
		in.throwRuntime("hash of unhashable type map")
	case *ChanV:
		fmt.Fprintf(sb, "c%p", x)
	default:
		return false
	}
	return true
}

func newMap() *MapV { return &MapV{idx: map[string]*mapEnt{}} }

// mapFind locates the entry for k, forking over symbolic equalities.
func (in *Interp) mapFind(m *MapV, kt types.Type, k Value) *mapEnt {
	if m == nil {
		return nil
	}
	if _, ok := k.(*LazyStr); ok {
		k = in.force(k)
	}
	var sb strings.Builder
	if in.hashKey(k, &sb) {
		if e := m.idx[sb.String()]; e != nil {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
		for _, e := range m.ents {
			if e.live && !in.isConcreteKey(e.k) {
				if in.branch(in.eqVal(kt, e.k, k)) {
					return e
				}
			}
		}
		return nil
	}
	// symbolic key
	type cand struct {
		e *mapEnt
		c *Term
	}
	var cs []cand
	any := in.tc.False
	for _, e := range m.ents {
		if !e.live {
			continue
		}
		c := in.tb(in.eqVal(kt, e.k, k))
		if c.isConst() {
			if c.k != 0 {
				return e
			}
			continue
		}
		cs = append(cs, cand{e, c})
		any = in.tc.Or(any, c)
	}
	if len(cs) == 0 || !in.branch(fromTerm(any)) {
		return nil
	}
	for i, c := range cs {
		if i == len(cs)-1 {
			return c.e
		}
		if in.branch(fromTerm(c.c)) {
			return c.e
		}
	}
	return nil
}

func (in *Interp) isConcreteKey(k Value) bool {
	var sb strings.Builder
	return in.hashKey(k, &sb)
}

// mapLookup returns value and presence, using ITE instead of forking when
// the values are scalars.
func (in *Interp) mapLookup(m *MapV, mt *types.Map, k Value) (Value, Value) {
	if in.raceOn && m != nil {
		in.raceAccess(unsafe.Pointer(m), false)
	}
	if m == nil {
		in.hashCheck(k)
		return in.zero(mt.Elem()), false
	}
	if _, ok := k.(*LazyStr); ok {
		k = in.force(k)
	}
	var sb strings.Builder
	if !in.hashKey(k, &sb) && kindOf(mt.Elem()).ok {
		kk := kindOf(mt.Elem())
		val := in.tm(in.zero(mt.Elem()), kk.w)
		found := in.tc.False
		for _, e := range m.ents {
			if !e.live {
				continue
			}
			c := in.tb(in.eqVal(mt.Key(), e.k, k))
			if c.isConst() && c.k == 0 {
				continue
			}
			val = in.tc.Ite(c, in.tm(e.v, kk.w), val)
			found = in.tc.Or(found, c)
		}
		return fromTerm(val), fromTerm(found)
	}
	if in.spec > 0 {
		if in.isConcreteKey(k) && m.nsym == 0 {
			if e := m.idx[sb.String()]; e != nil {
				return copyVal(e.v), true
			}
			return in.zero(mt.Elem()), false
		}
		panic(specAbort{})
	}
	e := in.mapFind(m, mt.Key(), k)
	if e == nil {
		return in.zero(mt.Elem()), false
	}
	return copyVal(e.v), true
}

func (in *Interp) hashCheck(k Value) {
	var sb strings.Builder
	in.hashKey(k, &sb)
}

func (in *Interp) mapUpdate(m *MapV, mt *types.Map, k, v Value) {
	if m == nil {
		in.throwPlain("assignment to entry in nil map")
	}
	if in.raceOn {
		in.raceAccess(unsafe.Pointer(m), true)
	}
	if _, ok := k.(*LazyStr); ok {
		k = in.force(k)
	}
	v = copyVal(v)
	if e := in.mapFind(m, mt.Key(), k); e != nil {
		old := e.v
		if in.journalOn {
			in.journal = append(in.journal, jent{undo: func() { e.v = old }})
		}
		e.v = v
		return
	}
	e := &mapEnt{k: copyVal(k), v: v, live: true}
	var sb strings.Builder
	conc := in.hashKey(k, &sb)
	h := sb.String()
	m.ents = append(m.ents, e)
	if conc {
		m.idx[h] = e
	} else {
		m.nsym++
	}
	m.n++
	if in.journalOn {
		in.journal = append(in.journal, jent{undo: func() {
			e.live = false
			m.n--
			if conc {
				delete(m.idx, h)
			} else {
				m.nsym--
			}
			for i := len(m.ents) - 1; i >= 0; i-- {
				if m.ents[i] == e {
					m.ents = append(m.ents[:i:i], m.ents[i+1:]...)
					break
				}
			}
		}})
	}
}

func (in *Interp) mapDelete(m *MapV, mt *types.Map, k Value) {
	if m == nil {
		return
	}
	if in.raceOn {
		in.raceAccess(unsafe.Pointer(m), true)
	}
	e := in.mapFind(m, mt.Key(), k)
	if e == nil {
		return
	}
	var sb strings.Builder
	conc := in.hashKey(e.k, &sb)
	h := sb.String()
	pos := -1
	for i, x := range m.ents {
		if x == e {
			pos = i
		}
	}
	m.ents = append(m.ents[:pos:pos], m.ents[pos+1:]...)
	e.live = false
	m.n--
	if conc {
		delete(m.idx, h)
	} else {
		m.nsym--
	}
	if in.journalOn {
		in.journal = append(in.journal, jent{undo: func() {
			e.live = true
			m.n++
			if conc {
				m.idx[h] = e
			} else {
				m.nsym++
			}
			n := append([]*mapEnt(nil), m.ents[:pos]...)
			n = append(n, e)
			m.ents = append(n, m.ents[pos:]...)
		}})
	}
}
