package main

// Hash-consed SMT terms over Bool and fixed-width bit-vectors with constant
// folding and unsigned interval reasoning.

import (
	"fmt"
	"math"
	"math/bits"
	"strconv"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OExtract // k = hi<<8|lo
	OZExt
	OSExt
	OConcat
	OUlt
	OUle
	OSlt
	OSle
	// floating point: operands and results are IEEE bit patterns
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFFromS // BV -> float bits (width w)
	OFFromU
	OFToS64 // float bits -> BV64, amd64 CVTTSD2SI semantics for out of range
	OF32to64
	OF64to32
)

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OSub: "bvsub",
	OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor",
	OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OConcat: "concat",
	OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle"}

// Term: w==0 is Bool.
type Term struct {
	op      Op
	w       uint8
	emitted bool
	id      uint32
	a, b, c *Term
	k       uint64
	name    string
	lo, hi  uint64 // unsigned interval (bool: 0..1)
	evGen   uint32
	evVal   uint64
	vs      varset
	tab     *[4]uint64
	shape   uint64 // structural hash up to the name of the input
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c *Term
	k       uint64
	name    string
}

// TermCtx is per worker.
type TermCtx struct {
	tab   map[termKey]*Term
	vars  []*Term
	byNm  map[string]*Term
	next  uint32
	evGen uint32

	varIdx   map[*Term]int
	varByIdx []*Term
	evVar    *Term
	evOver   uint64

	True  *Term
	False *Term
}

func newTermCtx() *TermCtx {
	c := &TermCtx{tab: map[termKey]*Term{}, byNm: map[string]*Term{}, varIdx: map[*Term]int{}}
	c.True = c.Const(0, 1)
	c.False = c.Const(0, 0)
	return c
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	return int64(v<<(64-w)) >> (64 - w)
}

func (c *TermCtx) raw(op Op, w uint8, a, b, d *Term, k uint64, name string) *Term {
	key := termKey{op, w, a, b, d, k, name}
	if t, ok := c.tab[key]; ok {
		return t
	}
	c.next++
	t := &Term{op: op, w: w, a: a, b: b, c: d, k: k, name: name, id: c.next}
	t.lo, t.hi = 0, mask(w)
	c.interval(t)
	c.tab[key] = t
	return t
}

func (c *TermCtx) interval(t *Term) {
	switch t.op {
	case OConst:
		t.lo, t.hi = t.k, t.k
	case OZExt:
		t.lo, t.hi = t.a.lo, t.a.hi
	case OIte:
		t.lo, t.hi = min(t.b.lo, t.c.lo), max(t.b.hi, t.c.hi)
	case OAdd:
		if s, ca := bits.Add64(t.a.hi, t.b.hi, 0); ca == 0 && s <= mask(t.w) {
			t.lo, t.hi = t.a.lo+t.b.lo, s
		}
	case OSub:
		if t.a.lo >= t.b.hi {
			t.lo, t.hi = t.a.lo-t.b.hi, t.a.hi-t.b.lo
		}
	case OMul:
		if h, l := bits.Mul64(t.a.hi, t.b.hi); h == 0 && l <= mask(t.w) {
			t.lo, t.hi = t.a.lo*t.b.lo, l
		}
	case OBAnd:
		t.hi = min(t.a.hi, t.b.hi)
	case OBOr, OBXor:
		n := bits.Len64(t.a.hi | t.b.hi)
		if n < 64 {
			t.hi = (uint64(1) << n) - 1
		}
		if t.op == OBOr {
			t.lo = max(t.a.lo, t.b.lo)
		}
	case OLShr:
		if t.b.op == OConst {
			if t.b.k >= 64 {
				t.lo, t.hi = 0, 0
			} else {
				t.lo, t.hi = t.a.lo>>t.b.k, t.a.hi>>t.b.k
			}
		} else {
			t.hi = t.a.hi
		}
	case OShl:
		if t.b.op == OConst && t.b.k < 64 && bits.Len64(t.a.hi)+int(t.b.k) <= int(t.w) {
			t.lo, t.hi = t.a.lo<<t.b.k, t.a.hi<<t.b.k
		}
	case OURem:
		if t.b.lo > 0 {
			t.hi = min(t.a.hi, t.b.hi-1)
		}
	case OUDiv:
		if t.b.lo > 0 {
			t.lo, t.hi = t.a.lo/t.b.hi, t.a.hi/t.b.lo
		}
	case OExtract:
		lo := uint8(t.k & 0xff)
		if t.a.hi>>lo <= mask(t.w) {
			t.lo, t.hi = t.a.lo>>lo, t.a.hi>>lo
		}
	}
}

func (c *TermCtx) Const(w uint8, v uint64) *Term {
	return c.raw(OConst, w, nil, nil, nil, v&mask(w), "")
}

func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *TermCtx) Var(w uint8, name string) *Term {
	if t, ok := c.byNm[name]; ok {
		if t.w != w {
			panic("gosym: variable " + name + " used with two widths")
		}
		return t
	}
	t := c.raw(OVar, w, nil, nil, nil, 0, name)
	c.byNm[name] = t
	c.vars = append(c.vars, t)
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }

func (c *TermCtx) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return c.Bool(a.k == 0)
	case ONot:
		return a.a
	}
	return c.raw(ONot, 0, a, nil, nil, 0, "")
}

func (c *TermCtx) And(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return c.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.raw(OAnd, 0, a, b, nil, 0, "")
}

func (c *TermCtx) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.k != 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k != 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return c.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.raw(OOr, 0, a, b, nil, 0, "")
}

func (c *TermCtx) Ite(g, a, b *Term) *Term {
	if g.isConst() {
		if g.k != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if g.op == ONot {
		return c.Ite(g.a, b, a)
	}
	if a.w == 0 {
		if a.isConst() && b.isConst() {
			if a.k != 0 {
				return g
			}
			return c.Not(g)
		}
		if a.isConst() {
			if a.k != 0 {
				return c.Or(g, b)
			}
			return c.And(c.Not(g), b)
		}
		if b.isConst() {
			if b.k != 0 {
				return c.Or(c.Not(g), a)
			}
			return c.And(g, a)
		}
	}
	if b.op == OIte && b.a == g {
		b = b.c
	}
	if a.op == OIte && a.a == g {
		a = a.b
	}
	if a == b {
		return a
	}
	return c.raw(OIte, a.w, g, a, b, 0, "")
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("gosym: Eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.k == b.k)
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k != 0 {
				return a
			}
			return c.Not(a)
		}
	}
	if a.hi < b.lo || b.hi < a.lo {
		return c.False
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch a.op {
		case OZExt:
			return c.Eq(a.a, c.Const(a.a.w, b.k))
		case OSExt:
			if uint64(sext(b.k&mask(a.a.w), a.a.w))&mask(a.w) != b.k {
				return c.False
			}
			return c.Eq(a.a, c.Const(a.a.w, b.k))
		case OIte:
			if a.b.isConst() || a.c.isConst() {
				if a.b.isConst() && a.b.k != b.k {
					return c.And(c.Not(a.a), c.Eq(a.c, b))
				}
				if a.c.isConst() && a.c.k != b.k {
					return c.And(a.a, c.Eq(a.b, b))
				}
				if a.b.isConst() && a.b.k == b.k {
					return c.Or(a.a, c.Eq(a.c, b))
				}
				if a.c.isConst() && a.c.k == b.k {
					return c.Or(c.Not(a.a), c.Eq(a.b, b))
				}
			}
		case OAdd:
			if a.b.isConst() {
				return c.Eq(a.a, c.Const(a.w, b.k-a.b.k))
			}
		case OBXor:
			if a.b.isConst() {
				return c.Eq(a.a, c.Const(a.w, b.k^a.b.k))
			}
		case OBNot:
			return c.Eq(a.a, c.Const(a.w, ^b.k))
		}
	} else {
		if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
			return c.Eq(a.a, b.a)
		}
		if a.op == OBNot && b.op == OBNot {
			return c.Eq(a.a, b.a)
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return c.raw(OEq, 0, a, b, nil, 0, "")
}

func foldBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			if sx >= 0 {
				return m
			}
			return 1
		}
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case OSRem:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m
	case OFAdd, OFSub, OFMul, OFDiv:
		if w == 32 {
			a, b := math.Float32frombits(uint32(x)), math.Float32frombits(uint32(y))
			var r float32
			switch op {
			case OFAdd:
				r = a + b
			case OFSub:
				r = a - b
			case OFMul:
				r = a * b
			default:
				r = a / b
			}
			return uint64(math.Float32bits(r))
		}
		a, b := math.Float64frombits(x), math.Float64frombits(y)
		var r float64
		switch op {
		case OFAdd:
			r = a + b
		case OFSub:
			r = a - b
		case OFMul:
			r = a * b
		default:
			r = a / b
		}
		return math.Float64bits(r)
	}
	panic("foldBin")
}

func (c *TermCtx) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("gosym: Bin %s width mismatch %d %d", opNames[op], a.w, b.w))
	}
	w := a.w
	if a.isConst() && b.isConst() {
		return c.Const(w, foldBin(op, w, a.k, b.k))
	}
	if op == OFMul && w == 64 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && neverNaN(a) {
			switch math.Float64frombits(b.k) {
			case 1:
				return a
			case -1:
				return c.Bin(OBXor, a, c.Const(64, 1<<63))
			}
		}
	}
	switch op {
	case OAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return a
			}
			if a.op == OAdd && a.b.isConst() {
				return c.Bin(OAdd, a.a, c.Const(w, a.b.k+b.k))
			}
		} else if a.id > b.id {
			a, b = b, a
		}
	case OSub:
		if a == b {
			return c.Const(w, 0)
		}
		if b.isConst() {
			return c.Bin(OAdd, a, c.Const(w, -b.k))
		}
	case OMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
		}
	case OBAnd:
		if a.isConst() {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.isConst() {
			if b.k == 0 {
				return b
			}
			if b.k == mask(w) {
				return a
			}
			// low-bit mask covering the whole interval
			if b.k&(b.k+1) == 0 && a.hi <= b.k {
				return a
			}
			if a.op == OBAnd && a.b.isConst() {
				return c.Bin(OBAnd, a.a, c.Const(w, a.b.k&b.k))
			}
		}
	case OBOr:
		if a.isConst() {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.isConst() {
			if b.k == 0 {
				return a
			}
			if b.k == mask(w) {
				return b
			}
		}
	case OBXor:
		if a.isConst() {
			a, b = b, a
		}
		if a == b {
			return c.Const(w, 0)
		}
		if b.isConst() {
			if b.k == 0 {
				return a
			}
			if b.k == mask(w) {
				return c.BVNot(a)
			}
			if a.op == OBXor && a.b.isConst() {
				return c.Bin(OBXor, a.a, c.Const(w, a.b.k^b.k))
			}
		}
	case OShl, OLShr, OAShr:
		if b.isConst() {
			if b.k == 0 {
				return a
			}
			if b.k >= uint64(w) && op != OAShr {
				return c.Const(w, 0)
			}
			if op == OLShr && b.k < 64 && a.hi>>b.k == 0 {
				return c.Const(w, 0)
			}
		}
		if a.isConst() && a.k == 0 {
			return a
		}
	case OUDiv:
		if b.isConst() && b.k == 1 {
			return a
		}
		if b.isConst() && b.k != 0 && b.k&(b.k-1) == 0 {
			return c.Bin(OLShr, a, c.Const(w, uint64(bits.TrailingZeros64(b.k))))
		}
	case OURem:
		if b.isConst() && b.k != 0 && b.k&(b.k-1) == 0 {
			return c.Bin(OBAnd, a, c.Const(w, b.k-1))
		}
		if b.lo > a.hi {
			return a
		}
	case OSDiv:
		if b.isConst() && b.k == 1 {
			return a
		}
		// both non-negative: unsigned
		if a.hi <= mask(w)>>1 && b.hi <= mask(w)>>1 {
			return c.Bin(OUDiv, a, b)
		}
	case OSRem:
		if a.hi <= mask(w)>>1 && b.hi <= mask(w)>>1 {
			return c.Bin(OURem, a, b)
		}
	}
	r := c.raw(op, w, a, b, nil, 0, "")
	if r.lo == r.hi {
		return c.Const(w, r.lo)
	}
	return r
}

func (c *TermCtx) BVNot(a *Term) *Term {
	if a.isConst() {
		return c.Const(a.w, ^a.k)
	}
	if a.op == OBNot {
		return a.a
	}
	return c.raw(OBNot, a.w, a, nil, nil, 0, "")
}

func (c *TermCtx) Neg(a *Term) *Term {
	if a.isConst() {
		return c.Const(a.w, -a.k)
	}
	return c.raw(ONeg, a.w, a, nil, nil, 0, "")
}

func (c *TermCtx) Cmp(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("gosym: Cmp width mismatch %d %d", a.w, b.w))
	}
	switch op {
	case OUlt:
		if a == b || a.lo >= b.hi {
			return c.False
		}
		if a.hi < b.lo {
			return c.True
		}
		if b.isConst() && b.k == 1 {
			return c.Eq(a, c.Const(a.w, 0))
		}
		if a.op == OZExt && b.isConst() {
			return c.Cmp(OUlt, a.a, c.Const(a.a.w, b.k))
		}
		if b.op == OZExt && a.isConst() {
			return c.Cmp(OUlt, c.Const(b.a.w, a.k), b.a)
		}
		if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
			return c.Cmp(OUlt, a.a, b.a)
		}
	case OUle:
		return c.Not(c.Cmp(OUlt, b, a))
	case OSlt:
		if a == b {
			return c.False
		}
		h := mask(a.w) >> 1
		if a.hi <= h && b.hi <= h {
			return c.Cmp(OUlt, a, b)
		}
		if a.lo > h && b.lo > h {
			return c.Cmp(OUlt, a, b)
		}
		if a.lo > h && b.hi <= h {
			return c.True
		}
		if a.hi <= h && b.lo > h {
			return c.False
		}
	case OSle:
		return c.Not(c.Cmp(OSlt, b, a))
	}
	return c.raw(op, 0, a, b, nil, 0, "")
}

func (c *TermCtx) Extract(hi, lo uint8, a *Term) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	if a.isConst() {
		return c.Const(w, a.k>>lo)
	}
	switch a.op {
	case OZExt:
		if hi < a.a.w {
			return c.Extract(hi, lo, a.a)
		}
		if lo >= a.a.w {
			return c.Const(w, 0)
		}
		if lo == 0 {
			return c.ZExt(w, a.a)
		}
	case OSExt:
		if hi < a.a.w {
			return c.Extract(hi, lo, a.a)
		}
	case OExtract:
		l := uint8(a.k & 0xff)
		return c.Extract(hi+l, lo+l, a.a)
	case OLShr:
		if a.b.isConst() && a.b.k+uint64(hi) < uint64(a.w) {
			s := uint8(a.b.k)
			return c.Extract(hi+s, lo+s, a.a)
		}
	case OAShr:
		if a.b.isConst() && a.b.k+uint64(hi) < uint64(a.w) {
			s := uint8(a.b.k)
			return c.Extract(hi+s, lo+s, a.a)
		}
	case OShl:
		if a.b.isConst() && a.b.k < 64 {
			s := uint8(a.b.k)
			if lo >= s {
				return c.Extract(hi-s, lo-s, a.a)
			}
			if hi < s {
				return c.Const(w, 0)
			}
		}
	case OBAnd, OBOr, OBXor:
		return c.Bin(a.op, c.Extract(hi, lo, a.a), c.Extract(hi, lo, a.b))
	case OBNot:
		return c.BVNot(c.Extract(hi, lo, a.a))
	case OIte:
		if a.b.isConst() || a.c.isConst() {
			return c.Ite(a.a, c.Extract(hi, lo, a.b), c.Extract(hi, lo, a.c))
		}
	case OAdd, OSub, OMul:
		if lo == 0 {
			return c.Bin(a.op, c.Extract(hi, 0, a.a), c.Extract(hi, 0, a.b))
		}
	}
	r := c.raw(OExtract, w, a, nil, nil, uint64(hi)<<8|uint64(lo), "")
	if r.lo == r.hi {
		return c.Const(w, r.lo)
	}
	return r
}

func (c *TermCtx) ZExt(w uint8, a *Term) *Term {
	if w == a.w {
		return a
	}
	if a.isConst() {
		return c.Const(w, a.k)
	}
	if a.op == OZExt {
		return c.ZExt(w, a.a)
	}
	if a.op == OIte && a.b.isConst() && a.c.isConst() {
		return c.Ite(a.a, c.ZExt(w, a.b), c.ZExt(w, a.c))
	}
	return c.raw(OZExt, w, a, nil, nil, 0, "")
}

func (c *TermCtx) SExt(w uint8, a *Term) *Term {
	if w == a.w {
		return a
	}
	if a.isConst() {
		return c.Const(w, uint64(sext(a.k, a.w)))
	}
	if a.hi <= mask(a.w)>>1 {
		return c.ZExt(w, a)
	}
	return c.raw(OSExt, w, a, nil, nil, 0, "")
}

// Resize converts a to width w given signedness of the source type.
func (c *TermCtx) Resize(a *Term, w uint8, signed bool) *Term {
	if w < a.w {
		return c.Extract(w-1, 0, a)
	}
	if signed {
		return c.SExt(w, a)
	}
	return c.ZExt(w, a)
}

// ---- floating point on bit patterns ----

func (c *TermCtx) fparams(w uint8) (expMask, signBit uint64) {
	if w == 32 {
		return 0x7f800000, 0x80000000
	}
	return 0x7ff0000000000000, 0x8000000000000000
}

// neverNaN: a is known not to be a NaN.
func neverNaN(a *Term) bool {
	switch a.op {
	case OConst:
		return a.w == 64 && !math.IsNaN(math.Float64frombits(a.k))
	case OFFromS, OFFromU:
		return true
	case OBXor: // change of sign
		return a.w == 64 && a.b.isConst() && a.b.k == 1<<63 && neverNaN(a.a)
	case OFDiv, OFMul:
		if a.w != 64 || !a.b.isConst() {
			return false
		}
		f := math.Float64frombits(a.b.k)
		return neverNaN(a.a) && f != 0 && !math.IsInf(f, 0) && f == f
	}
	return false
}

func (c *TermCtx) FIsNaN(a *Term) *Term {
	if neverNaN(a) {
		return c.False
	}
	em, sb := c.fparams(a.w)
	return c.Cmp(OUlt, c.Const(a.w, em), c.Bin(OBAnd, a, c.Const(a.w, ^sb)))
}

func (c *TermCtx) fIsZero(a *Term) *Term {
	_, sb := c.fparams(a.w)
	return c.Eq(c.Bin(OBAnd, a, c.Const(a.w, ^sb)), c.Const(a.w, 0))
}

func (c *TermCtx) FEq(a, b *Term) *Term {
	return c.And(c.And(c.Not(c.FIsNaN(a)), c.Not(c.FIsNaN(b))),
		c.Or(c.Eq(a, b), c.And(c.fIsZero(a), c.fIsZero(b))))
}

// order key: total unsigned order for non-NaN floats with -0 < +0
func (c *TermCtx) fKey(a *Term) *Term {
	_, sb := c.fparams(a.w)
	neg := c.Eq(c.Bin(OBAnd, a, c.Const(a.w, sb)), c.Const(a.w, sb))
	return c.Ite(neg, c.BVNot(a), c.Bin(OBOr, a, c.Const(a.w, sb)))
}

func (c *TermCtx) FLt(a, b *Term) *Term {
	nn := c.And(c.Not(c.FIsNaN(a)), c.Not(c.FIsNaN(b)))
	zz := c.And(c.fIsZero(a), c.fIsZero(b))
	return c.And(c.And(nn, c.Not(zz)), c.Cmp(OUlt, c.fKey(a), c.fKey(b)))
}

func (c *TermCtx) FLe(a, b *Term) *Term {
	return c.Or(c.FLt(a, b), c.FEq(a, b))
}

func (c *TermCtx) Conv(op Op, w uint8, a *Term) *Term {
	if a.isConst() {
		return c.Const(w, foldConv(op, w, a.k, a.w))
	}
	return c.raw(op, w, a, nil, nil, 0, "")
}

func foldConv(op Op, w uint8, k uint64, aw uint8) uint64 {
	switch op {
	case OFFromS:
		if w == 32 {
			return uint64(math.Float32bits(float32(sext(k, aw))))
		}
		return math.Float64bits(float64(sext(k, aw)))
	case OFFromU:
		if w == 32 {
			return uint64(math.Float32bits(float32(k)))
		}
		return math.Float64bits(float64(k))
	case OFToS64:
		var f float64
		if aw == 32 {
			f = float64(math.Float32frombits(uint32(k)))
		} else {
			f = math.Float64frombits(k)
		}
		if f != f || f >= 9223372036854775808.0 || f < -9223372036854775808.0 {
			return 1 << 63
		}
		return uint64(int64(f))
	case OF32to64:
		return math.Float64bits(float64(math.Float32frombits(uint32(k))))
	case OF64to32:
		return uint64(math.Float32bits(float32(math.Float64frombits(k))))
	}
	panic("foldConv")
}

// ---- evaluation under a model ----

type Model map[string]uint64

func (c *TermCtx) Eval(t *Term, m Model) uint64 {
	c.evGen++
	return c.eval(t, m)
}

func (c *TermCtx) EvalMore(t *Term, m Model) uint64 { return c.eval(t, m) }

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (c *TermCtx) eval(t *Term, m Model) uint64 {
	if t.op == OConst {
		return t.k
	}
	if t.evGen == c.evGen {
		return t.evVal
	}
	var r uint64
	switch t.op {
	case OVar:
		if t == c.evVar {
			r = c.evOver
		} else {
			r = m[t.name] & mask(t.w)
		}
	case ONot:
		r = 1 - c.eval(t.a, m)
	case OAnd:
		r = c.eval(t.a, m)
		if r != 0 {
			r = c.eval(t.b, m)
		}
	case OOr:
		r = c.eval(t.a, m)
		if r == 0 {
			r = c.eval(t.b, m)
		}
	case OEq:
		r = b2u(c.eval(t.a, m) == c.eval(t.b, m))
	case OIte:
		if c.eval(t.a, m) != 0 {
			r = c.eval(t.b, m)
		} else {
			r = c.eval(t.c, m)
		}
	case OBNot:
		r = ^c.eval(t.a, m) & mask(t.w)
	case ONeg:
		r = -c.eval(t.a, m) & mask(t.w)
	case OExtract:
		r = (c.eval(t.a, m) >> (t.k & 0xff)) & mask(t.w)
	case OZExt:
		r = c.eval(t.a, m)
	case OSExt:
		r = uint64(sext(c.eval(t.a, m), t.a.w)) & mask(t.w)
	case OUlt:
		r = b2u(c.eval(t.a, m) < c.eval(t.b, m))
	case OUle:
		r = b2u(c.eval(t.a, m) <= c.eval(t.b, m))
	case OSlt:
		r = b2u(sext(c.eval(t.a, m), t.a.w) < sext(c.eval(t.b, m), t.b.w))
	case OSle:
		r = b2u(sext(c.eval(t.a, m), t.a.w) <= sext(c.eval(t.b, m), t.b.w))
	case OFFromS, OFFromU, OFToS64, OF32to64, OF64to32:
		r = foldConv(t.op, t.w, c.eval(t.a, m), t.a.w)
	default:
		r = foldBin(t.op, t.w, c.eval(t.a, m), c.eval(t.b, m))
	}
	t.evGen = c.evGen
	t.evVal = r
	return r
}

// ---- SMT-LIB printing ----

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.k != 0 {
				return "true"
			}
			return "false"
		}
		if t.w%4 == 0 {
			return fmt.Sprintf("#x%0*x", int(t.w)/4, t.k)
		}
		return fmt.Sprintf("#b%0*b", int(t.w), t.k)
	case OVar:
		return "v" + strconv.Itoa(int(t.id))
	}
	return "t" + strconv.Itoa(int(t.id))
}

func fpSort(w uint8) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

func toFP(t *Term) string { return "((_ to_fp " + fpSort(t.w) + ") " + t.ref() + ")" }

func (t *Term) body() string {
	switch t.op {
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.k>>8, t.k&0xff, t.a.ref())
	case OZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OFAdd, OFSub, OFMul, OFDiv:
		n := map[Op]string{OFAdd: "fp.add", OFSub: "fp.sub", OFMul: "fp.mul", OFDiv: "fp.div"}[t.op]
		return fmt.Sprintf("(fp.to_ieee_bv (%s RNE %s %s))", n, toFP(t.a), toFP(t.b))
	case OFFromS:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fpSort(t.w), t.a.ref())
	case OFFromU:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp_unsigned %s) RNE %s))", fpSort(t.w), t.a.ref())
	case OFToS64:
		f := toFP(t.a)
		lim := "((_ to_fp " + fpSort(t.a.w) + ") RNE 9223372036854775808.0)"
		nlim := "((_ to_fp " + fpSort(t.a.w) + ") RNE (- 9223372036854775808.0))"
		return fmt.Sprintf("(ite (or (fp.isNaN %s) (fp.geq %s %s) (fp.lt %s %s)) #x8000000000000000 ((_ fp.to_sbv 64) RTZ %s))",
			f, f, lim, f, nlim, f)
	case OF32to64:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp 11 53) RNE %s))", toFP(t.a))
	case OF64to32:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp 8 24) RNE %s))", toFP(t.a))
	}
	s := "(" + opNames[t.op] + " " + t.a.ref()
	if t.b != nil {
		s += " " + t.b.ref()
	}
	if t.c != nil {
		s += " " + t.c.ref()
	}
	return s + ")"
}

// collectVars appends the variables t depends on.
func collectVars(t *Term, seen map[*Term]bool, out *[]*Term) {
	if t == nil || seen[t] || t.op == OConst {
		return
	}
	seen[t] = true
	if t.op == OVar {
		*out = append(*out, t)
		return
	}
	collectVars(t.a, seen, out)
	collectVars(t.b, seen, out)
	collectVars(t.c, seen, out)
}
