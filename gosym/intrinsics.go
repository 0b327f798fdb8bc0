package main

// Models for functions that are not interpreted from source.

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"unicode"
)

type intrinsic struct {
	f    func(in *Interp, fr *frame, args []Value) Value
	pure bool
}

var intrinsics = map[string]*intrinsic{}

func reg(name string, f func(in *Interp, fr *frame, a []Value) Value) {
	intrinsics[name] = &intrinsic{f: f}
}

func regPure(name string, f func(in *Interp, fr *frame, a []Value) Value) {
	intrinsics[name] = &intrinsic{f: f, pure: true}
}

const symPkg = modPath + "/zzverif/sym."

func (in *Interp) errorString(s Value) Value {
	p := in.P.pkgs["errors"]
	t := in.ptrTo(p.Type("errorString").Type())
	slot := new(Value)
	*slot = &Agg{f: []Value{s}}
	return Iface{t: t, v: Ptr(slot)}
}

func (in *Interp) anySlice(v Value) []Value {
	s, _ := v.([]Value)
	return s
}

func symName(in *Interp, v Value) string {
	s, ok := in.concreteStr(v)
	if !ok {
		panic(unsupported("symbolic input name"))
	}
	return s
}

func init() {
	// ---- sym: the harness interface ----
	scalar := func(w uint8) func(in *Interp, fr *frame, a []Value) Value {
		return func(in *Interp, fr *frame, a []Value) Value {
			return in.newInput(symName(in, a[0]), w)
		}
	}
	reg(symPkg+"Int64", scalar(64))
	reg(symPkg+"Uint64", scalar(64))
	reg(symPkg+"Uint32", scalar(32))
	reg(symPkg+"Int32", scalar(32))
	reg(symPkg+"Int16", scalar(16))
	reg(symPkg+"Int8", scalar(8))
	reg(symPkg+"Byte", scalar(8))
	reg(symPkg+"Float64", scalar(64))
	reg(symPkg+"Float32", scalar(32))
	reg(symPkg+"Bool", func(in *Interp, fr *frame, a []Value) Value {
		t := in.newInput(symName(in, a[0]), 8)
		return fromTerm(in.tc.Eq(in.tc.Extract(0, 0, t), in.tc.Const(1, 1)))
	})
	reg(symPkg+"Bytes", func(in *Interp, fr *frame, a []Value) Value {
		n := in.intOf(a[1], intKind)
		s := make([]Value, n)
		for i := range s {
			s[i] = in.newInput(symName(in, a[0]), 8)
		}
		return s
	})
	reg(symPkg+"String", func(in *Interp, fr *frame, a []Value) Value {
		n := in.intOf(a[1], intKind)
		s := make([]Value, n)
		for i := range s {
			s[i] = in.newInput(symName(in, a[0]), 8)
		}
		return mkStr(s)
	})
	reg(symPkg+"Choose", func(in *Interp, fr *frame, a []Value) Value {
		return uint64(in.choose(symName(in, a[0]), in.intOf(a[1], intKind)))
	})
	reg(symPkg+"Param", func(in *Interp, fr *frame, a []Value) Value {
		if v, ok := in.ex.params[symName(in, a[0])]; ok {
			return uint64(v)
		}
		return a[1]
	})
	reg(symPkg+"Assume", func(in *Interp, fr *frame, a []Value) Value {
		in.assume(a[0])
		return nil
	})
	reg(symPkg+"Assert", func(in *Interp, fr *frame, a []Value) Value {
		in.assert(a[0], symName(in, a[1]), "", "")
		return nil
	})
	reg(symPkg+"Fail", func(in *Interp, fr *frame, a []Value) Value {
		in.assert(false, symName(in, a[0]), "", "")
		return nil
	})
	reg(symPkg+"AssertKnown", func(in *Interp, fr *frame, a []Value) Value {
		// violations inside the region belong to a listed finding
		id := symName(in, a[2])
		if in.branch(a[3]) {
			in.assert(a[0], symName(in, a[1]), "", id)
		} else {
			in.assert(a[0], symName(in, a[1]), "", "")
		}
		return nil
	})
	reg(symPkg+"Reach", func(in *Interp, fr *frame, a []Value) Value {
		l := symName(in, a[0])
		in.ex.mu.Lock()
		in.ex.reach[l]++
		in.ex.mu.Unlock()
		return nil
	})
	reg(symPkg+"Observe", func(in *Interp, fr *frame, a []Value) Value {
		in.obs = append(in.obs, observation{label: symName(in, a[0]), vals: []Value{a[1]}})
		return nil
	})
	reg(symPkg+"ObserveStr", func(in *Interp, fr *frame, a []Value) Value {
		if _, lazy := a[1].(*LazyStr); lazy {
			return nil
		}
		in.obs = append(in.obs, observation{label: symName(in, a[0]), vals: in.strBytes(a[1]), str: true})
		return nil
	})
	reg(symPkg+"Yield", func(in *Interp, fr *frame, a []Value) Value {
		in.yield()
		return nil
	})
	reg(symPkg+"Go", func(in *Interp, fr *frame, a []Value) Value {
		in.spawn(a[0], nil)
		return nil
	})
	reg(symPkg+"Symbolic", func(in *Interp, fr *frame, a []Value) Value { return true })
	reg(symPkg+"MapOrders", func(in *Interp, fr *frame, a []Value) Value {
		in.mapPerm = a[0].(bool)
		return nil
	})
	reg(symPkg+"Preempt", func(in *Interp, fr *frame, a []Value) Value {
		in.preemptMax = in.intOf(a[0], intKind)
		return nil
	})
	reg(symPkg+"Stop", func(in *Interp, fr *frame, a []Value) Value { panic(pathEnd{"assume"}) })
	reg(symPkg+"Cut", func(in *Interp, fr *frame, a []Value) Value { panic(pathEnd{"harness bound: " + symName(in, a[0])}) })
	reg(symPkg+"Concrete", func(in *Interp, fr *frame, a []Value) Value {
		if t, ok := a[0].(*Term); ok {
			return in.concretizeFork(t)
		}
		return a[0]
	})
	boolOp := func(f func(tc *TermCtx, a, b *Term) *Term) func(in *Interp, fr *frame, a []Value) Value {
		return func(in *Interp, fr *frame, a []Value) Value {
			return fromTerm(f(in.tc, in.tb(a[0]), in.tb(a[1])))
		}
	}
	regPure(symPkg+"And", boolOp(func(tc *TermCtx, a, b *Term) *Term { return tc.And(a, b) }))
	regPure(symPkg+"Or", boolOp(func(tc *TermCtx, a, b *Term) *Term { return tc.Or(a, b) }))
	regPure(symPkg+"Implies", boolOp(func(tc *TermCtx, a, b *Term) *Term { return tc.Or(tc.Not(a), b) }))
	regPure(symPkg+"Iff", boolOp(func(tc *TermCtx, a, b *Term) *Term { return tc.Eq(a, b) }))
	regPure(symPkg+"IteInt64", func(in *Interp, fr *frame, a []Value) Value {
		return fromTerm(in.tc.Ite(in.tb(a[0]), in.tm(a[1], 64), in.tm(a[2], 64)))
	})
	regPure(symPkg+"BytesEq", func(in *Interp, fr *frame, a []Value) Value {
		return in.bytesEq(in.anySlice(a[0]), in.anySlice(a[1]))
	})
	regPure(symPkg+"BytesLess", func(in *Interp, fr *frame, a []Value) Value {
		return in.bytesLess(in.anySlice(a[0]), in.anySlice(a[1]), false)
	})
	regPure(symPkg+"StrEq", func(in *Interp, fr *frame, a []Value) Value { return in.strEq(a[0], a[1]) })
	reg(symPkg+"FloatBits", func(in *Interp, fr *frame, a []Value) Value { return a[0] })

	// ---- math ----
	ident := func(in *Interp, fr *frame, a []Value) Value { return a[0] }
	for _, n := range []string{"math.Float64bits", "math.Float64frombits", "math.Float32bits", "math.Float32frombits"} {
		regPure(n, ident)
	}
	regPure("math.IsNaN", func(in *Interp, fr *frame, a []Value) Value { return fromTerm(in.tc.FIsNaN(in.tm(a[0], 64))) })
	regPure("math.Abs", func(in *Interp, fr *frame, a []Value) Value {
		return fromTerm(in.tc.Bin(OBAnd, in.tm(a[0], 64), in.tc.Const(64, ^(uint64(1)<<63))))
	})
	mathf := func(f func(float64) float64) func(in *Interp, fr *frame, a []Value) Value {
		return func(in *Interp, fr *frame, a []Value) Value {
			return math.Float64bits(f(math.Float64frombits(in.concretize(a[0]))))
		}
	}
	reg("math.Floor", mathf(math.Floor))
	reg("math.Ceil", mathf(math.Ceil))
	reg("math.Trunc", mathf(math.Trunc))
	reg("math.Sqrt", mathf(math.Sqrt))
	reg("math.Round", mathf(math.Round))

	// ---- bytes and strings kernels ----
	cmp3 := func(in *Interp, xb, yb []Value) Value {
		lt := in.tb(in.bytesLess(xb, yb, false))
		eq := in.tb(in.bytesEq(xb, yb))
		return fromTerm(in.tc.Ite(lt, in.tc.Const(64, ^uint64(0)), in.tc.Ite(eq, in.tc.Const(64, 0), in.tc.Const(64, 1))))
	}
	bb := func(f func(in *Interp, x, y []Value) Value) func(in *Interp, fr *frame, a []Value) Value {
		return func(in *Interp, fr *frame, a []Value) Value {
			x, y := in.anySlice(a[0]), in.anySlice(a[1])
			if in.raceOn {
				for i := range x {
					in.raceAccess(ptrOfV(&x[i]), false)
				}
				for i := range y {
					in.raceAccess(ptrOfV(&y[i]), false)
				}
			}
			return f(in, x, y)
		}
	}
	regPure("bytes.Compare", bb(cmp3))
	regPure("internal/bytealg.Compare", bb(cmp3))
	regPure("bytes.Equal", bb(func(in *Interp, x, y []Value) Value { return in.bytesEq(x, y) }))
	regPure("internal/bytealg.Equal", bb(func(in *Interp, x, y []Value) Value { return in.bytesEq(x, y) }))
	cmps := func(in *Interp, fr *frame, a []Value) Value {
		x, y := in.force(a[0]), in.force(a[1])
		if s, ok := x.(string); ok {
			if t, ok := y.(string); ok {
				return uint64(int64(strings.Compare(s, t)))
			}
		}
		return cmp3(in, in.strBytes(x), in.strBytes(y))
	}
	regPure("strings.Compare", cmps)
	regPure("internal/bytealg.CompareString", cmps)
	regPure("runtime.cmpstring", cmps)
	indexByte := func(in *Interp, s []Value, c Value) Value {
		r := in.tc.Const(64, ^uint64(0))
		for i := len(s) - 1; i >= 0; i-- {
			r = in.tc.Ite(in.tb(in.scalarEq(s[i], c, 8)), in.tc.Const(64, uint64(i)), r)
		}
		return fromTerm(r)
	}
	reg("internal/bytealg.IndexByte", func(in *Interp, fr *frame, a []Value) Value { return indexByte(in, in.anySlice(a[0]), a[1]) })
	reg("internal/bytealg.IndexByteString", func(in *Interp, fr *frame, a []Value) Value { return indexByte(in, in.strBytes(a[0]), a[1]) })
	lastIndexByte := func(in *Interp, s []Value, c Value) Value {
		r := in.tc.Const(64, ^uint64(0))
		for i := 0; i < len(s); i++ {
			r = in.tc.Ite(in.tb(in.scalarEq(s[i], c, 8)), in.tc.Const(64, uint64(i)), r)
		}
		return fromTerm(r)
	}
	reg("internal/bytealg.LastIndexByte", func(in *Interp, fr *frame, a []Value) Value { return lastIndexByte(in, in.anySlice(a[0]), a[1]) })
	reg("internal/bytealg.LastIndexByteString", func(in *Interp, fr *frame, a []Value) Value { return lastIndexByte(in, in.strBytes(a[0]), a[1]) })
	count := func(in *Interp, s []Value, c Value) Value {
		r := in.tc.Const(64, 0)
		for i := range s {
			r = in.tc.Bin(OAdd, r, in.tc.Ite(in.tb(in.scalarEq(s[i], c, 8)), in.tc.Const(64, 1), in.tc.Const(64, 0)))
		}
		return fromTerm(r)
	}
	reg("internal/bytealg.Count", func(in *Interp, fr *frame, a []Value) Value { return count(in, in.anySlice(a[0]), a[1]) })
	reg("internal/bytealg.CountString", func(in *Interp, fr *frame, a []Value) Value { return count(in, in.strBytes(a[0]), a[1]) })
	index := func(in *Interp, s, sub []Value) Value {
		r := in.tc.Const(64, ^uint64(0))
		for i := len(s) - len(sub); i >= 0; i-- {
			r = in.tc.Ite(in.tb(in.bytesEq(s[i:i+len(sub)], sub)), in.tc.Const(64, uint64(i)), r)
		}
		return fromTerm(r)
	}
	reg("internal/bytealg.Index", func(in *Interp, fr *frame, a []Value) Value { return index(in, in.anySlice(a[0]), in.anySlice(a[1])) })
	reg("internal/bytealg.IndexString", func(in *Interp, fr *frame, a []Value) Value { return index(in, in.strBytes(a[0]), in.strBytes(a[1])) })
	reg("strings.Index", func(in *Interp, fr *frame, a []Value) Value { return index(in, in.strBytes(a[0]), in.strBytes(a[1])) })
	reg("bytes.Index", func(in *Interp, fr *frame, a []Value) Value { return index(in, in.anySlice(a[0]), in.anySlice(a[1])) })
	reg("internal/bytealg.MakeNoZero", func(in *Interp, fr *frame, a []Value) Value {
		n := in.intOf(a[0], intKind)
		return in.makeSlice(types.Typ[types.Uint8], n, roundupsize(n))[:n]
	})
	reg("(*strings.Builder).copyCheck", func(in *Interp, fr *frame, a []Value) Value { return nil })
	reg("(*strings.Builder).String", func(in *Interp, fr *frame, a []Value) Value {
		p := a[0].(Ptr)
		if p == nil {
			in.throwNil()
		}
		return mkStr(in.builderBuf(p))
	})
	reg("strings.Clone", ident)
	reg("unique.Make", func(in *Interp, fr *frame, a []Value) Value { panic(unsupported("unique.Make")) })

	caseMap := func(name string, native func(string) string, lo, hi byte, delta uint64) {
		reg("strings."+name, func(in *Interp, fr *frame, a []Value) Value {
			if s, ok := in.concreteStr(a[0]); ok {
				return native(s)
			}
			b := in.strBytes(a[0])
			asc := in.tc.True
			for _, x := range b {
				asc = in.tc.And(asc, in.tc.Cmp(OUlt, in.tm(x, 8), in.tc.Const(8, 0x80)))
			}
			if in.branch(fromTerm(asc)) {
				out := make([]Value, len(b))
				for i, x := range b {
					t := in.tm(x, 8)
					isC := in.tc.And(in.tc.Cmp(OUle, in.tc.Const(8, uint64(lo)), t), in.tc.Cmp(OUle, t, in.tc.Const(8, uint64(hi))))
					out[i] = fromTerm(in.tc.Ite(isC, in.tc.Bin(OAdd, t, in.tc.Const(8, delta)), t))
				}
				return mkStr(out)
			}
			// non-ASCII: strings.Map(unicode.ToX, s)
			var out []Value
			it := &strIter{s: in.force(a[0])}
			fn := "To" + strings.TrimPrefix(name, "To")
			for {
				t := in.next(fr, nil, it).(Tuple)
				if !t[0].(bool) {
					break
				}
				r := in.callNamed(fr, "unicode", fn, t[2])
				out = append(out, in.encodeRune(fr, r)...)
			}
			return mkStr(out)
		})
	}
	caseMap("ToUpper", strings.ToUpper, 'a', 'z', 0xe0)
	caseMap("ToLower", strings.ToLower, 'A', 'Z', 0x20)

	// ---- unicode classes as terms ----
	class := func(name string, f func(rune) bool) {
		ranges := [][2]rune{}
		start := rune(-1)
		for r := rune(0); r <= unicode.MaxRune+1; r++ {
			if r <= unicode.MaxRune && f(r) {
				if start < 0 {
					start = r
				}
			} else if start >= 0 {
				ranges = append(ranges, [2]rune{start, r - 1})
				start = -1
			}
		}
		regPure("unicode."+name, func(in *Interp, fr *frame, a []Value) Value {
			switch x := a[0].(type) {
			case uint64:
				return f(rune(int32(uint32(x))))
			case *Term:
				r := in.tc.False
				for _, g := range ranges {
					if uint64(g[0]) > x.hi {
						break
					}
					lo, hi := in.tc.Const(32, uint64(g[0])), in.tc.Const(32, uint64(g[1]))
					if g[0] == g[1] {
						r = in.tc.Or(r, in.tc.Eq(x, lo))
					} else {
						r = in.tc.Or(r, in.tc.And(in.tc.Cmp(OUle, lo, x), in.tc.Cmp(OUle, x, hi)))
					}
				}
				return fromTerm(r)
			}
			panic("unicode class")
		})
	}
	class("IsLetter", unicode.IsLetter)
	class("IsDigit", unicode.IsDigit)
	class("IsSpace", unicode.IsSpace)
	class("IsUpper", unicode.IsUpper)
	class("IsLower", unicode.IsLower)
	class("IsNumber", unicode.IsNumber)
	class("IsPrint", unicode.IsPrint)
	class("IsControl", unicode.IsControl)
	class("IsPunct", unicode.IsPunct)
	class("IsGraphic", unicode.IsGraphic)
	// Case mapping as a term: runs of characters with the same distance to
	// their image, every one or every other one.
	conv := func(name string, f func(rune) rune) {
		type run struct {
			lo, hi, step rune
			delta        uint64
		}
		var runs []run
		for r := rune(0); r <= unicode.MaxRune; r++ {
			d := uint64(uint32(f(r) - r))
			if d == 0 {
				continue
			}
			if n := len(runs) - 1; n >= 0 && runs[n].delta == d {
				g := &runs[n]
				gap := r - g.hi
				if (gap == 1 || gap == 2) && (g.lo == g.hi || gap == g.step) {
					g.hi, g.step = r, gap
					continue
				}
			}
			runs = append(runs, run{r, r, 1, d})
		}
		reg("unicode."+name, func(in *Interp, fr *frame, a []Value) Value {
			if x, ok := a[0].(uint64); ok {
				return uint64(uint32(f(rune(int32(uint32(x))))))
			}
			t := a[0].(*Term)
			delta := in.tc.Const(32, 0)
			for _, g := range runs {
				if uint64(g.hi) < t.lo || uint64(g.lo) > t.hi {
					continue
				}
				is := in.tc.And(in.tc.Cmp(OUle, in.tc.Const(32, uint64(g.lo)), t), in.tc.Cmp(OUle, t, in.tc.Const(32, uint64(g.hi))))
				if g.step == 2 {
					is = in.tc.And(is, in.tc.Eq(in.tc.Bin(OBAnd, t, in.tc.Const(32, 1)), in.tc.Const(32, uint64(g.lo&1))))
				}
				delta = in.tc.Ite(is, in.tc.Const(32, g.delta), delta)
			}
			return fromTerm(in.tc.Bin(OAdd, t, delta))
		})
	}
	conv("ToUpper", unicode.ToUpper)
	conv("ToLower", unicode.ToLower)
	conv("SimpleFold", unicode.SimpleFold)
	conv("ToTitle", unicode.ToTitle)

	// ---- strconv ----
	fmtInt := func(in *Interp, fr *frame, v Value, signed bool, base int) Value {
		return in.formatInt(v, signed, base)
	}
	reg("strconv.Itoa", func(in *Interp, fr *frame, a []Value) Value { return fmtInt(in, fr, a[0], true, 10) })
	reg("strconv.FormatInt", func(in *Interp, fr *frame, a []Value) Value {
		return fmtInt(in, fr, a[0], true, in.intOf(a[1], intKind))
	})
	reg("strconv.FormatUint", func(in *Interp, fr *frame, a []Value) Value {
		return fmtInt(in, fr, a[0], false, in.intOf(a[1], intKind))
	})
	reg("strconv.FormatFloat", func(in *Interp, fr *frame, a []Value) Value {
		f := math.Float64frombits(in.concretize(a[0]))
		return strconv.FormatFloat(f, byte(in.concretize(a[1])), in.intOf(a[2], intKind), in.intOf(a[3], intKind))
	})
	reg("strconv.Quote", func(in *Interp, fr *frame, a []Value) Value {
		return &LazyStr{f: func() Value { return strconv.Quote(in.mustStr(a[0])) }}
	})
	reg("strconv.ParseFloat", func(in *Interp, fr *frame, a []Value) Value {
		bits := in.intOf(a[1], intKind)
		if v, ok := in.parseFloatDigits(a[0], bits); ok {
			return Tuple{v, Iface{}}
		}
		f, err := strconv.ParseFloat(in.mustStr(a[0]), bits)
		if err != nil {
			return Tuple{math.Float64bits(f), in.errorString(err.Error())}
		}
		return Tuple{math.Float64bits(f), Iface{}}
	})

	// ---- errors ----
	reg("internal/stringslite.Clone", func(in *Interp, fr *frame, a []Value) Value { return a[0] })
	reg("errors.Is", func(in *Interp, fr *frame, a []Value) Value { return in.errorsIs(fr, a[0].(Iface), a[1].(Iface)) })
	reg("errors.As", func(in *Interp, fr *frame, a []Value) Value { return in.errorsAs(fr, a[0].(Iface), a[1].(Iface)) })
	sortSlice := func(in *Interp, fr *frame, a []Value) Value {
		s, _ := a[0].(Iface).v.([]Value)
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				if !in.branch(in.callValue(fr, a[1], []Value{uint64(j), uint64(j - 1)})) {
					break
				}
				s[j], s[j-1] = s[j-1], s[j]
			}
		}
		return nil
	}
	reg("sort.Slice", sortSlice)
	reg("sort.SliceStable", sortSlice)
	reg("slices.overlaps", func(in *Interp, fr *frame, a []Value) Value {
		x, y := a[0].([]Value), a[1].([]Value)
		for i := range x {
			for j := range y {
				if &x[i] == &y[j] {
					return true
				}
			}
		}
		return false
	})

	// ---- runtime, os ----
	nop := func(in *Interp, fr *frame, a []Value) Value { return nil }
	reg("runtime.KeepAlive", nop)
	reg("runtime.GC", nop)
	reg("runtime.Gosched", func(in *Interp, fr *frame, a []Value) Value { in.yield(); return nil })
	reg("runtime.SetFinalizer", nop)
	reg("runtime.NumGoroutine", func(in *Interp, fr *frame, a []Value) Value { return uint64(len(in.gs)) })
	reg("internal/race.Enable", nop)
	reg("internal/godebug.New", func(in *Interp, fr *frame, a []Value) Value { return Ptr(new(Value)) })
	reg("(*internal/godebug.Setting).Value", func(in *Interp, fr *frame, a []Value) Value { return "" })
	reg("(*internal/godebug.Setting).IncNonDefault", nop)
	reg("context.Background", func(in *Interp, fr *frame, a []Value) Value {
		t := in.canon(in.P.pkgs["context"].Type("backgroundCtx").Type())
		return Iface{t: t, v: in.zero(t)}
	})
	reg("context.TODO", func(in *Interp, fr *frame, a []Value) Value {
		t := in.canon(in.P.pkgs["context"].Type("backgroundCtx").Type())
		return Iface{t: t, v: in.zero(t)}
	})

	// ---- sync ----
	reg("(*sync.Mutex).Lock", func(in *Interp, fr *frame, a []Value) Value { in.mutexLock(fr, a[0].(Ptr)); return nil })
	reg("(*sync.Mutex).TryLock", func(in *Interp, fr *frame, a []Value) Value { return in.mutexTryLock(fr, a[0].(Ptr)) })
	reg("(*sync.Mutex).Unlock", func(in *Interp, fr *frame, a []Value) Value { in.mutexUnlock(a[0].(Ptr)); return nil })
	reg("(*sync.RWMutex).Lock", func(in *Interp, fr *frame, a []Value) Value { in.mutexLock(fr, a[0].(Ptr)); return nil })
	reg("(*sync.RWMutex).Unlock", func(in *Interp, fr *frame, a []Value) Value { in.mutexUnlock(a[0].(Ptr)); return nil })
	reg("(*sync.RWMutex).TryLock", func(in *Interp, fr *frame, a []Value) Value { return in.mutexTryLock(fr, a[0].(Ptr)) })
	reg("(*sync.RWMutex).RLock", func(in *Interp, fr *frame, a []Value) Value { in.rLock(fr, a[0].(Ptr)); return nil })
	reg("(*sync.RWMutex).RUnlock", func(in *Interp, fr *frame, a []Value) Value { in.rUnlock(a[0].(Ptr)); return nil })
	reg("(*sync.RWMutex).TryRLock", func(in *Interp, fr *frame, a []Value) Value { return in.tryRLock(fr, a[0].(Ptr)) })
	reg("(*sync.Cond).Wait", func(in *Interp, fr *frame, a []Value) Value { in.condWait(fr, a[0].(Ptr)); return nil })
	reg("(*sync.Cond).Signal", func(in *Interp, fr *frame, a []Value) Value { in.condSignal(a[0].(Ptr), false); return nil })
	reg("(*sync.Cond).Broadcast", func(in *Interp, fr *frame, a []Value) Value { in.condSignal(a[0].(Ptr), true); return nil })
	reg("(*sync.WaitGroup).Add", func(in *Interp, fr *frame, a []Value) Value {
		in.wgAdd(a[0].(Ptr), in.intOf(a[1], intKind))
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(in *Interp, fr *frame, a []Value) Value { in.wgAdd(a[0].(Ptr), -1); return nil })
	reg("(*sync.WaitGroup).Wait", func(in *Interp, fr *frame, a []Value) Value { in.wgWait(fr, a[0].(Ptr)); return nil })
	reg("(*sync.Pool).Get", func(in *Interp, fr *frame, a []Value) Value {
		p := *(a[0].(Ptr))
		st := in.P.pkgs["sync"].Type("Pool").Type().Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" {
				f := p.(*Agg).f[i].(*Closure)
				if f == nil {
					return Iface{}
				}
				return in.callValue(fr, f, nil)
			}
		}
		return Iface{}
	})
	reg("(*sync.Pool).Put", nop)
	reg("(*sync.Once).Do", func(in *Interp, fr *frame, a []Value) Value {
		p := a[0].(Ptr)
		in.yieldAt(fr)
		o, _ := in.nativeObj[p].(*onceState)
		// Once objects completed during initialisation stay completed
		if o == nil {
			o = &onceState{}
			in.nativeObj[p] = o
		}
		if o.done {
			in.atomicJoin(p)
			return nil
		}
		if o.running != nil {
			in.block(func() bool { return o.done })
			in.atomicJoin(p)
			return nil
		}
		o.running = in.curG
		in.callValue(fr, a[1], nil)
		o.done = true
		in.atomicJoin(p)
		return nil
	})
	at := func(n string, f func(in *Interp, p Ptr, a []Value) Value) {
		h := func(in *Interp, fr *frame, a []Value) Value {
			p, _ := a[0].(Ptr)
			if p == nil {
				in.throwNil()
			}
			in.atomicSync(fr, p)
			return f(in, p, a)
		}
		reg("sync/atomic."+n, h)
		reg("internal/runtime/atomic."+n, h)
	}
	raw := func(in *Interp, p Ptr, f func()) {
		r := in.raceOn
		in.raceOn = false
		f()
		in.raceOn = r
	}
	for _, ty := range []struct {
		n string
		w uint8
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}} {
		w := ty.w
		at("Load"+ty.n, func(in *Interp, p Ptr, a []Value) Value { return *p })
		at("Store"+ty.n, func(in *Interp, p Ptr, a []Value) Value { raw(in, p, func() { in.store(p, a[1]) }); return nil })
		at("Add"+ty.n, func(in *Interp, p Ptr, a []Value) Value {
			v := fromTerm(in.tc.Bin(OAdd, in.tm(*p, w), in.tm(a[1], w)))
			raw(in, p, func() { in.store(p, v) })
			return v
		})
		at("Swap"+ty.n, func(in *Interp, p Ptr, a []Value) Value {
			o := *p
			raw(in, p, func() { in.store(p, a[1]) })
			return o
		})
		at("CompareAndSwap"+ty.n, func(in *Interp, p Ptr, a []Value) Value {
			if in.branch(in.scalarEq(*p, a[1], w)) {
				raw(in, p, func() { in.store(p, a[2]) })
				return true
			}
			return false
		})
		at("And"+ty.n, func(in *Interp, p Ptr, a []Value) Value {
			o := *p
			v := fromTerm(in.tc.Bin(OBAnd, in.tm(*p, w), in.tm(a[1], w)))
			raw(in, p, func() { in.store(p, v) })
			return o
		})
		at("Or"+ty.n, func(in *Interp, p Ptr, a []Value) Value {
			o := *p
			v := fromTerm(in.tc.Bin(OBOr, in.tm(*p, w), in.tm(a[1], w)))
			raw(in, p, func() { in.store(p, v) })
			return o
		})
	}
	at("LoadPointer", func(in *Interp, p Ptr, a []Value) Value { return *p })
	at("StorePointer", func(in *Interp, p Ptr, a []Value) Value { raw(in, p, func() { in.store(p, a[1]) }); return nil })
	at("CompareAndSwapPointer", func(in *Interp, p Ptr, a []Value) Value {
		if *p == a[1] {
			raw(in, p, func() { in.store(p, a[2]) })
			return true
		}
		return false
	})
	reg("(*sync/atomic.Value).Load", func(in *Interp, fr *frame, a []Value) Value {
		p := a[0].(Ptr)
		in.atomicSync(fr, p)
		return (*p).(*Agg).f[0]
	})
	reg("(*sync/atomic.Value).Store", func(in *Interp, fr *frame, a []Value) Value {
		p := a[0].(Ptr)
		in.atomicSync(fr, p)
		raw(in, p, func() { in.setSlot(&(*p).(*Agg).f[0], a[1]) })
		return nil
	})
}

type onceState struct {
	running *G
	done    bool
}

func (in *Interp) atomicJoin(p Ptr) {
	if len(in.gs) < 2 {
		return
	}
	v := in.syncVC[p]
	if v == nil {
		v = VC{}
		in.syncVC[p] = v
	}
	in.curG.vc.join(v)
	v.join(in.curG.vc)
	in.curG.vc[in.curG.id]++
}

func (in *Interp) builderBuf(p Ptr) []Value {
	st := in.P.pkgs["strings"].Type("Builder").Type().Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "buf" {
			return (*p).(*Agg).f[i].([]Value)
		}
	}
	panic(unsupported("strings.Builder layout"))
}

// formatInt renders an integer in base 10 (symbolic) or any base (concrete).
func (in *Interp) formatInt(v Value, signed bool, base int) Value {
	if u, ok := v.(uint64); ok {
		if signed {
			return strconv.FormatInt(int64(u), base)
		}
		return strconv.FormatUint(u, base)
	}
	t := v.(*Term)
	tc := in.tc
	neg := false
	if signed && in.branch(fromTerm(tc.Cmp(OSlt, t, tc.Const(t.w, 0)))) {
		neg = true
		t = tc.Neg(t)
	}
	// number of digits
	b := uint64(base)
	n := 1
	lim := b
	for {
		if in.branch(fromTerm(tc.Cmp(OUlt, t, tc.Const(t.w, lim)))) {
			break
		}
		n++
		if lim > math.MaxUint64/b || (t.w < 64 && lim*b > mask(t.w)) {
			break
		}
		lim *= b
	}
	out := make([]Value, n)
	for i := n - 1; i >= 0; i-- {
		d := tc.Bin(OURem, t, tc.Const(t.w, b))
		t = tc.Bin(OUDiv, t, tc.Const(t.w, b))
		d8 := tc.Resize(d, 8, false)
		ch := tc.Bin(OAdd, d8, tc.Const(8, '0'))
		if base > 10 {
			ch = tc.Ite(tc.Cmp(OUlt, d8, tc.Const(8, 10)), ch, tc.Bin(OAdd, d8, tc.Const(8, 'a'-10)))
		}
		out[i] = fromTerm(ch)
	}
	if neg {
		out = append([]Value{uint64('-')}, out...)
	}
	return mkStr(out)
}

// parseFloatDigits models strconv.ParseFloat exactly for [+-]D+[.D*] with at most
// 15 significant digits, where the result is mantissa / 10^k correctly rounded
// (both operands exact: the fast path of the real function).
func (in *Interp) parseFloatDigits(s Value, bits int) (Value, bool) {
	if _, ok := in.concreteStr(s); ok || bits != 64 {
		return nil, false
	}
	b := in.strBytes(s)
	sign := uint64(0)
	if len(b) > 0 {
		if u, ok := b[0].(uint64); ok && (u == '-' || u == '+') {
			if u == '-' {
				sign = 1 << 63
			}
			b = b[1:]
		}
	}
	if len(b) == 0 || len(b) > 15 {
		return nil, false
	}
	tc := in.tc
	m := tc.Const(64, 0)
	dot := -1
	nd := 0
	for i, x := range b {
		if u, ok := x.(uint64); ok && u == '.' {
			if dot >= 0 {
				return nil, false
			}
			dot = i
			continue
		}
		t := in.tm(x, 8)
		isD := tc.And(tc.Cmp(OUle, tc.Const(8, '0'), t), tc.Cmp(OUle, t, tc.Const(8, '9')))
		if dot < 0 && !(isD.isConst() && isD.k == 1) {
			if in.branch(fromTerm(tc.Eq(t, tc.Const(8, '.')))) {
				dot = i
				continue
			}
		}
		if !in.branch(fromTerm(isD)) {
			return nil, false
		}
		nd++
		m = tc.Bin(OAdd, tc.Bin(OMul, m, tc.Const(64, 10)), tc.ZExt(64, tc.Bin(OSub, t, tc.Const(8, '0'))))
	}
	if nd == 0 {
		return nil, false
	}
	f := tc.Conv(OFFromU, 64, m)
	if dot >= 0 && len(b)-1-dot > 0 {
		f = tc.Bin(OFDiv, f, tc.Const(64, math.Float64bits(math.Pow10(len(b)-1-dot))))
	}
	if sign != 0 {
		f = tc.Bin(OBXor, f, tc.Const(64, sign))
	}
	return fromTerm(f), true
}

func (in *Interp) errorsIs(fr *frame, err, target Iface) Value {
	for err.t != nil {
		if target.t == err.t && types.Comparable(err.t) {
			if in.branch(in.eqVal(err.t, err.v, target.v)) {
				return true
			}
		}
		u := in.lookupMethodName(err.t, "Unwrap")
		if u == nil {
			return false
		}
		r := in.callFn(fr, u, nil, []Value{err.v})
		i, ok := r.(Iface)
		if !ok {
			if l, ok := r.([]Value); ok {
				for _, e := range l {
					if in.errorsIs(fr, e.(Iface), target) == true {
						return true
					}
				}
			}
			return false
		}
		err = i
	}
	return target.t == nil
}

// errorsAs models errors.As for a target that points to a type.
func (in *Interp) errorsAs(fr *frame, err, target Iface) Value {
	if target.t == nil {
		in.throwRuntime("errors: target cannot be nil")
	}
	pt, ok := target.t.Underlying().(*types.Pointer)
	p, _ := target.v.(Ptr)
	if !ok || p == nil {
		in.throwRuntime("errors: target must be a non-nil pointer")
	}
	et := pt.Elem()
	it, isI := et.Underlying().(*types.Interface)
	for err.t != nil {
		if isI && in.implements(err.t, it, et) {
			in.store(p, err)
			return true
		} else if !isI && types.Identical(err.t, et) {
			in.store(p, err.v)
			return true
		}
		if as := in.lookupMethodName(err.t, "As"); as != nil {
			panic(unsupported("errors.As with an As method"))
		}
		u := in.lookupMethodName(err.t, "Unwrap")
		if u == nil {
			return false
		}
		r := in.callFn(fr, u, nil, []Value{err.v})
		i, ok := r.(Iface)
		if !ok {
			if l, ok := r.([]Value); ok {
				for _, e := range l {
					if in.errorsAs(fr, e.(Iface), target) == true {
						return true
					}
				}
			}
			return false
		}
		err = i
	}
	return false
}

var _ = fmt.Sprint
