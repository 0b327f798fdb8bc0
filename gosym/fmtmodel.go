package main

// fmt: formats by calling interpreted String/Error methods and the native fmt
// for concrete leaves; symbolic text is kept symbolic, symbolic numbers are
// formatted lazily.

import (
	"fmt"
	"go/types"
	"math"
	"strings"
)

func init() {
	reg("fmt.Sprintf", func(in *Interp, fr *frame, a []Value) Value {
		return in.sprintf(fr, a[0], in.anySlice(a[1]))
	})
	reg("fmt.Sprint", func(in *Interp, fr *frame, a []Value) Value { return in.sprint(fr, in.anySlice(a[0]), false) })
	reg("fmt.Sprintln", func(in *Interp, fr *frame, a []Value) Value { return in.sprint(fr, in.anySlice(a[0]), true) })
	reg("fmt.Errorf", func(in *Interp, fr *frame, a []Value) Value {
		args := in.anySlice(a[1])
		s := in.sprintf(fr, a[0], args)
		f := symName(in, a[0])
		if strings.Contains(f, "%w") {
			// find the wrapped operand
			vi := 0
			for i := 0; i+1 < len(f); i++ {
				if f[i] != '%' {
					continue
				}
				i++
				if f[i] == '%' {
					continue
				}
				if f[i] == 'w' {
					if w, ok := args[vi].(Iface); ok && w.t != nil {
						t := in.ptrTo(in.P.pkgs["fmt"].Type("wrapError").Type())
						slot := new(Value)
						*slot = &Agg{f: []Value{s, w}}
						return Iface{t: t, v: Ptr(slot)}
					}
				}
				vi++
			}
		}
		return in.errorString(s)
	})
	out := func(in *Interp, fr *frame, w Iface, s Value) Value {
		b := in.strBytes(s)
		if w.t == nil {
			in.throwNil()
		}
		m := in.lookupMethodName(w.t, "Write")
		if m == nil {
			panic(unsupported("Fprintf to " + w.t.String()))
		}
		return in.callFn(fr, m, nil, []Value{w.v, append([]Value(nil), b...)})
	}
	reg("fmt.Fprintf", func(in *Interp, fr *frame, a []Value) Value {
		return out(in, fr, a[0].(Iface), in.sprintf(fr, a[1], in.anySlice(a[2])))
	})
	reg("fmt.Fprint", func(in *Interp, fr *frame, a []Value) Value {
		return out(in, fr, a[0].(Iface), in.sprint(fr, in.anySlice(a[1]), false))
	})
	reg("fmt.Fprintln", func(in *Interp, fr *frame, a []Value) Value {
		return out(in, fr, a[0].(Iface), in.sprint(fr, in.anySlice(a[1]), true))
	})
	drop := func(in *Interp, fr *frame, a []Value) Value { return Tuple{uint64(0), Iface{}} }
	reg("fmt.Printf", drop)
	reg("fmt.Print", drop)
	reg("fmt.Println", drop)
}

func (in *Interp) sprint(fr *frame, args []Value, ln bool) Value {
	var r Value = ""
	for i, a := range args {
		ia, _ := a.(Iface)
		if i > 0 {
			p, _ := args[i-1].(Iface)
			isS := func(x Iface) bool { return x.t != nil && kindOf(x.t).str }
			if ln || (!isS(ia) && !isS(p)) {
				r = in.concat(r, " ")
			}
		}
		r = in.concat(r, in.fmtOne(fr, 'v', "%v", ia, 0))
	}
	if ln {
		r = in.concat(r, "\n")
	}
	return r
}

func (in *Interp) sprintf(fr *frame, format Value, args []Value) Value {
	f, ok := in.concreteStr(format)
	if !ok {
		panic(unsupported("symbolic format"))
	}
	var r Value = ""
	ai := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			r = in.concat(r, f[i:])
			break
		}
		if j > 0 {
			r = in.concat(r, f[i:i+j])
		}
		i += j
		k := i + 1
		for k < len(f) && strings.IndexByte("+-# 0123456789.", f[k]) >= 0 {
			k++
		}
		if k >= len(f) {
			r = in.concat(r, "%!(NOVERB)")
			break
		}
		if f[k] == '*' {
			panic(unsupported("format " + f))
		}
		verb := f[k]
		spec := f[i : k+1]
		i = k + 1
		if verb == '%' {
			r = in.concat(r, "%")
			continue
		}
		if ai >= len(args) {
			r = in.concat(r, "%!"+string(verb)+"(MISSING)")
			continue
		}
		ia, _ := args[ai].(Iface)
		ai++
		if verb == 'w' {
			verb = 'v'
			spec = strings.Replace(spec, "w", "v", 1)
		}
		r = in.concat(r, in.fmtOne(fr, verb, spec, ia, 0))
	}
	if ai < len(args) {
		r = in.concat(r, "%!(EXTRA)")
	}
	return r
}

// plainList copies a list of interfaces which hold only scalars, strings and
// bytes, at least one of them symbolic.
func plainList(v Value) (Value, bool) {
	s, ok := v.([]Value)
	if !ok {
		return nil, false
	}
	sym := false
	c := make([]Value, len(s))
	for i, e := range s {
		ia, ok := e.(Iface)
		if !ok {
			return nil, false
		}
		switch x := ia.v.(type) {
		case nil, uint64, bool, string:
		case *Term, *SymStr, *LazyStr:
			sym = true
		case []Value:
			for _, b := range x {
				if !isScalar(b) {
					return nil, false
				}
				if _, ok := b.(*Term); ok {
					sym = true
				}
			}
			ia.v = append([]Value(nil), x...)
		default:
			return nil, false
		}
		c[i] = ia
	}
	return c, sym
}

// fmtOne formats one operand; the result is a string value (maybe lazy).
func (in *Interp) fmtOne(fr *frame, verb byte, spec string, a Iface, depth int) Value {
	if verb == 'T' {
		if a.t == nil {
			return "<nil>"
		}
		return in.typeString(a.t)
	}
	if a.t == nil {
		if verb == 'v' {
			return fmt.Sprintf(spec, nil)
		}
		if verb == 's' || verb == 'd' {
			return "%!" + string(verb) + "(<nil>)"
		}
		return fmt.Sprintf(spec, nil)
	}
	if _, ok := a.v.(*RType); ok && (verb == 's' || verb == 'v') {
		return in.typeString(a.v.(*RType).t)
	}
	if _, ok := a.v.(RValue); ok {
		return "<reflect.Value>"
	}
	sharp := strings.Contains(spec, "#")
	if !(sharp && verb == 'v') && strings.IndexByte("vsqxX", verb) >= 0 {
		for _, mn := range []string{"Error", "String"} {
			m := in.lookupMethodName(a.t, mn)
			if m == nil || m.Signature.Params().Len() != 0 || m.Signature.Results().Len() != 1 || !kindOf(m.Signature.Results().At(0).Type()).str {
				continue
			}
			if mn == "String" || mn == "Error" {
				if c, ok := plainList(a.v); ok {
					// the text of a list of plain values is built only when
					// it is looked at; most of it ends up in error messages
					return &LazyStr{f: func() Value {
						return in.force(in.fmtStr(spec, verb, in.callStringer(fr, m, Iface{a.t, c}, verb)))
					}}
				}
				s := in.callStringer(fr, m, a, verb)
				return in.fmtStr(spec, verb, s)
			}
		}
	}
	if p, ok := a.v.(Ptr); ok {
		if depth == 0 && p != nil && verb == 'v' && !sharp {
			if _, agg := (*p).(*Agg); agg {
				if pt, ok := a.t.Underlying().(*types.Pointer); ok {
					return in.concat("&", in.fmtOne(fr, verb, spec, Iface{in.canon(pt.Elem()), copyVal(*p)}, depth+1))
				}
			}
		}
		if p == nil {
			return "<nil>"
		}
		return "0xc000000000"
	}
	switch u := a.t.Underlying().(type) {
	case *types.Basic:
		k := kindOf(u)
		if k.str {
			return in.fmtStr(spec, verb, a.v)
		}
		switch v := a.v.(type) {
		case bool:
			return fmt.Sprintf(spec, v)
		case uint64:
			if k.float {
				if k.w == 32 {
					return fmt.Sprintf(spec, math.Float32frombits(uint32(v)))
				}
				return fmt.Sprintf(spec, math.Float64frombits(v))
			}
			if k.signed {
				switch {
				case verb == 'c' || verb == 'U' || verb == 'q':
					return fmt.Sprintf(spec, rune(sext(v, k.w)))
				}
				return fmt.Sprintf(spec, sext(v, k.w))
			}
			if k.w == 8 {
				return fmt.Sprintf(spec, byte(v))
			}
			return fmt.Sprintf(spec, v)
		case *Term:
			return &LazyStr{f: func() Value {
				switch {
				case k.boolk:
					if in.branch(v) {
						return fmt.Sprintf(spec, true)
					}
					return fmt.Sprintf(spec, false)
				case k.float:
					x := in.enumerate(v)
					if k.w == 32 {
						return fmt.Sprintf(spec, math.Float32frombits(uint32(x)))
					}
					return fmt.Sprintf(spec, math.Float64frombits(x))
				case (verb == 'd' || verb == 'v') && len(spec) == 2:
					return in.formatInt(v, k.signed, 10)
				case verb == 'c':
					return mkStr(in.encodeRune(fr, fromTerm(in.tc.Resize(v, 32, k.signed))))
				case verb == 'x' && spec == "%02x" && k.w == 8:
					return mkStr(in.hex2(v))
				}
				x := in.concretize(v)
				if k.signed {
					return fmt.Sprintf(spec, sext(x, k.w))
				}
				return fmt.Sprintf(spec, x)
			}}
		}
	case *types.Slice:
		s := a.v.([]Value)
		if kindOf(u.Elem()).w == 8 && !kindOf(u.Elem()).float && strings.IndexByte("sxXq", verb) >= 0 {
			if verb == 's' && spec == "%s" {
				return mkStr(s)
			}
			if allConcrete(s) {
				b := make([]byte, len(s))
				for i := range s {
					b[i] = byte(s[i].(uint64))
				}
				return fmt.Sprintf(spec, b)
			}
			if spec == "%x" {
				var out []Value
				for _, x := range s {
					out = append(out, in.hex2(x)...)
				}
				return mkStr(out)
			}
			return &LazyStr{f: func() Value {
				b := make([]byte, len(s))
				for i := range s {
					b[i] = byte(in.concretize(s[i]))
				}
				return fmt.Sprintf(spec, b)
			}}
		}
		if sharp {
			return in.typeString(a.t) + "{...}"
		}
		return in.fmtList(fr, verb, spec, s, u.Elem(), depth)
	case *types.Array:
		if sharp {
			return in.typeString(a.t) + "{...}"
		}
		return in.fmtList(fr, verb, spec, a.v.(*Agg).f, u.Elem(), depth)
	case *types.Struct:
		if sharp {
			return in.typeString(a.t) + "{...}"
		}
		var r Value = "{"
		for i := 0; i < u.NumFields(); i++ {
			if i > 0 {
				r = in.concat(r, " ")
			}
			if strings.Contains(spec, "+") {
				r = in.concat(r, u.Field(i).Name()+":")
			}
			r = in.concat(r, in.fmtOne(fr, verb, spec, in.toIface(u.Field(i).Type(), a.v.(*Agg).f[i]), depth+1))
		}
		return in.concat(r, "}")
	case *types.Map:
		return "map[...]"
	case *types.Signature:
		return "0x1"
	}
	return "?"
}

func (in *Interp) hex2(v Value) []Value {
	t := in.tm(v, 8)
	tc := in.tc
	nib := func(n *Term) Value {
		return fromTerm(tc.Ite(tc.Cmp(OUlt, n, tc.Const(8, 10)), tc.Bin(OAdd, n, tc.Const(8, '0')), tc.Bin(OAdd, n, tc.Const(8, 'a'-10))))
	}
	return []Value{nib(tc.Bin(OLShr, t, tc.Const(8, 4))), nib(tc.Bin(OBAnd, t, tc.Const(8, 15)))}
}

func (in *Interp) toIface(t types.Type, v Value) Iface {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v.(Iface)
	}
	return in.makeIface(in.canon(t), v).(Iface)
}

func (in *Interp) fmtList(fr *frame, verb byte, spec string, s []Value, et types.Type, depth int) Value {
	var r Value = "["
	for i, e := range s {
		if i > 0 {
			r = in.concat(r, " ")
		}
		r = in.concat(r, in.fmtOne(fr, verb, spec, in.toIface(et, e), depth+1))
	}
	return in.concat(r, "]")
}

// fmtStr formats a string operand.
func (in *Interp) fmtStr(spec string, verb byte, s Value) Value {
	if (verb == 's' || verb == 'v') && len(spec) == 2 {
		return s
	}
	if c, ok := s.(string); ok {
		return fmt.Sprintf(spec, c)
	}
	return &LazyStr{f: func() Value { return fmt.Sprintf(spec, in.mustStr(s)) }}
}

// callStringer mirrors fmt's catchPanic.
func (in *Interp) callStringer(fr *frame, m interface{ String() string }, a Iface, verb byte) (res Value) {
	fn := in.lookupFn(m)
	depth := in.depth
	defer func() {
		if r := recover(); r != nil {
			gp, ok := r.(*goPanic)
			if !ok {
				panic(r)
			}
			in.depth = depth
			if p, ok := a.v.(Ptr); ok && p == nil {
				res = "<nil>"
				return
			}
			res = "%!" + string(verb) + "(PANIC=String method: " + in.panicString(gp.v) + ")"
		}
	}()
	return in.callFn(fr, fn, nil, []Value{a.v})
}

func (in *Interp) typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}
