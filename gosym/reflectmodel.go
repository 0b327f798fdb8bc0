package main

// reflect and encoding/gob, modelled over the interpreter's own values.

import (
	"encoding/binary"
	"fmt"
	"go/types"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

type RType struct{ t types.Type }

type RValue struct {
	t types.Type
	v Value
	p Ptr // addressable storage
}

func (in *Interp) lookupFn(m interface{ String() string }) *ssa.Function { return m.(*ssa.Function) }

func (in *Interp) rtype(t types.Type) *RType {
	t = in.canon(t)
	if r, ok := in.rtypes[t]; ok {
		return r
	}
	r := &RType{t: t}
	in.rtypes[t] = r
	return r
}

func (in *Interp) rtypeIface(t types.Type) Value {
	return Iface{t: in.rtypePtrT, v: in.rtype(t)}
}

func rkind(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.String:
			return reflect.String
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Struct:
		return reflect.Struct
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	}
	return reflect.Invalid
}

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return nil
}

func (in *Interp) rpanic(msg string) {
	panic(&goPanic{v: Iface{t: in.canon(types.Typ[types.String]), v: msg}})
}

func (in *Interp) rget(r RValue) Value {
	if r.p != nil {
		return in.load(r.p)
	}
	return r.v
}

func (in *Interp) structField(t types.Type, i int) Value {
	st := t.Underlying().(*types.Struct)
	sf := in.P.pkgs["reflect"].Type("StructField").Type()
	z := in.zero(sf).(*Agg)
	sft := sf.Underlying().(*types.Struct)
	f := st.Field(i)
	for j := 0; j < sft.NumFields(); j++ {
		switch sft.Field(j).Name() {
		case "Name":
			z.f[j] = f.Name()
		case "PkgPath":
			if !f.Exported() {
				z.f[j] = f.Pkg().Path()
			}
		case "Type":
			z.f[j] = in.rtypeIface(f.Type())
		case "Tag":
			z.f[j] = st.Tag(i)
		case "Index":
			z.f[j] = []Value{uint64(i)}
		case "Anonymous":
			z.f[j] = f.Anonymous()
		}
	}
	return z
}

func init() {
	reg("reflect.TypeOf", func(in *Interp, fr *frame, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		return in.rtypeIface(i.t)
	})
	reg("reflect.ValueOf", func(in *Interp, fr *frame, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return RValue{}
		}
		return RValue{t: i.t, v: i.v}
	})
	reg("reflect.New", func(in *Interp, fr *frame, a []Value) Value {
		t := a[0].(Iface).v.(*RType).t
		p := new(Value)
		*p = in.zero(t)
		return RValue{t: in.ptrTo(t), v: p}
	})
	reg("reflect.Zero", func(in *Interp, fr *frame, a []Value) Value {
		t := a[0].(Iface).v.(*RType).t
		return RValue{t: t, v: in.zero(t)}
	})
	reg("reflect.Indirect", func(in *Interp, fr *frame, a []Value) Value {
		r := a[0].(RValue)
		if rkind(r.t) != reflect.Pointer {
			return r
		}
		return in.relem(r)
	})
	reg("reflect.PointerTo", func(in *Interp, fr *frame, a []Value) Value {
		return in.rtypeIface(in.ptrTo(a[0].(Iface).v.(*RType).t))
	})
	reg("reflect.DeepEqual", func(in *Interp, fr *frame, a []Value) Value {
		x, y := a[0].(Iface), a[1].(Iface)
		return in.deepEqual(x, y)
	})
	T := func(n string, f func(in *Interp, t types.Type, a []Value) Value) {
		reg("(*reflect.rtype)."+n, func(in *Interp, fr *frame, a []Value) Value { return f(in, a[0].(*RType).t, a[1:]) })
	}
	T("Kind", func(in *Interp, t types.Type, a []Value) Value { return uint64(rkind(t)) })
	T("Elem", func(in *Interp, t types.Type, a []Value) Value {
		e := elemOf(t)
		if e == nil {
			in.rpanic("reflect: Elem of invalid type " + in.typeString(t))
		}
		return in.rtypeIface(e)
	})
	T("Key", func(in *Interp, t types.Type, a []Value) Value {
		return in.rtypeIface(t.Underlying().(*types.Map).Key())
	})
	T("Len", func(in *Interp, t types.Type, a []Value) Value { return uint64(t.Underlying().(*types.Array).Len()) })
	T("Size", func(in *Interp, t types.Type, a []Value) Value { return uint64(in.P.sizes.Sizeof(t)) })
	T("Bits", func(in *Interp, t types.Type, a []Value) Value { return uint64(in.P.sizes.Sizeof(t) * 8) })
	T("String", func(in *Interp, t types.Type, a []Value) Value { return in.typeString(t) })
	T("Name", func(in *Interp, t types.Type, a []Value) Value {
		switch n := t.(type) {
		case *types.Named:
			return n.Obj().Name()
		case *types.Basic:
			return n.Name()
		}
		return ""
	})
	T("PkgPath", func(in *Interp, t types.Type, a []Value) Value {
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
		return ""
	})
	T("NumField", func(in *Interp, t types.Type, a []Value) Value {
		return uint64(t.Underlying().(*types.Struct).NumFields())
	})
	T("NumMethod", func(in *Interp, t types.Type, a []Value) Value {
		return uint64(in.P.prog.MethodSets.MethodSet(t).Len())
	})
	T("Field", func(in *Interp, t types.Type, a []Value) Value { return in.structField(t, in.intOf(a[0], intKind)) })
	T("FieldByName", func(in *Interp, t types.Type, a []Value) Value {
		st := t.Underlying().(*types.Struct)
		n := symName(in, a[0])
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return Tuple{in.structField(t, i), true}
			}
		}
		return Tuple{in.zero(in.P.pkgs["reflect"].Type("StructField").Type()), false}
	})
	T("Comparable", func(in *Interp, t types.Type, a []Value) Value { return types.Comparable(t) })
	T("Implements", func(in *Interp, t types.Type, a []Value) Value {
		it := a[0].(Iface).v.(*RType).t
		return types.Implements(t, it.Underlying().(*types.Interface))
	})
	T("AssignableTo", func(in *Interp, t types.Type, a []Value) Value {
		return types.AssignableTo(t, a[0].(Iface).v.(*RType).t)
	})
	T("ConvertibleTo", func(in *Interp, t types.Type, a []Value) Value {
		return types.ConvertibleTo(t, a[0].(Iface).v.(*RType).t)
	})

	V := func(n string, f func(in *Interp, r RValue, a []Value) Value) {
		reg("(reflect.Value)."+n, func(in *Interp, fr *frame, a []Value) Value {
			r := a[0].(RValue)
			if r.t == nil && n != "IsValid" && n != "Kind" && n != "String" {
				in.rpanic("reflect: call of reflect.Value." + n + " on zero Value")
			}
			return f(in, r, a[1:])
		})
	}
	need := func(in *Interp, r RValue, m string, ks ...reflect.Kind) {
		k := rkind(r.t)
		for _, x := range ks {
			if x == k {
				return
			}
		}
		in.rpanic("reflect: call of reflect.Value." + m + " on " + k.String() + " Value")
	}
	ints := []reflect.Kind{reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64}
	uints := []reflect.Kind{reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr}
	V("IsValid", func(in *Interp, r RValue, a []Value) Value { return r.t != nil })
	V("Kind", func(in *Interp, r RValue, a []Value) Value {
		if r.t == nil {
			return uint64(0)
		}
		return uint64(rkind(r.t))
	})
	V("Type", func(in *Interp, r RValue, a []Value) Value { return in.rtypeIface(r.t) })
	V("Elem", func(in *Interp, r RValue, a []Value) Value { return in.relem(r) })
	V("NumField", func(in *Interp, r RValue, a []Value) Value {
		return uint64(r.t.Underlying().(*types.Struct).NumFields())
	})
	fld := func(in *Interp, r RValue, i int) Value {
		st, ok := r.t.Underlying().(*types.Struct)
		if !ok {
			in.rpanic("reflect: call of reflect.Value.Field on " + rkind(r.t).String() + " Value")
		}
		if i < 0 || i >= st.NumFields() {
			in.rpanic("reflect: Field index out of range")
		}
		ft := in.canon(st.Field(i).Type())
		if r.p != nil {
			return RValue{t: ft, p: &(*r.p).(*Agg).f[i]}
		}
		return RValue{t: ft, v: r.v.(*Agg).f[i]}
	}
	V("Field", func(in *Interp, r RValue, a []Value) Value { return fld(in, r, in.intOf(a[0], intKind)) })
	V("FieldByName", func(in *Interp, r RValue, a []Value) Value {
		st := r.t.Underlying().(*types.Struct)
		n := symName(in, a[0])
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return fld(in, r, i)
			}
		}
		return RValue{}
	})
	V("IsNil", func(in *Interp, r RValue, a []Value) Value {
		switch v := in.rget(r).(type) {
		case Ptr:
			return v == nil
		case []Value:
			return v == nil
		case *MapV:
			return v == nil
		case *Closure:
			return v == nil
		case Iface:
			return v.t == nil
		case *ChanV:
			return v == nil
		}
		in.rpanic("reflect: call of reflect.Value.IsNil on " + rkind(r.t).String() + " Value")
		return nil
	})
	V("IsZero", func(in *Interp, r RValue, a []Value) Value {
		switch v := in.rget(r).(type) {
		case []Value:
			return v == nil
		}
		return in.eqVal(r.t, in.rget(r), in.zero(r.t))
	})
	V("Bool", func(in *Interp, r RValue, a []Value) Value { need(in, r, "Bool", reflect.Bool); return in.rget(r) })
	V("Int", func(in *Interp, r RValue, a []Value) Value {
		need(in, r, "Int", ints...)
		k := kindOf(r.t)
		return fromTerm(in.tc.Resize(in.tm(in.rget(r), k.w), 64, true))
	})
	V("Uint", func(in *Interp, r RValue, a []Value) Value {
		need(in, r, "Uint", uints...)
		k := kindOf(r.t)
		return fromTerm(in.tc.Resize(in.tm(in.rget(r), k.w), 64, false))
	})
	V("Float", func(in *Interp, r RValue, a []Value) Value {
		need(in, r, "Float", reflect.Float32, reflect.Float64)
		if kindOf(r.t).w == 32 {
			return fromTerm(in.tc.Conv(OF32to64, 64, in.tm(in.rget(r), 32)))
		}
		return in.rget(r)
	})
	V("String", func(in *Interp, r RValue, a []Value) Value {
		if r.t == nil {
			return "<invalid Value>"
		}
		if rkind(r.t) != reflect.String {
			return "<" + in.typeString(r.t) + " Value>"
		}
		return in.rget(r)
	})
	V("Bytes", func(in *Interp, r RValue, a []Value) Value { need(in, r, "Bytes", reflect.Slice); return in.rget(r) })
	V("Len", func(in *Interp, r RValue, a []Value) Value {
		switch v := in.rget(r).(type) {
		case []Value:
			return uint64(len(v))
		case *Agg:
			return uint64(len(v.f))
		case *MapV:
			if v == nil {
				return uint64(0)
			}
			return uint64(v.n)
		}
		return uint64(in.strLen(in.rget(r)))
	})
	V("Index", func(in *Interp, r RValue, a []Value) Value {
		et := in.canon(elemOf(r.t))
		i := in.intOf(a[0], intKind)
		switch v := in.rget(r).(type) {
		case []Value:
			return RValue{t: et, p: &v[i]}
		case *Agg:
			if r.p != nil {
				return RValue{t: et, p: &(*r.p).(*Agg).f[i]}
			}
			return RValue{t: et, v: v.f[i]}
		}
		panic(unsupported("reflect Index"))
	})
	V("Interface", func(in *Interp, r RValue, a []Value) Value {
		v := in.rget(r)
		if i, ok := v.(Iface); ok {
			return i
		}
		return in.makeIface(in.canon(r.t), v)
	})
	V("CanInterface", func(in *Interp, r RValue, a []Value) Value { return true })
	V("CanAddr", func(in *Interp, r RValue, a []Value) Value { return r.p != nil })
	V("CanSet", func(in *Interp, r RValue, a []Value) Value { return r.p != nil })
	V("Addr", func(in *Interp, r RValue, a []Value) Value {
		if r.p == nil {
			in.rpanic("reflect.Value.Addr of unaddressable value")
		}
		return RValue{t: in.ptrTo(r.t), v: r.p}
	})
	V("OverflowInt", func(in *Interp, r RValue, a []Value) Value {
		k := kindOf(r.t)
		x := in.tm(a[0], 64)
		if k.w == 64 {
			return false
		}
		return fromTerm(in.tc.Not(in.tc.Eq(in.tc.SExt(64, in.tc.Extract(k.w-1, 0, x)), x)))
	})
	set := func(in *Interp, r RValue, m string, v Value) Value {
		if r.p == nil {
			in.rpanic("reflect: reflect.Value." + m + " using unaddressable value")
		}
		in.store(r.p, v)
		return nil
	}
	V("Set", func(in *Interp, r RValue, a []Value) Value {
		x := a[0].(RValue)
		if x.t == nil {
			in.rpanic("reflect: call of reflect.Value.Set on zero Value")
		}
		if _, isI := r.t.Underlying().(*types.Interface); isI {
			return set(in, r, "Set", in.toIface(x.t, in.rget(x)))
		}
		if !types.AssignableTo(x.t, r.t) {
			in.rpanic("reflect.Set: value of type " + in.typeString(x.t) + " is not assignable to type " + in.typeString(r.t))
		}
		return set(in, r, "Set", in.rget(x))
	})
	V("SetZero", func(in *Interp, r RValue, a []Value) Value { return set(in, r, "SetZero", in.zero(r.t)) })
	V("SetBool", func(in *Interp, r RValue, a []Value) Value {
		need(in, r, "SetBool", reflect.Bool)
		return set(in, r, "SetBool", a[0])
	})
	V("SetString", func(in *Interp, r RValue, a []Value) Value {
		need(in, r, "SetString", reflect.String)
		return set(in, r, "SetString", a[0])
	})
	V("SetBytes", func(in *Interp, r RValue, a []Value) Value {
		need(in, r, "SetBytes", reflect.Slice)
		return set(in, r, "SetBytes", a[0])
	})
	V("SetInt", func(in *Interp, r RValue, a []Value) Value {
		need(in, r, "SetInt", ints...)
		return set(in, r, "SetInt", fromTerm(in.tc.Resize(in.tm(a[0], 64), kindOf(r.t).w, true)))
	})
	V("SetUint", func(in *Interp, r RValue, a []Value) Value {
		need(in, r, "SetUint", uints...)
		return set(in, r, "SetUint", fromTerm(in.tc.Resize(in.tm(a[0], 64), kindOf(r.t).w, false)))
	})
	V("SetFloat", func(in *Interp, r RValue, a []Value) Value {
		need(in, r, "SetFloat", reflect.Float32, reflect.Float64)
		if kindOf(r.t).w == 32 {
			return set(in, r, "SetFloat", fromTerm(in.tc.Conv(OF64to32, 32, in.tm(a[0], 64))))
		}
		return set(in, r, "SetFloat", a[0])
	})
	V("Convert", func(in *Interp, r RValue, a []Value) Value {
		t := a[0].(Iface).v.(*RType).t
		k, k2 := kindOf(r.t), kindOf(t)
		v := in.rget(r)
		if k.ok && k2.ok && !k.float && !k2.float && !k.boolk && !k2.boolk {
			return RValue{t: t, v: fromTerm(in.tc.Resize(in.tm(v, k.w), k2.w, k.signed))}
		}
		if types.Identical(r.t.Underlying(), t.Underlying()) || rkind(t) == reflect.Pointer {
			return RValue{t: t, v: v}
		}
		if k.float && k2.float {
			if k.w == k2.w {
				return RValue{t: t, v: v}
			}
			if k.w == 32 {
				return RValue{t: t, v: fromTerm(in.tc.Conv(OF32to64, 64, in.tm(v, 32)))}
			}
			return RValue{t: t, v: fromTerm(in.tc.Conv(OF64to32, 32, in.tm(v, 64)))}
		}
		panic(unsupported("reflect Convert " + r.t.String() + " to " + t.String()))
	})

	// ---- gob ----
	handle := func(v any) Value {
		p := new(Value)
		*p = v
		return Ptr(p)
	}
	reg("encoding/gob.NewEncoder", func(in *Interp, fr *frame, a []Value) Value { return handle(&gobEnc{w: a[0].(Iface)}) })
	reg("encoding/gob.NewDecoder", func(in *Interp, fr *frame, a []Value) Value { return handle(&gobDec{r: a[0].(Iface)}) })
	reg("encoding/gob.Register", func(in *Interp, fr *frame, a []Value) Value { return nil })
	reg("(*encoding/gob.Encoder).Encode", func(in *Interp, fr *frame, a []Value) Value {
		e := (*(a[0].(Ptr))).(*gobEnc)
		i := a[1].(Iface)
		t, v := i.t, i.v
		for t != nil {
			pt, ok := t.Underlying().(*types.Pointer)
			if !ok {
				break
			}
			p := v.(Ptr)
			if p == nil {
				in.rpanic("gob: cannot encode nil pointer of type " + t.String())
			}
			t, v = in.canon(pt.Elem()), in.load(p)
		}
		if t == nil {
			return in.errorString("gob: cannot encode nil")
		}
		n, err := in.gobSnap(fr, t, v)
		if err.t != nil {
			return err
		}
		id := len(in.gobState.nodes)
		in.gobState.nodes = append(in.gobState.nodes, n)
		var b [12]byte
		b[0], b[1], b[2], b[3] = 0xF7, 'G', 'B', 'M'
		binary.BigEndian.PutUint64(b[4:], uint64(id))
		bs := make([]Value, 12)
		for i := range b {
			bs[i] = uint64(b[i])
		}
		w := in.lookupMethodName(e.w.t, "Write")
		r := in.callFn(fr, w, nil, []Value{e.w.v, bs}).(Tuple)
		return r[1]
	})
	reg("(*encoding/gob.Decoder).Decode", func(in *Interp, fr *frame, a []Value) Value {
		d := (*(a[0].(Ptr))).(*gobDec)
		rd := in.lookupMethodName(d.r.t, "Read")
		var b [12]byte
		got := 0
		buf := in.makeSlice(types.Typ[types.Uint8], 12, 12)
		for got < 12 {
			r := in.callFn(fr, rd, nil, []Value{d.r.v, buf[got:]}).(Tuple)
			n := in.intOf(r[0], intKind)
			got += n
			if e := r[1].(Iface); e.t != nil && got < 12 {
				if got == 0 {
					return e
				}
				return in.errorString("unexpected EOF")
			}
			if n == 0 {
				return in.errorString("gob: no data")
			}
		}
		for i := range b {
			b[i] = byte(in.concretize(buf[i]))
		}
		id := binary.BigEndian.Uint64(b[4:])
		if b[0] != 0xF7 || b[1] != 'G' || id >= uint64(len(in.gobState.nodes)) {
			return in.errorString("gob: bad data")
		}
		i := a[1].(Iface)
		pt, ok := i.t.Underlying().(*types.Pointer)
		if !ok {
			return in.errorString("gob: attempt to decode into a non-pointer")
		}
		return in.gobLoad(fr, in.gobState.nodes[id], in.canon(pt.Elem()), i.v.(Ptr), true)
	})
}

type gobEnc struct{ w Iface }
type gobDec struct{ r Iface }

type gobState struct{ nodes []*gobNode }

type gobNode struct {
	kind  byte // 'b' basic, 'y' bytes, 'l' list, 's' struct, 'm' map, 'g' GobEncoder bytes
	bk    kind
	v     Value
	elems []*gobNode
	keys  []*gobNode
	names []string
}

func (in *Interp) gobSnap(fr *frame, t types.Type, v Value) (*gobNode, Iface) {
	if m := in.lookupMethodName(t, "GobEncode"); m != nil {
		r := in.callFn(fr, m, nil, []Value{v}).(Tuple)
		if e := r[1].(Iface); e.t != nil {
			return nil, e
		}
		return &gobNode{kind: 'g', v: append([]Value(nil), in.anySlice(r[0])...)}, Iface{}
	}
	if m := in.lookupMethodName(in.ptrTo(t), "GobEncode"); m != nil {
		slot := new(Value)
		*slot = copyVal(v)
		r := in.callFn(fr, m, nil, []Value{Ptr(slot)}).(Tuple)
		if e := r[1].(Iface); e.t != nil {
			return nil, e
		}
		return &gobNode{kind: 'g', v: append([]Value(nil), in.anySlice(r[0])...)}, Iface{}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return &gobNode{kind: 'b', bk: kindOf(u), v: v}, Iface{}
	case *types.Slice:
		s := v.([]Value)
		if k := kindOf(u.Elem()); k.w == 8 && !k.signed && k.ok {
			return &gobNode{kind: 'y', v: append([]Value{}, s...)}, Iface{}
		}
		n := &gobNode{kind: 'l'}
		for _, e := range s {
			x, err := in.gobSnap(fr, in.canon(u.Elem()), e)
			if err.t != nil {
				return nil, err
			}
			n.elems = append(n.elems, x)
		}
		return n, Iface{}
	case *types.Array:
		n := &gobNode{kind: 'l'}
		for _, e := range v.(*Agg).f {
			x, err := in.gobSnap(fr, in.canon(u.Elem()), e)
			if err.t != nil {
				return nil, err
			}
			n.elems = append(n.elems, x)
		}
		return n, Iface{}
	case *types.Struct:
		n := &gobNode{kind: 's'}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() {
				continue
			}
			ft, fv := in.canon(f.Type()), v.(*Agg).f[i]
			if pt, ok := ft.Underlying().(*types.Pointer); ok {
				p := fv.(Ptr)
				if p == nil {
					continue
				}
				ft, fv = in.canon(pt.Elem()), in.load(p)
			}
			x, err := in.gobSnap(fr, ft, fv)
			if err.t != nil {
				return nil, err
			}
			n.names = append(n.names, f.Name())
			n.elems = append(n.elems, x)
		}
		if len(n.names) == 0 {
			hasExp := false
			for i := 0; i < u.NumFields(); i++ {
				hasExp = hasExp || u.Field(i).Exported()
			}
			if !hasExp {
				return nil, in.errorString("gob: type " + t.String() + " has no exported fields").(Iface)
			}
		}
		return n, Iface{}
	case *types.Map:
		n := &gobNode{kind: 'm'}
		m := v.(*MapV)
		if m != nil {
			for _, e := range m.ents {
				if !e.live {
					continue
				}
				k, err := in.gobSnap(fr, in.canon(u.Key()), e.k)
				if err.t != nil {
					return nil, err
				}
				x, err := in.gobSnap(fr, in.canon(u.Elem()), e.v)
				if err.t != nil {
					return nil, err
				}
				n.keys = append(n.keys, k)
				n.elems = append(n.elems, x)
			}
		}
		return n, Iface{}
	case *types.Pointer:
		p := v.(Ptr)
		if p == nil {
			return nil, in.errorString("gob: encodeReflectValue: nil element").(Iface)
		}
		return in.gobSnap(fr, in.canon(u.Elem()), in.load(p))
	}
	panic(unsupported("gob encoding of " + t.String()))
}

// omitted reports whether gob would not transmit the (struct field) value.
func (in *Interp) gobOmitted(n *gobNode) bool {
	switch n.kind {
	case 'b':
		switch x := n.v.(type) {
		case string:
			return x == ""
		case *SymStr:
			return len(x.b) == 0
		case *LazyStr:
			return in.strLen(x) == 0
		case bool:
			return !x
		case uint64:
			return x == 0
		case *Term:
			if x.w == 0 {
				return !in.branch(x)
			}
			return in.branch(fromTerm(in.tc.Eq(x, in.tc.Const(x.w, 0))))
		}
	case 'y':
		return len(n.v.([]Value)) == 0
	case 'l':
		return len(n.elems) == 0
	case 'm':
		return len(n.keys) == 0
	}
	return false
}

func (in *Interp) gobLoad(fr *frame, n *gobNode, t types.Type, p Ptr, top bool) Value {
	mismatch := func() Value {
		return in.errorString("gob: decoding into local type " + t.String() + ", received remote type mismatch")
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if q, _ := (*p).(Ptr); q == nil {
			slot := new(Value)
			*slot = in.zero(pt.Elem())
			in.store(p, Ptr(slot))
		}
		return in.gobLoad(fr, n, in.canon(pt.Elem()), (*p).(Ptr), top)
	}
	if m := in.lookupMethodName(in.ptrTo(t), "GobDecode"); m != nil {
		if n.kind != 'g' {
			return mismatch()
		}
		return in.callFn(fr, m, nil, []Value{p, append([]Value{}, n.v.([]Value)...)})
	}
	if n.kind == 'g' {
		return mismatch()
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if n.kind != 'b' {
			return mismatch()
		}
		k := kindOf(u)
		if k.str != n.bk.str || k.boolk != n.bk.boolk || k.float != n.bk.float || k.signed != n.bk.signed {
			return mismatch()
		}
		v := n.v
		if k.ok && !k.boolk && k.w != n.bk.w {
			if k.w < n.bk.w || k.float {
				panic(unsupported("gob narrowing"))
			}
			v = fromTerm(in.tc.Resize(in.tm(v, n.bk.w), k.w, k.signed))
		}
		in.store(p, v)
	case *types.Slice:
		if n.kind == 'y' {
			if kk := kindOf(u.Elem()); kk.w != 8 {
				return mismatch()
			}
			in.store(p, append([]Value{}, n.v.([]Value)...))
			return Iface{}
		}
		if n.kind != 'l' {
			return mismatch()
		}
		s := in.makeSlice(u.Elem(), len(n.elems), len(n.elems))
		for i, e := range n.elems {
			if r := in.gobLoad(fr, e, in.canon(u.Elem()), &s[i], false); r.(Iface).t != nil {
				return r
			}
		}
		in.store(p, s)
	case *types.Array:
		a := (*p).(*Agg)
		if n.kind != 'l' || len(a.f) != len(n.elems) {
			return mismatch()
		}
		for i, e := range n.elems {
			if r := in.gobLoad(fr, e, in.canon(u.Elem()), &a.f[i], false); r.(Iface).t != nil {
				return r
			}
		}
	case *types.Struct:
		if n.kind != 's' {
			return mismatch()
		}
		a := (*p).(*Agg)
		matched := 0
		for i := 0; i < u.NumFields(); i++ {
			for j, nm := range n.names {
				if nm != u.Field(i).Name() {
					continue
				}
				matched++
				if in.gobOmitted(n.elems[j]) {
					continue
				}
				if r := in.gobLoad(fr, n.elems[j], in.canon(u.Field(i).Type()), &a.f[i], false); r.(Iface).t != nil {
					return r
				}
			}
		}
		if matched == 0 && len(n.names) > 0 && u.NumFields() > 0 {
			return in.errorString("gob: type mismatch: no fields matched compiling decoder")
		}
	case *types.Map:
		if n.kind != 'm' {
			return mismatch()
		}
		m, _ := (*p).(*MapV)
		if m == nil {
			m = newMap()
			in.store(p, m)
		}
		for i := range n.keys {
			ks, vs := new(Value), new(Value)
			*ks, *vs = in.zero(u.Key()), in.zero(u.Elem())
			if r := in.gobLoad(fr, n.keys[i], in.canon(u.Key()), ks, false); r.(Iface).t != nil {
				return r
			}
			if r := in.gobLoad(fr, n.elems[i], in.canon(u.Elem()), vs, false); r.(Iface).t != nil {
				return r
			}
			in.mapUpdate(m, u, *ks, *vs)
		}
	default:
		panic(unsupported("gob decoding into " + t.String()))
	}
	return Iface{}
}

func (in *Interp) deepEqual(x, y Iface) Value {
	if x.t == nil || y.t == nil {
		return x.t == nil && y.t == nil
	}
	if x.t != y.t {
		return false
	}
	return in.deepEq(x.t, x.v, y.v)
}

func (in *Interp) deepEq(t types.Type, a, b Value) Value {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		x, y := a.([]Value), b.([]Value)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return false
		}
		r := in.tc.True
		for i := range x {
			r = in.tc.And(r, in.tb(in.deepEq(u.Elem(), x[i], y[i])))
		}
		return fromTerm(r)
	case *types.Pointer:
		x, ok1 := a.(Ptr)
		y, ok2 := b.(Ptr)
		if !ok1 || !ok2 || x == y {
			return a == b
		}
		if x == nil || y == nil {
			return false
		}
		return in.deepEq(u.Elem(), *x, *y)
	case *types.Struct:
		r := in.tc.True
		for i := 0; i < u.NumFields(); i++ {
			r = in.tc.And(r, in.tb(in.deepEq(u.Field(i).Type(), a.(*Agg).f[i], b.(*Agg).f[i])))
		}
		return fromTerm(r)
	case *types.Array:
		r := in.tc.True
		for i := range a.(*Agg).f {
			r = in.tc.And(r, in.tb(in.deepEq(u.Elem(), a.(*Agg).f[i], b.(*Agg).f[i])))
		}
		return fromTerm(r)
	case *types.Interface:
		return in.deepEqual(a.(Iface), b.(Iface))
	case *types.Map:
		x, y := a.(*MapV), b.(*MapV)
		if x == nil || y == nil {
			return x == nil && y == nil
		}
		if x.n != y.n {
			return false
		}
		r := in.tc.True
		for _, e := range x.ents {
			if !e.live {
				continue
			}
			f := in.mapFind(y, u.Key(), e.k)
			if f == nil {
				return false
			}
			r = in.tc.And(r, in.tb(in.deepEq(u.Elem(), e.v, f.v)))
		}
		return fromTerm(r)
	case *types.Signature:
		return a.(*Closure) == nil && b.(*Closure) == nil
	}
	return in.eqVal(t, a, b)
}

func (in *Interp) relem(r RValue) Value {
	v := in.rget(r)
	switch x := v.(type) {
	case Ptr:
		if x == nil {
			return RValue{}
		}
		return RValue{t: in.canon(elemOf(r.t)), p: x}
	case Iface:
		if x.t == nil {
			return RValue{}
		}
		return RValue{t: x.t, v: x.v}
	}
	in.rpanic("reflect: call of reflect.Value.Elem on " + rkind(r.t).String() + " Value")
	return nil
}

var _ = fmt.Sprint
