// Package engine holds the harnesses for the typed tables and the catalog.
package engine

import (
	"context"
	"errors"
	"io"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/sym"
)

var ctx = context.Background()

func newStore() storage.Store {
	st, err := basic.NewStore("")
	sym.Assert(err == nil, "store opens")
	return st
}

func tableName(s string) types.TableName {
	return types.TableName{Database: types.MAHO, Schema: types.PUBLIC, Table: types.ID(s, true)}
}

type plainRec struct {
	B   bool
	I8  int8
	I16 int16
	I32 int32
	Key int `maho:"primary"`
	I64 int64
	F64 float64
	F32 float32
	S   string `maho:"size=2"`
	Y   []byte `maho:"size=2"`
	Z   []byte `maho:"notnull,size=2"`
}

type ptrRec struct {
	PB   *bool
	P8   *int8
	P16  *int16
	P32  *int32
	P64  *int64
	PI   *int
	PF   *float64
	PF32 *float32
	PS   *string `maho:"size=2"`
	Key  int32   `maho:"primary"`
}

func float64Same(a, b float64) bool {
	return sym.Or(a == b, sym.And(a != a, b != b))
}

func float32Same(a, b float32) bool {
	return sym.Or(a == b, sym.And(a != a, b != b))
}

func bytesSame(a, b []byte) bool {
	return (a == nil) == (b == nil) && sym.BytesEq(a, b)
}

func symStr(nm string, n int) string { return sym.String(nm, sym.Choose(nm+".len", n+1)) }

func symBytes(nm string, n int) []byte {
	k := sym.Choose(nm+".len", n+2)
	if k == n+1 {
		return nil
	}
	return append([]byte{}, sym.Bytes(nm, k)...)
}

func symPlain(nm string) *plainRec {
	r := &plainRec{
		B: sym.Bool(nm + ".b"), I8: sym.Int8(nm + ".i8"), I16: sym.Int16(nm + ".i16"), I32: sym.Int32(nm + ".i32"),
		Key: int(sym.Int64(nm + ".key")), I64: sym.Int64(nm + ".i64"),
		F64: sym.Float64(nm + ".f64"), F32: sym.Float32(nm + ".f32"),
		S: symStr(nm+".s", 2), Y: symBytes(nm+".y", 2),
	}
	r.Z = sym.Bytes(nm+".z", sym.Choose(nm+".z.len", 3))
	return r
}

func samePlain(a, b *plainRec) bool {
	r := sym.And(a.B == b.B, sym.And(a.I8 == b.I8, sym.And(a.I16 == b.I16, sym.And(a.I32 == b.I32, sym.And(a.Key == b.Key, a.I64 == b.I64)))))
	r = sym.And(r, sym.And(float64Same(a.F64, b.F64), float32Same(a.F32, b.F32)))
	return sym.And(r, sym.And(sym.StrEq(a.S, b.S), sym.And(bytesSame(a.Y, b.Y), sym.BytesEq(a.Z, b.Z))))
}

// Plain: a record of plain fields survives insert and look-up.
func Plain() {
	ti := engine.MakeTypedInfo(1000, tableName("plain"), plainRec{})
	tx := newStore().Begin()
	sym.Assert(engine.CreateTypedTable(ctx, tx, ti) == nil, "create")
	r := symPlain("r")
	in := *r
	in.Y = append([]byte(nil), r.Y...)
	if r.Y != nil && in.Y == nil {
		in.Y = []byte{}
	}
	in.Z = append([]byte{}, r.Z...)
	sym.Assert(engine.TypedTableInsert(ctx, tx, ti, &in) == nil, "insert")
	// the table does not share the caller's slices
	for i := range in.Y {
		in.Y[i] ^= 1
	}
	for i := range in.Z {
		in.Z[i] ^= 1
	}
	got := &plainRec{Key: r.Key, B: true, S: "x", Y: []byte("y")}
	sym.Assert(engine.TypedTableLookup(ctx, tx, ti, got) == nil, "look-up finds the record")
	sym.Reach("record")
	sym.Assert(samePlain(r, got), "every field reads back equal")
	for i := range got.Y {
		got.Y[i] ^= 1
	}
	again := &plainRec{Key: r.Key}
	sym.Assert(engine.TypedTableLookup(ctx, tx, ti, again) == nil, "look-up finds the record")
	sym.Assert(samePlain(r, again), "a record read does not share the table's bytes")

	other := &plainRec{Key: int(sym.Int64("other")), I64: 77}
	err := engine.TypedTableLookup(ctx, tx, ti, other)
	if other.Key == r.Key {
		sym.Assert(err == nil && samePlain(r, other), "look-up by key")
	} else {
		sym.Assert(err == io.EOF && other.I64 == 77, "look-up of a missing key")
	}
}

// Pointers: a record of nil and non-nil pointers survives.
func Pointers() {
	ti := engine.MakeTypedInfo(1000, tableName("ptr"), &ptrRec{})
	tx := newStore().Begin()
	sym.Assert(engine.CreateTypedTable(ctx, tx, ti) == nil, "create")
	r := &ptrRec{Key: sym.Int32("key")}
	// one field at a time, next to two others
	set := 0
	switch sym.Choose("set", 4) {
	case 0:
		set = 1 << uint(sym.Choose("one", 9))
	case 1:
		set = 1<<9 - 1
	case 2:
		set = (1<<9 - 1) &^ (1 << uint(sym.Choose("none", 9)))
	}
	if set&1 != 0 {
		v := sym.Bool("b")
		r.PB = &v
	}
	if set&2 != 0 {
		v := sym.Int8("i8")
		r.P8 = &v
	}
	if set&4 != 0 {
		v := sym.Int16("i16")
		r.P16 = &v
	}
	if set&8 != 0 {
		v := sym.Int32("i32")
		r.P32 = &v
	}
	if set&16 != 0 {
		v := sym.Int64("i64")
		r.P64 = &v
	}
	if set&32 != 0 {
		v := int(sym.Int64("i"))
		r.PI = &v
	}
	if set&64 != 0 {
		v := sym.Float64("f64")
		r.PF = &v
	}
	if set&128 != 0 {
		v := sym.Float32("f32")
		r.PF32 = &v
	}
	if set&256 != 0 {
		v := symStr("s", 2)
		r.PS = &v
	}
	sym.Assert(engine.TypedTableInsert(ctx, tx, ti, r) == nil, "insert")
	one := int8(1)
	str := "x"
	got := &ptrRec{Key: r.Key, P8: &one, PS: &str}
	sym.Assert(engine.TypedTableLookup(ctx, tx, ti, got) == nil, "look-up finds the record")
	sym.Reach("record")
	sym.Assert(got.Key == r.Key, "key")
	sym.Assert((got.PB == nil) == (r.PB == nil) && (r.PB == nil || *got.PB == *r.PB), "bool pointer")
	sym.Assert((got.P8 == nil) == (r.P8 == nil) && (r.P8 == nil || *got.P8 == *r.P8), "int8 pointer")
	sym.Assert((got.P16 == nil) == (r.P16 == nil) && (r.P16 == nil || *got.P16 == *r.P16), "int16 pointer")
	sym.Assert((got.P32 == nil) == (r.P32 == nil) && (r.P32 == nil || *got.P32 == *r.P32), "int32 pointer")
	sym.Assert((got.P64 == nil) == (r.P64 == nil) && (r.P64 == nil || *got.P64 == *r.P64), "int64 pointer")
	sym.Assert((got.PI == nil) == (r.PI == nil) && (r.PI == nil || *got.PI == *r.PI), "int pointer")
	sym.Assert((got.PF == nil) == (r.PF == nil) && (r.PF == nil || float64Same(*got.PF, *r.PF)), "float64 pointer")
	sym.Assert((got.PF32 == nil) == (r.PF32 == nil) && (r.PF32 == nil || float32Same(*got.PF32, *r.PF32)), "float32 pointer")
	sym.Assert((got.PS == nil) == (r.PS == nil) && (r.PS == nil || sym.StrEq(*got.PS, *r.PS)), "string pointer")
}

type keyRec struct {
	V *int64
	A string `maho:"size=2,primary"`
	S string `maho:"size=4,name=Other"`
	N int16  `maho:"primary"`
	Y []byte `maho:"size=4"`
}

type model []keyRec

func (r keyRec) less(o keyRec) bool {
	if r.A != o.A {
		return r.A < o.A
	}
	return r.N < o.N
}

func (r keyRec) same(o keyRec) bool {
	if (r.V == nil) != (o.V == nil) || (r.Y == nil) != (o.Y == nil) {
		return false
	}
	b := sym.And(sym.StrEq(r.A, o.A), sym.And(r.N == o.N, sym.And(sym.StrEq(r.S, o.S), sym.BytesEq(r.Y, o.Y))))
	if r.V != nil {
		b = sym.And(b, *r.V == *o.V)
	}
	return b
}

func (m model) add(r keyRec) (model, bool) {
	i := 0
	for i < len(m) && m[i].less(r) {
		i++
	}
	if i < len(m) && !r.less(m[i]) {
		return m, false
	}
	out := append(model{}, m[:i]...)
	out = append(out, r)
	return append(out, m[i:]...), true
}

func (m model) same(o model) bool {
	if len(m) != len(o) {
		return false
	}
	for i := range m {
		if !m[i].same(o[i]) {
			return false
		}
	}
	return true
}

func symKey(nm string) keyRec {
	r := keyRec{A: symStr(nm+".a", 1), N: int16(sym.Int8(nm + ".n"))}
	return r
}

func selectAll(tx storage.Transaction, ti *engine.TypedInfo, min, max *keyRec) model {
	var out model
	var mn, mx interface{}
	if min != nil {
		mn = min
	}
	if max != nil {
		mx = max
	}
	err := engine.TypedTableSelect(ctx, tx, ti, mn, mx, func(row types.Row) error {
		var r keyRec
		ti.RowToStruct(row, &r)
		out = append(out, r)
		return nil
	})
	sym.Assert(err == nil, "select")
	return out
}

func keyTable(n int) (storage.Transaction, *engine.TypedInfo, model, storage.Store) {
	ti := engine.MakeTypedInfo(1000, tableName("keyed"), keyRec{})
	st := newStore()
	tx := st.Begin()
	sym.Assert(engine.CreateTypedTable(ctx, tx, ti) == nil, "create")
	var m model
	for i := 0; i < n; i++ {
		r := symKey("r" + string(rune('0'+i)))
		v := int64(i * 10)
		r.V = &v
		r.S = string(rune('a' + i))
		r.Y = []byte{byte(i)}
		var ok bool
		m, ok = m.add(r)
		sym.Assert((engine.TypedTableInsert(ctx, tx, ti, &r) == nil) == ok, "insert succeeds exactly for a new key")
	}
	return tx, ti, m, st
}

// Range: look-ups and range selections against the reference.
func Range() {
	tx, ti, m, _ := keyTable(sym.Param("rows", 2))
	var min, max *keyRec
	if sym.Choose("min?", 2) == 1 {
		k := symKey("min")
		min = &k
	}
	if sym.Choose("max?", 2) == 1 {
		k := symKey("max")
		max = &k
	}
	var want model
	for _, r := range m {
		if (min == nil || !r.less(*min)) && (max == nil || !max.less(r)) {
			want = append(want, r)
		}
	}
	got := selectAll(tx, ti, min, max)
	sym.Reach("range")
	sym.Assert(got.same(want), "a range selection visits exactly the records in range in key order")

	// the callback ends the visit early, or with an error
	if len(want) > 0 {
		n, stop := 0, 1+sym.Choose("stop", len(want))
		fail := sym.Choose("fail", 2) == 1
		boom := errors.New("boom")
		var mn, mx interface{}
		if min != nil {
			mn = min
		}
		if max != nil {
			mx = max
		}
		err := engine.TypedTableSelect(ctx, tx, ti, mn, mx, func(row types.Row) error {
			n++
			if n == stop {
				if fail {
					return boom
				}
				return io.EOF
			}
			return nil
		})
		sym.Assert(n == stop, "the visit ends when the callback says so")
		if fail {
			sym.Assert(err == boom, "with the callback's error")
		} else {
			sym.Assert(err == nil, "quietly at end of data")
		}
	}
	// every visit closed its scan
	sym.Assert(tx.Commit(ctx) == nil, "commit")
}

// Lookup: by a key that may or may not exist.
func Lookup() {
	tx, ti, m, _ := keyTable(sym.Param("rows", 2))
	k := symKey("k")
	r := k
	r.S = "zz"
	err := engine.TypedTableLookup(ctx, tx, ti, &r)
	found := false
	for _, e := range m {
		if !e.less(k) && !k.less(e) {
			found = true
			sym.Assert(err == nil && r.same(e), "look-up returns the record with that key")
		}
	}
	sym.Reach("lookup")
	if !found {
		sym.Assert(err == io.EOF, "look-up of a missing key reports that")
		sym.Assert(r.S == "zz" && r.V == nil, "and leaves the record alone")
	}
	sym.Assert(tx.Rollback() == nil, "rollback")
}

// Change: typed updates and deletes of the records a callback selects.
func Change() {
	n := sym.Param("rows", 2)
	tx, ti, m, _ := keyTable(n)
	mask := sym.Choose("mask", 1<<uint(n))
	what := sym.Choose("what", 5)
	want := append(model{}, m...)
	ok := true
	sel := func(r keyRec) bool { return mask&(1<<uint(r.S[0]-'a')) != 0 }

	upd := func(r keyRec) keyRec { return r }
	var fields interface{}
	switch what {
	case 0: // one plain field
		s := symStr("s", 2)
		fields = &struct{ S string }{s}
		upd = func(r keyRec) keyRec { r.S = s; return r }
	case 1: // several, in another order
		f := &struct {
			Y []byte
			V *int64
		}{Y: symBytes("y", 1)}
		if sym.Choose("nil", 2) == 1 {
			v := sym.Int64("v")
			f.V = &v
		}
		fields = f
		upd = func(r keyRec) keyRec { r.Y = f.Y; r.V = f.V; return r }
	case 2: // part of the key
		n := int16(sym.Int8("n"))
		fields = &struct{ N int16 }{n}
		upd = func(r keyRec) keyRec { r.N = n; return r }
	case 3: // the whole key
		nk := symKey("nk")
		fields = &struct {
			N int16
			A string
		}{nk.N, nk.A}
		upd = func(r keyRec) keyRec { r.N, r.A = nk.N, nk.A; return r }
	}
	var min, max *keyRec
	if sym.Choose("bounded", 2) == 1 && len(m) > 0 {
		k := keyRec{A: m[0].A, N: m[0].N}
		min, max = &k, &k
	}
	inRange := func(i int) bool { return min == nil || i == 0 }

	visited := 0
	var mn, mx interface{}
	if min != nil {
		mn, mx = min, max
	}
	var err error
	if what == 4 {
		want = nil
		for i, r := range m {
			if !inRange(i) || !sel(r) {
				want = append(want, r)
			}
		}
		err = engine.TypedTableDelete(ctx, tx, ti, mn, mx, func(row types.Row) (bool, error) {
			visited++
			var r keyRec
			ti.RowToStruct(row, &r)
			return sel(r), nil
		})
	} else {
		for i, r := range m {
			if !inRange(i) || !sel(r) || !ok {
				continue
			}
			var rest model
			for _, e := range want {
				if e.less(r) || r.less(e) {
					rest = append(rest, e)
				}
			}
			w, k := rest.add(upd(r))
			if k {
				want = w
			} else {
				ok = false
			}
		}
		err = engine.TypedTableUpdate(ctx, tx, ti, mn, mx, func(row types.Row) (interface{}, error) {
			visited++
			var r keyRec
			ti.RowToStruct(row, &r)
			if !sel(r) {
				return nil, nil
			}
			return fields, nil
		})
	}
	sym.Reach("changed")
	sym.Assert((err == nil) == ok, "an update fails exactly when a key is taken")
	if ok {
		total := len(m)
		if min != nil {
			total = 1
		}
		sym.Assert(visited == total, "every record in range is offered once")
	}
	sym.Assert(selectAll(tx, ti, nil, nil).same(want), "exactly the selected records change, and only in the named fields")
	sym.Assert(tx.Commit(ctx) == nil, "every scan is closed")
}

// Types: the column definitions derived from a record.
func Types() {
	ti := engine.MakeTypedInfo(storage.TableId(sym.Uint32("tid")), tableName("plain"), &plainRec{})
	tt := ti.TableType()
	names := []string{"b", "i8", "i16", "i32", "key", "i64", "f64", "f32", "s", "y", "z"}
	sizes := []uint32{1, 1, 2, 4, 8, 8, 8, 8, 2, 2, 2}
	kinds := []types.ValueType{types.BoolType, types.Int64Type, types.Int64Type, types.Int64Type, types.Int64Type, types.Int64Type,
		types.Float64Type, types.Float64Type, types.StringType, types.BytesType, types.BytesType}
	sym.Reach("types")
	for i := range names {
		sym.Assert(tt.ColumnNames[i].String() == names[i], "column name")
		ct := tt.ColumnTypes[i]
		sym.Assert(ct.Type == kinds[i] && ct.Size == sizes[i] && ct.NotNull == (i != 9) && !ct.Fixed, "column type")
	}
	sym.Assert(len(tt.ColumnNames) == len(names) && len(tt.ColumnTypes) == len(names), "columns")
	sym.Assert(len(tt.Key) == 1 && tt.Key[0] == types.MakeColumnKey(4, false), "key")
}

// Long: values which do not fit their column are refused, not cut off.
func Long() {
	ti := engine.MakeTypedInfo(1000, tableName("plain"), plainRec{})
	tx := newStore().Begin()
	sym.Assert(engine.CreateTypedTable(ctx, tx, ti) == nil, "create")
	r := &plainRec{S: sym.String("s", sym.Choose("slen", 5)), Y: sym.Bytes("y", sym.Choose("ylen", 5)), Z: sym.Bytes("z", sym.Choose("zlen", 5))}
	fits := len(r.S) <= 2 && len(r.Y) <= 2 && len(r.Z) <= 2
	update := sym.Choose("update", 2) == 1
	if update {
		sym.Assert(engine.TypedTableInsert(ctx, tx, ti, &plainRec{S: "ab", Y: []byte("cd"), Z: []byte("ef")}) == nil, "insert")
		err := engine.TypedTableUpdate(ctx, tx, ti, nil, nil, func(row types.Row) (interface{}, error) {
			return &struct {
				S string
				Y []byte
				Z []byte
			}{r.S, r.Y, r.Z}, nil
		})
		sym.Assert((err == nil) == fits, "an update succeeds exactly when the values fit")
	} else {
		sym.Assert((engine.TypedTableInsert(ctx, tx, ti, r) == nil) == fits, "an insert succeeds exactly when the values fit")
	}
	got := &plainRec{}
	err := engine.TypedTableLookup(ctx, tx, ti, got)
	sym.Reach("long")
	sym.Assert((err == nil) == (fits || update), "a refused record is not stored")
	if fits {
		sym.Assert(sym.And(sym.StrEq(got.S, r.S), sym.And(sym.BytesEq(got.Y, r.Y), sym.BytesEq(got.Z, r.Z))), "a record that fits is stored")
	} else if update {
		sym.Assert(got.S == "ab" && string(got.Y) == "cd" && string(got.Z) == "ef", "a refused update changes nothing")
	}
	sym.Assert(tx.Commit(ctx) == nil, "commit")
}

type reuseRec struct {
	Key int32 `maho:"primary"`
	PB  *bool
	P16 *int16
	P64 *int64
	PF  *float64
	PS  *string `maho:"size=2"`
	Y   []byte  `maho:"size=2"`
	Z   []byte  `maho:"notnull,size=2"`
	S   string  `maho:"size=2"`
}

func symReuse(nm string, some bool) *reuseRec {
	r := &reuseRec{Key: sym.Int32(nm + ".key"), Z: symBytes(nm+".z", 1), S: symStr(nm+".s", 1)}
	if r.Z == nil {
		r.Z = []byte{}
	}
	if !some {
		return r
	}
	b, i16, i64, f, s := sym.Bool(nm+".b"), sym.Int16(nm+".i16"), sym.Int64(nm+".i64"), sym.Float64(nm+".f"), symStr(nm+".ps", 1)
	r.PB, r.P16, r.P64, r.PF, r.PS, r.Y = &b, &i16, &i64, &f, &s, []byte{sym.Byte(nm + ".y")}
	return r
}

func (r *reuseRec) same(o *reuseRec) bool {
	if (r.PB == nil) != (o.PB == nil) || (r.P16 == nil) != (o.P16 == nil) || (r.P64 == nil) != (o.P64 == nil) || (r.PF == nil) != (o.PF == nil) || (r.PS == nil) != (o.PS == nil) {
		return false
	}
	ok := sym.And(r.Key == o.Key, sym.StrEq(r.S, o.S))
	ok = sym.And(ok, sym.And(bytesSame(r.Y, o.Y), bytesSame(r.Z, o.Z)))
	if r.PB != nil {
		ok = sym.And(ok, sym.And(*r.PB == *o.PB, sym.And(*r.P16 == *o.P16, *r.P64 == *o.P64)))
		ok = sym.And(ok, sym.And(float64Same(*r.PF, *o.PF), sym.StrEq(*r.PS, *o.PS)))
	}
	return ok
}

// Reuse: records written from and read into one variable stay what they were.
func Reuse() {
	ti := engine.MakeTypedInfo(1000, tableName("reuse"), reuseRec{})
	tx := newStore().Begin()
	sym.Assert(engine.CreateTypedTable(ctx, tx, ti) == nil, "create")
	two := []*reuseRec{symReuse("r", sym.Bool("r.some")), symReuse("q", sym.Bool("q.some"))}
	sym.Assume(two[0].Key < two[1].Key)
	var in reuseRec
	for i := range two {
		in = *two[1-i]
		sym.Assert(engine.TypedTableInsert(ctx, tx, ti, &in) == nil, "insert")
	}
	var list []reuseRec
	var one reuseRec
	if sym.Bool("lookup") {
		for _, r := range two {
			one.Key = r.Key
			sym.Assert(engine.TypedTableLookup(ctx, tx, ti, &one) == nil, "look-up finds the record")
			list = append(list, one)
		}
	} else {
		err := engine.TypedTableSelect(ctx, tx, ti, nil, nil, func(row types.Row) error {
			ti.RowToStruct(row, &one)
			list = append(list, one)
			return nil
		})
		sym.Assert(err == nil, "select")
	}
	sym.Reach("read")
	sym.Assert(len(list) == 2, "both records")
	for i := range two {
		sym.Assert(two[i].same(&list[i]), "a record read into the same variable leaves the one before as it was")
	}
}
