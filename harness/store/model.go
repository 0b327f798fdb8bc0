// Package store holds the harnesses for the storage layer. The reference is a
// sorted list of rows per table.
package store

import (
	"context"
	"io"

	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/lib"
	"github.com/leftmike/maho/zzverif/sym"
)

var ctx = context.Background()

// Tbl describes a table.
type Tbl struct {
	tid   storage.TableId
	tn    types.TableName
	names []types.Identifier
	cts   []types.ColumnType
	kinds []int
	key   []types.ColumnKey
	slen  int  // length of string and bytes columns
	small bool // integers are 8 bit, to keep composite keys tractable
}

func (t *Tbl) value(name string, c int) types.Value {
	k := t.kinds[c]
	if !t.cts[c].NotNull && sym.Choose(name+".null", 2) == 1 {
		return nil
	}
	if t.small && k == lib.Int {
		return types.Int64Value(sym.Int8(name))
	}
	return lib.Value(name, k, t.slen)
}

func colType(kind int, notNull bool) types.ColumnType {
	ct := types.ColumnType{NotNull: notNull}
	switch kind {
	case lib.Bool:
		ct.Type = types.BoolType
	case lib.Int:
		ct.Type, ct.Size = types.Int64Type, 8
	case lib.Float:
		ct.Type, ct.Size = types.Float64Type, 8
	case lib.String:
		ct.Type, ct.Size = types.StringType, 8
	case lib.Bytes:
		ct.Type, ct.Size = types.BytesType, 8
	}
	return ct
}

var columnNames = []types.Identifier{types.ID("c0", true), types.ID("c1", true), types.ID("c2", true)}

type shape struct {
	kinds   []int
	notNull []bool
	key     []types.ColumnKey
}

// The table shapes; every kind of key column, both directions, composite keys
// in and out of column order.
var shapes = []shape{
	{[]int{lib.Int, lib.String}, []bool{true, false}, []types.ColumnKey{1}},
	{[]int{lib.String, lib.Int}, []bool{true, true}, []types.ColumnKey{-2, 1}},
	{[]int{lib.Bool, lib.Int}, []bool{false, false}, []types.ColumnKey{1, -2}},
	{[]int{lib.Float, lib.Bytes}, []bool{false, false}, []types.ColumnKey{-1}},
	{[]int{lib.Int, lib.Bytes, lib.Float}, []bool{false, false, true}, []types.ColumnKey{2}},
	{[]int{lib.Int, lib.Bool, lib.String}, []bool{true, true, true}, []types.ColumnKey{-3, -1}},
}

func table(tid storage.TableId, s int) *Tbl {
	sh := shapes[s]
	t := &Tbl{tid: tid, tn: types.TableName{Database: types.MAHO, Schema: types.PUBLIC, Table: types.ID("t", true)},
		kinds: sh.kinds, key: sh.key, slen: 1, small: len(sh.key) > 1 || sym.Param("small", 0) == 1}
	for i, k := range sh.kinds {
		t.names = append(t.names, columnNames[i])
		t.cts = append(t.cts, colType(k, sh.notNull[i]))
	}
	return t
}

func chooseShape() int {
	s := sym.Param("shape", -1)
	if s < 0 {
		s = sym.Choose("shape", len(shapes))
	}
	return s
}

func (t *Tbl) create(tx storage.Transaction) error {
	return tx.CreateTable(ctx, t.tid, t.tn, t.names, t.cts, t.key)
}

func (t *Tbl) open(tx storage.Transaction) storage.Table {
	tbl, err := tx.OpenTable(ctx, t.tid, t.tn, t.names, t.cts, t.key)
	sym.Assert(err == nil, "table opens")
	return tbl
}

// row returns a symbolic row that fits the table.
func (t *Tbl) row(name string) types.Row {
	var r types.Row
	for i := range t.kinds {
		n := name + "." + string(rune('a'+i))
		r = append(r, t.value(n, i))
	}
	return r
}

// keyRow returns a row with symbolic key columns and plain other columns.
func (t *Tbl) keyRow(name string, fill int) types.Row {
	r := make(types.Row, len(t.kinds))
	for i, k := range t.kinds {
		r[i] = plain(k, fill)
	}
	for _, ck := range t.key {
		c := lib.KeyCol(ck)
		n := name + "." + string(rune('a'+c))
		r[c] = t.value(n, c)
	}
	return r
}

func plain(kind, i int) types.Value {
	switch kind {
	case lib.Bool:
		return types.BoolValue(i&1 == 1)
	case lib.Int:
		return types.Int64Value(i)
	case lib.Float:
		return types.Float64Value(i)
	case lib.String:
		return types.StringValue(string(rune('A' + i)))
	}
	return types.BytesValue([]byte{byte('A' + i)})
}

// add inserts a row into the reference; false when its key exists.
func (t *Tbl) add(rows []types.Row, r types.Row) ([]types.Row, bool) {
	i := 0
	for i < len(rows) && lib.KeyLess(t.kinds, t.key, rows[i], r) {
		i++
	}
	if i < len(rows) && lib.KeyEq(t.kinds, t.key, rows[i], r) {
		return rows, false
	}
	out := append([]types.Row{}, rows[:i]...)
	out = append(out, lib.CopyRow(r))
	return append(out, rows[i:]...), true
}

func remove(rows []types.Row, i int) []types.Row {
	out := append([]types.Row{}, rows[:i]...)
	return append(out, rows[i+1:]...)
}

// fill inserts n symbolic rows with distinct keys.
func (t *Tbl) fill(tbl storage.Table, n int, name string, keysOnly bool) []types.Row {
	var rows []types.Row
	for i := 0; i < n; i++ {
		nm := name + string(rune('0'+i))
		var r types.Row
		if keysOnly {
			r = t.keyRow(nm, i)
		} else {
			r = t.row(nm)
		}
		var ok bool
		rows, ok = t.add(rows, r)
		if !ok {
			sym.Stop()
		}
		sym.Assert(tbl.Insert(ctx, []types.Row{lib.CopyRow(r)}) == nil, "rows with distinct keys insert")
	}
	return rows
}

// scan returns all rows of the table.
func scan(tbl storage.Table) []types.Row {
	rs, err := tbl.Rows(ctx, nil, nil, nil, nil)
	sym.Assert(err == nil, "scan opens")
	out := drain(rs)
	sym.Assert(rs.Close(ctx) == nil, "scan closes")
	return out
}

func drain(rs storage.Rows) []types.Row {
	var out []types.Row
	for {
		r, err := rs.Next(ctx)
		if err == io.EOF {
			_, err := rs.Next(ctx)
			sym.Assert(err == io.EOF, "after the last row every read is end of data")
			return out
		}
		sym.Assert(err == nil, "read")
		out = append(out, r)
		if len(out) > 1000 {
			sym.Fail("scan does not end")
		}
	}
}

func sameRows(a, b []types.Row) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = sym.And(r, lib.SameRow(a[i], b[i]))
	}
	return r
}

func newStore() storage.Store {
	st, err := basic.NewStore("")
	sym.Assert(err == nil, "store opens")
	return st
}

// pred is a predicate on one column: value < c or value == c or always.
type pred struct {
	col  int
	kind int
	op   int
	c    types.Value
}

func (p *pred) Column() types.ColumnNum { return types.ColumnNum(p.col) }

func (p *pred) eval(v types.Value) bool {
	switch p.op {
	case 0:
		return lib.Less(p.kind, v, p.c)
	case 1:
		return lib.Eq(p.kind, v, p.c)
	}
	return true
}

type boolPred struct{ *pred }
type intPred struct{ *pred }
type floatPred struct{ *pred }
type stringPred struct{ *pred }
type bytesPred struct{ *pred }

func (p boolPred) BoolPred(v types.BoolValue) bool        { return p.eval(v) }
func (p intPred) Int64Pred(v types.Int64Value) bool       { return p.eval(v) }
func (p floatPred) Float64Pred(v types.Float64Value) bool { return p.eval(v) }
func (p stringPred) StringPred(v types.StringValue) bool  { return p.eval(v) }
func (p bytesPred) BytesPred(v types.BytesValue) bool     { return p.eval(v) }

func (p *pred) typed() storage.Predicate {
	switch p.kind {
	case lib.Bool:
		return boolPred{p}
	case lib.Int:
		return intPred{p}
	case lib.Float:
		return floatPred{p}
	case lib.String:
		return stringPred{p}
	}
	return bytesPred{p}
}
