package engine

import (
	"strconv"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/sym"
)

func numbered(s string, i int) types.Identifier { return types.ID(s+strconv.Itoa(i), true) }

// ManyDatabases: many databases and schemas, one of which is dropped.
func ManyDatabases() {
	eng := newEngine()
	n := sym.Param("databases", 12)
	w := initial()
	for i := 0; i < n; i++ {
		sym.Assert(eng.CreateDatabase(numbered("d", i), nil) == nil, "create database")
		w = append(w, dbModel{name: numbered("d", i)})
	}
	tx := eng.Begin()
	for i := 0; i < n; i++ {
		d := w.find(numbered("d", i))
		// A database without extra schemas, then some with one, two, many.
		for j := 0; j < i%4*3; j++ {
			s := numbered("s", j)
			sym.Assert(tx.CreateSchema(ctx, types.SchemaName{Database: w[d].name, Schema: s}) == nil, "create schema")
			w[d].schemas = append(w[d].schemas, s)
		}
	}
	sym.Assert(tx.Commit(ctx) == nil, "commit")
	w.checkDatabases(eng)
	// One with any name, which may be an existing one.
	b := sym.Byte("name")
	sym.Assume(b < 0x80)
	extra := types.ID("d"+string(rune(b)), true)
	err := eng.CreateDatabase(extra, nil)
	sym.Assert((err == nil) == (w.find(extra) < 0), "a database is created exactly when it does not exist")
	if err == nil {
		w = append(w, dbModel{name: extra})
	}
	at := sym.Choose("at", n)
	d := w.find(numbered("d", at))
	if sym.Choose("what", 2) == 0 {
		sym.Assert(eng.DropDatabase(w[d].name, false) == nil, "drop database")
		w = append(append(world{}, w[:d]...), w[d+1:]...)
	} else {
		tx := eng.Begin()
		ss := w[d].schemas
		if len(ss) == 0 {
			sym.Stop()
		}
		k := sym.Choose("schema", len(ss))
		sym.Assert(tx.DropSchema(ctx, types.SchemaName{Database: w[d].name, Schema: ss[k]}, false) == nil, "drop schema")
		sym.Assert(tx.Commit(ctx) == nil, "commit")
		w[d].schemas = append(append([]types.Identifier{}, ss[:k]...), ss[k+1:]...)
	}
	sym.Reach("dropped")
	w.checkDatabases(eng)
	tx = eng.Begin()
	for i := 0; i < n; i++ {
		w.checkSchemas(tx, []types.Identifier{numbered("d", i)})
	}
	w.checkSchemas(tx, []types.Identifier{types.MAHO, types.SYSTEM})
	sym.Assert(tx.Rollback() == nil, "rollback")
}

// ManyTables: many tables of many columns over several schemas and
// transactions, one of which is rolled back.
func ManyTables() {
	eng := newEngine()
	n, per := sym.Param("tables", 24), sym.Param("per", 6)
	cols := sym.Param("cols", 20)
	other := types.ID("other", true)
	tx := eng.Begin()
	sym.Assert(tx.CreateSchema(ctx, types.SchemaName{Database: types.MAHO, Schema: other}) == nil, "create schema")
	sym.Assert(tx.Commit(ctx) == nil, "commit")
	undo := sym.Choose("undo", n/per+1)
	var tables, undone []tableModel
	ids := map[storage.TableId]bool{}
	for i := 0; i < n; i += per {
		tx := eng.Begin()
		var made []tableModel
		for j := i; j < i+per; j++ {
			m := tableModel{tn: types.TableName{Database: types.MAHO, Schema: types.PUBLIC, Table: numbered("t", j/2)}}
			if j%2 == 1 {
				m.tn.Schema = other
			}
			for c := 0; c < 1+(j*7)%cols; c++ {
				m.names = append(m.names, numbered("c", c))
				m.cts = append(m.cts, types.ColumnType{Type: types.Int64Type, Size: uint32(2 << (c % 3)), NotNull: c%2 == 0})
			}
			if j == n/2 {
				c := len(m.cts) - 1
				m.cts[c] = types.ColumnType{Type: types.ValueType(sym.Byte("type")), Size: sym.Uint32("size"), Fixed: sym.Bool("fixed"), NotNull: sym.Bool("notnull")}
			}
			for c := len(m.names) - 1; c >= 0; c -= 2 {
				m.key = append(m.key, types.MakeColumnKey(types.ColumnNum(c), c%3 == 0))
			}
			sym.Assert(tx.CreateTable(ctx, m.tn, m.names, m.cts, m.key) == nil, "create table")
			t, err := tx.OpenTable(ctx, m.tn)
			sym.Assert(err == nil && m.matches(t), "the own table is found")
			m.tid = t.TableId()
			made = append(made, m)
		}
		if i/per == undo {
			sym.Assert(tx.Rollback() == nil, "rollback")
			undone = made
			continue
		}
		sym.Assert(tx.Commit(ctx) == nil, "commit")
		tables = append(tables, made...)
	}
	tx = eng.Begin()
	for _, m := range tables {
		t, err := tx.OpenTable(ctx, m.tn)
		sym.Assert(err == nil && m.matches(t) && t.TableId() == m.tid, "every table is found with its definition and id")
		sym.Assert(m.tid > 511 && !ids[m.tid], "no two tables share an id")
		ids[m.tid] = true
		sym.Assert(tx.CreateTable(ctx, m.tn, m.names, m.cts, m.key) != nil, "an existing name is refused")
	}
	for _, m := range undone {
		_, err := tx.OpenTable(ctx, m.tn)
		sym.Assert(err != nil, "tables rolled back are gone")
	}
	sym.Assert(tx.Rollback() == nil, "rollback")
	sym.Reach("opened")
}

type manyRec struct {
	Num  int64  `maho:"primary"`
	Name string `maho:"size=8"`
}

// ManyRecords: ranges, look-ups and changes in a table of many records.
func ManyRecords() {
	ti := engine.MakeTypedInfo(1000, tableName("many"), manyRec{})
	tx := newStore().Begin()
	sym.Assert(engine.CreateTypedTable(ctx, tx, ti) == nil, "create")
	n := sym.Param("rows", 40)
	var recs []manyRec
	for i := 0; i < n; i++ {
		r := manyRec{int64(2*i - n), "r" + strconv.Itoa(i)}
		recs = append(recs, r)
		sym.Assert(engine.TypedTableInsert(ctx, tx, ti, &r) == nil, "insert")
	}
	x := manyRec{Num: int64(sym.Int8("x"))}
	check := func(min, max interface{}, want []manyRec) {
		i := 0
		err := engine.TypedTableSelect(ctx, tx, ti, min, max, func(row types.Row) error {
			var r manyRec
			ti.RowToStruct(row, &r)
			sym.Assert(i < len(want) && r == want[i], "a range selection visits exactly the records in range in key order")
			i++
			return nil
		})
		sym.Assert(err == nil && i == len(want), "all of them")
	}
	var want []manyRec
	switch sym.Choose("what", 5) {
	case 0:
		for _, r := range recs {
			if r.Num >= x.Num {
				want = append(want, r)
			}
		}
		check(&x, nil, want)
		sym.Reach("range")
	case 1:
		for _, r := range recs {
			if r.Num <= x.Num {
				want = append(want, r)
			}
		}
		check(nil, &x, want)
	case 2:
		err := engine.TypedTableLookup(ctx, tx, ti, &x)
		found := false
		for _, r := range recs {
			if r.Num == x.Num {
				found = true
				sym.Assert(x == r, "the record found")
			}
		}
		sym.Reach("lookup")
		sym.Assert((err == nil) == found, "a record is found exactly when it exists")
	case 3:
		// Rename the records from a key on.
		for _, r := range recs {
			if r.Num >= x.Num {
				r.Name = "new"
			}
			want = append(want, r)
		}
		err := engine.TypedTableUpdate(ctx, tx, ti, &x, nil, func(row types.Row) (interface{}, error) {
			return &struct{ Name string }{"new"}, nil
		})
		sym.Assert(err == nil, "update")
		check(nil, nil, want)
		sym.Reach("updated")
	case 4:
		for _, r := range recs {
			if r.Num > x.Num {
				want = append(want, r)
			}
		}
		err := engine.TypedTableDelete(ctx, tx, ti, nil, &x, func(row types.Row) (bool, error) { return true, nil })
		sym.Assert(err == nil, "delete")
		check(nil, nil, want)
		sym.Reach("deleted")
	}
	sym.Assert(tx.Commit(ctx) == nil, "commit")
}
