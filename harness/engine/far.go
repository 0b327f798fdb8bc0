package engine

import (
	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/sym"
)

type counterRow struct {
	Sequence string `maho:"size=128,primary"`
	Current  int64
}

// FarIds: tables created when any number of tables has been created before.
func FarIds() {
	st := newStore()
	sym.Assert(engine.Init(st) == nil, "init")
	eng := engine.NewEngine(st)
	tn := types.TableName{Database: types.SYSTEM, Schema: types.INFO, Table: types.SEQUENCES}
	tx := eng.Begin()
	t, err := tx.OpenTable(ctx, tn)
	sym.Assert(err == nil, "open sequences")
	sym.Assert(tx.Rollback() == nil, "rollback")
	start := sym.Int64("start")
	n := sym.Param("tables", 4)
	sym.Assume(sym.And(start > 511, start < 1<<32-int64(2*n)))
	stx := st.Begin()
	found := 0
	err = engine.TypedTableUpdate(ctx, stx, engine.MakeTypedInfo(t.TableId(), tn, counterRow{}), nil, nil,
		func(row types.Row) (interface{}, error) {
			found++
			return &struct{ Current int64 }{start}, nil
		})
	sym.Assert(err == nil && found == 1 && stx.Commit(ctx) == nil, "one sequence")
	var tables []tableModel
	undo, end := sym.Choose("undo", n+1), sym.Choose("end", 2) == 0
	tx = eng.Begin()
	for i := 0; i < n; i++ {
		m := tableModel{tn: types.TableName{Database: types.MAHO, Schema: types.PUBLIC, Table: numbered("t", i)},
			names: []types.Identifier{numbered("c", i)}, cts: []types.ColumnType{{Type: types.Int64Type, Size: 8}}}
		sym.Assert(tx.CreateTable(ctx, m.tn, m.names, m.cts, nil) == nil, "create table")
		t, err := tx.OpenTable(ctx, m.tn)
		sym.Assert(err == nil && m.matches(t), "the own table is found")
		m.tid = t.TableId()
		sym.Assert(m.tid >= storage.TableId(start), "an identity is not used again")
		for _, o := range tables {
			sym.Assert(o.tid != m.tid, "no two tables share an identity")
		}
		if i == undo {
			sym.Assert(tx.Rollback() == nil, "rollback")
			tx = eng.Begin()
			continue
		}
		tables = append(tables, m)
		if end {
			sym.Assert(tx.Commit(ctx) == nil, "commit")
			tx = eng.Begin()
		} else if undo > i && undo < n {
			sym.Stop()
		}
	}
	for _, m := range tables {
		t, err := tx.OpenTable(ctx, m.tn)
		sym.Assert(err == nil && m.matches(t) && t.TableId() == m.tid, "every table is found with its definition and identity")
	}
	sym.Reach("far")
	sym.Assert(tx.Rollback() == nil, "rollback")
}

// Where: tables in every combination of databases and schemas which exist or
// do not, in the built-in database too.
func Where() {
	eng := newEngine()
	a := sym.String("name", 1)
	sym.Assume(a[0] < 0x80)
	x := types.ID(a, true)
	sym.Assume(x != types.MAHO && x != types.SYSTEM)
	with := sym.Choose("with", 4)
	if with > 0 {
		sym.Assert(eng.CreateDatabase(x, nil) == nil, "create database")
	}
	tx := eng.Begin()
	if with > 1 {
		sym.Assert(tx.CreateSchema(ctx, types.SchemaName{Database: x, Schema: types.PUBLIC}) == nil, "create schema")
	}
	if with > 2 {
		sym.Assert(tx.CreateSchema(ctx, types.SchemaName{Database: types.MAHO, Schema: x}) == nil, "create schema")
		sym.Assert(tx.CreateSchema(ctx, types.SchemaName{Database: types.SYSTEM, Schema: x}) == nil, "create schema")
	}
	names := []types.Identifier{types.MAHO, types.SYSTEM, types.PUBLIC, types.INFO, x}
	d, s := sym.Choose("db", len(names)), sym.Choose("schema", len(names))
	ok := d == 0 && s == 2 || d == 1 && s == 3 || d == 4 && s == 2 && with > 1 || d < 2 && s == 4 && with > 2
	m := tableModel{tn: types.TableName{Database: names[d], Schema: names[s], Table: types.ID(sym.String("table", 1), true)},
		names: []types.Identifier{x}, cts: []types.ColumnType{{Type: types.Int64Type, Size: 8}}}
	err := tx.CreateTable(ctx, m.tn, m.names, m.cts, nil)
	sym.Assert((err == nil) == ok, "a table is created exactly when its schema exists")
	sym.Reach("where")
	for i, db := range names {
		for j, sc := range names {
			t, err := tx.OpenTable(ctx, types.TableName{Database: db, Schema: sc, Table: m.tn.Table})
			sym.Assert((err == nil) == (ok && i == d && j == s), "only the created table is found")
			if err == nil {
				sym.Assert(m.matches(t) && t.TableId() > 511, "with its definition")
			}
		}
	}
	sym.Assert(tx.Rollback() == nil, "rollback")
}
