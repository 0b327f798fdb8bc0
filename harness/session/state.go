package session

import (
	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/evaluate"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/sym"
)

// pick returns a symbolic value below n; where it matters the execution
// forks, decided by the solver.
func pick(nm string, n int) int {
	b := sym.Byte(nm)
	sym.Assume(int(b) < n)
	return int(b)
}

// ident is any identifier of a range without predefined names (where one is
// printed each of those would be a case of its own).
func ident(nm string) types.Identifier {
	id := types.Identifier(sym.Int32(nm))
	sym.Assume(id >= 1<<20)
	return id
}

// work returns a statement other than those on transactions, databases and
// settings, the number of engine calls it makes on success and whether the
// failure of the first one is a failure of the statement.
func work(nm string) (stmt sql.Stmt, ops []string) {
	d, s, t := ident(nm+".d"), ident(nm+".s"), ident(nm+".t")
	tn := types.TableName{Database: d, Schema: s, Table: t}
	switch pick(nm, 7) {
	case 0:
		return &sql.CreateSchema{Schema: types.SchemaName{Database: d, Schema: s}}, []string{"create schema"}
	case 1:
		return &sql.DropSchema{Schema: types.SchemaName{Database: d, Schema: s}, IfExists: sym.Bool(nm + ".if")}, []string{"drop schema"}
	case 2:
		return &sql.CreateTable{Table: tn}, []string{"open table", "create table"}
	case 3:
		return &sql.DropTable{Tables: []types.TableName{tn, tn}}, []string{"drop table", "drop table"}
	case 4:
		return &sql.CreateIndex{Table: tn, Index: t}, []string{"open table", "create index"}
	case 5:
		return &sql.DropTable{Tables: []types.TableName{tn}}, []string{"drop table"}
	}
	return &sql.DropIndex{Table: tn, Index: t}, []string{"drop index"}
}

// Protocol: the calls a session makes on the engine, with the engine refusing
// any of them.
func Protocol() {
	eng := &fakeEngine{fail: true}
	ses := evaluate.NewSession(eng, types.MAHO, types.PUBLIC)
	active := 0
	long(eng, ses, sym.Param("before", 0))
	steps := sym.Param("steps", 3)
	for i := 0; i < steps; i++ {
		nm := "s" + string(rune('0'+i))
		from := len(eng.calls)
		begun := eng.begun
		op := pick(nm+".op", 7)
		var stmt sql.Stmt
		var ops []string
		var dn types.Identifier
		flag := false
		switch op {
		case 0:
			stmt = &sql.Begin{}
		case 1:
			stmt = &sql.Commit{}
		case 2:
			stmt = &sql.Rollback{}
		case 3:
			dn = ident(nm + ".d")
			stmt = &sql.CreateDatabase{Database: dn, Options: map[types.Identifier]string{7002: "x"}}
		case 4:
			dn = ident(nm + ".d")
			flag = sym.Bool(nm + ".if")
			stmt = &sql.DropDatabase{Database: dn, IfExists: flag}
		case 5:
			stmt = &sql.Set{Variable: [3]types.Identifier{types.DATABASE, types.SCHEMA, types.TABLE}[pick(nm+".var", 3)], Value: "x"}
		case 6:
			stmt, ops = work(nm + ".work")
			eng.table = nil
			if ops[len(ops)-1] == "create index" {
				eng.table = &engine.TableType{}
			}
		}
		err := ses.Evaluate(ctx, stmt)
		calls := eng.calls[from:]
		bad := false
		for _, c := range calls {
			bad = bad || c.bad && c.op != "rollback"
		}
		switch op {
		case 0:
			sym.Assert((err == nil) == (active == 0), "BEGIN succeeds exactly when no transaction is active")
			sym.Assert(len(calls) == 0 && eng.begun-begun == b2i(active == 0), "BEGIN opens one transaction")
			if active == 0 {
				active = eng.begun
			}
		case 1, 2:
			if active == 0 {
				sym.Assert(err != nil && len(calls) == 0, "COMMIT and ROLLBACK are refused without a transaction")
				break
			}
			want := "commit"
			if op == 2 {
				want = "rollback"
			}
			sym.Assert(len(calls) == 1 && calls[0].op == want && calls[0].tx == active, "COMMIT and ROLLBACK end the active transaction")
			sym.Assert((err != nil) == calls[0].bad, "and report whether it failed")
			active = 0
		case 3, 4:
			if active != 0 {
				sym.Assert(err != nil && len(calls) == 0, "database creation and removal are refused inside a transaction")
				break
			}
			want := "create database"
			if op == 4 {
				want = "drop database"
			}
			sym.Assert(len(calls) == 1 && calls[0].op == want && calls[0].db == dn, "the database is created or dropped")
			sym.Assert(op == 4 || calls[0].opts == 1, "with its options")
			sym.Assert(calls[0].flag == flag, "with its existence clause")
			sym.Assert((err != nil) == bad, "and a failure is reported")
		case 5:
			sym.Assert((err == nil) == (stmt.(*sql.Set).Variable != types.TABLE), "SET succeeds exactly for the database and the schema")
			sym.Assert(len(calls) == 0 && eng.begun == begun, "SET does not touch the engine")
		case 6:
			tx := active
			if active == 0 {
				sym.Assert(eng.begun == begun+1, "a statement outside a transaction opens its own")
				tx = eng.begun
			} else {
				sym.Assert(eng.begun == begun, "a statement inside a transaction uses that one")
			}
			n := 0
			for n < len(calls) && n < len(ops) && calls[n].op == ops[n] && calls[n].tx == tx {
				n++
			}
			sym.Assert(n > 0 && (n == len(ops)) || calls[n-1].bad, "the statement does all its work or is stopped by a failure")
			sym.Assert((err != nil) == bad, "a failure is reported")
			rest := calls[n:]
			if active != 0 {
				sym.Assert(len(rest) == 0, "a statement inside a transaction does not end it")
				break
			}
			sym.Assert(len(rest) == 1 && rest[0].tx == tx, "a statement outside a transaction ends its own")
			if n < len(ops) || calls[n-1].bad {
				sym.Assert(rest[0].op == "rollback", "a statement which failed is undone")
			} else {
				sym.Assert(rest[0].op == "commit", "a statement which succeeded is committed")
			}
		}
		open := 0
		if active != 0 {
			open = 1
		}
		sym.Assert(eng.open == open, "no transaction is left open or ended early")
	}
	sym.Reach("done")
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// model of the catalog: schemas of the two databases and the tables in them
type catalog struct {
	dbs     [2]bool
	schemas [2][2]bool
	tables  [2][2]bool
}

func newEngine() engine.Engine {
	st, err := basic.NewStore("")
	sym.Assert(err == nil, "new store")
	sym.Assert(engine.Init(st) == nil, "init")
	return engine.NewEngine(st)
}

// State: statements from two sessions against the real engine; the catalog
// always equals the reference, and no session blocks the other.
func State() {
	eng := newEngine()
	dbIDs := [2]types.Identifier{types.MAHO, types.ID(letter("db"), true)}
	schemaIDs := [2]types.Identifier{types.PUBLIC, types.ID("s", true)}
	tableID := types.ID("t", true)
	ses := [2]*evaluate.Session{evaluate.NewSession(eng, types.MAHO, types.PUBLIC), evaluate.NewSession(eng, types.MAHO, types.PUBLIC)}
	var w, saved catalog
	w.dbs[0] = true
	w.schemas[0][0] = true
	var active [2]bool
	if sym.Param("begin", 0) == 1 {
		sym.Assert(ses[0].Evaluate(ctx, &sql.Begin{}) == nil, "begin")
		saved = w
		active[0] = true
	}
	steps := sym.Param("steps", 3)
	for i := 0; i < steps; i++ {
		nm := "s" + string(rune('0'+i))
		n := 0
		if active[1] {
			n = 1
		} else if !active[0] && i > 0 {
			n = pick(nm+".session", 2)
		}
		in := active[n]
		ok := false
		next := w
		var stmt sql.Stmt
		d, s := 0, 0
		var sn types.SchemaName
		flag := false
		name := func(schema bool) {
			if sym.Bool(nm + ".db") {
				d = 1
			}
			sn.Database = dbIDs[d]
			if schema {
				if sym.Bool(nm + ".schema") {
					s = 1
				}
				sn.Schema = schemaIDs[s]
			}
		}
		switch pick(nm+".op", 8) {
		case 0:
			stmt, ok = &sql.Begin{}, !in
			if ok {
				saved = w
				active[n] = true
			}
		case 1:
			stmt, ok = &sql.Commit{}, in
			active[n] = false
		case 2:
			stmt, ok = &sql.Rollback{}, in
			if ok {
				next = saved
			}
			active[n] = false
		case 3:
			name(false)
			stmt, ok = &sql.CreateDatabase{Database: dbIDs[d]}, !in && !w.dbs[d]
			next.dbs[d] = true
		case 4:
			name(false)
			flag = sym.Bool(nm + ".if")
			stmt, ok = &sql.DropDatabase{Database: dbIDs[d], IfExists: flag}, !in && (w.dbs[d] || flag)
			next.dbs[d], next.schemas[d], next.tables[d] = false, [2]bool{}, [2]bool{}
		case 5:
			name(true)
			stmt, ok = &sql.CreateSchema{Schema: sn}, w.dbs[d] && !w.schemas[d][s]
			next.schemas[d][s] = true
		case 6:
			name(true)
			flag = sym.Bool(nm + ".if")
			stmt, ok = &sql.DropSchema{Schema: sn, IfExists: flag}, w.schemas[d][s] || flag
			next.schemas[d][s], next.tables[d][s] = false, false
		case 7:
			name(true)
			flag = sym.Bool(nm + ".if")
			stmt = &sql.CreateTable{Table: types.TableName{Database: sn.Database, Schema: sn.Schema, Table: tableID}, IfNotExists: flag,
				Columns: []types.Identifier{tableID}, ColumnTypes: []types.ColumnType{{Type: types.Int64Type, Size: 8}}}
			ok = w.schemas[d][s] && (!w.tables[d][s] || flag)
			next.tables[d][s] = true
		}
		err := ses[n].Evaluate(ctx, stmt)
		sym.Assert((err == nil) == ok, "a statement succeeds exactly when it can")
		if ok {
			w = next
		}
	}
	for n := range ses {
		if active[n] && sym.Bool("commit") {
			sym.Assert(ses[n].Evaluate(ctx, &sql.Commit{}) == nil, "commit")
		} else if active[n] {
			sym.Assert(ses[n].Evaluate(ctx, &sql.Rollback{}) == nil, "rollback")
			w = saved
		}
	}
	sym.Reach("compared")
	got, err := eng.ListDatabases()
	sym.Assert(err == nil, "list databases")
	tx := eng.Begin()
	for d := range dbIDs {
		sym.Assert(contains(got, dbIDs[d]) == w.dbs[d], "databases")
		l, err := tx.ListSchemas(ctx, dbIDs[d])
		sym.Assert((err == nil) == w.dbs[d], "list schemas")
		for s := range schemaIDs {
			sym.Assert(contains(l, schemaIDs[s]) == w.schemas[d][s], "schemas")
			_, err := tx.OpenTable(ctx, types.TableName{Database: dbIDs[d], Schema: schemaIDs[s], Table: tableID})
			sym.Assert((err == nil) == w.tables[d][s], "tables")
		}
	}
	sym.Assert(tx.Rollback() == nil, "rollback")
	for n := range ses {
		sym.Assert(ses[n].Evaluate(ctx, &sql.Begin{}) == nil, "the sessions remain usable")
		sym.Assert(ses[n].Evaluate(ctx, &sql.Rollback{}) == nil, "the sessions remain usable")
	}
}

// letter is a name of one byte.
func letter(nm string) string {
	s := sym.String(nm, 1)
	sym.Assume(s[0] < 0x80)
	return s
}

func contains(l []types.Identifier, id types.Identifier) bool {
	for _, x := range l {
		if x == id {
			return true
		}
	}
	return false
}
