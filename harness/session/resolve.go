package session

import (
	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/evaluate"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/sym"
)

// tableName is a name as it can be written: t, s.t or d.s.t.
func tableName(nm string) types.TableName {
	tn := types.TableName{Table: ident(nm + ".t")}
	q := pick(nm+".qualified", 3)
	if q > 0 {
		tn.Schema = ident(nm + ".s")
	}
	if q > 1 {
		tn.Database = ident(nm + ".d")
	}
	return tn
}

func schemaName(nm string) types.SchemaName {
	sn := types.SchemaName{Schema: ident(nm + ".s")}
	if sym.Bool(nm + ".qualified") {
		sn.Database = ident(nm + ".d")
	}
	return sn
}

type defaults struct{ db, schema types.Identifier }

func (d defaults) table(tn types.TableName) types.TableName {
	if tn.Schema == 0 {
		tn.Schema = d.schema
	}
	if tn.Database == 0 {
		tn.Database = d.db
	}
	return tn
}

func (d defaults) schemaName(sn types.SchemaName) types.SchemaName {
	if sn.Database == 0 {
		sn.Database = d.db
	}
	return sn
}

func sameTable(a, b types.TableName) bool {
	return sym.And(sym.And(a.Database == b.Database, a.Schema == b.Schema), a.Table == b.Table)
}

func sameSchema(a, b types.SchemaName) bool {
	return sym.And(a.Database == b.Database, a.Schema == b.Schema)
}

// Names: a name resolves against the defaults, whatever they and it are.
func Names() {
	d := defaults{ident("db"), ident("schema")}
	ses := evaluate.NewSession(&fakeEngine{}, d.db, d.schema)
	tn, sn := tableName("table"), schemaName("schema")
	sym.Reach("resolved")
	sym.Assert(sameTable(ses.ResolveTable(tn), d.table(tn)), "a table name resolves against the defaults")
	sym.Assert(sameSchema(ses.ResolveSchema(sn), d.schemaName(sn)), "a schema name resolves against the default database")
	r := ses.ResolveTable(ses.ResolveTable(tn))
	sym.Assert(sameTable(r, d.table(tn)), "a resolved name does not change again")
}

// Evaluated: the names of an evaluated statement reach the engine resolved,
// after any settings of the defaults.
func Evaluated() {
	eng := &fakeEngine{}
	d := defaults{ident("db"), ident("schema")}
	ses := evaluate.NewSession(eng, d.db, d.schema)
	for i := 0; i < sym.Param("sets", 2); i++ {
		nm := "set" + string(rune('0'+i))
		switch pick(nm, 5) {
		case 0:
			v := letter(nm + ".value")
			sym.Assert(ses.Evaluate(ctx, &sql.Set{Variable: types.DATABASE, Value: v}) == nil, "set database")
			d.db = types.ID(v, false)
		case 1:
			v := letter(nm + ".value")
			sym.Assert(ses.Evaluate(ctx, &sql.Set{Variable: types.SCHEMA, Value: v}) == nil, "set schema")
			d.schema = types.ID(v, false)
		case 2:
			id := ident(nm + ".variable")
			sym.Assert(ses.Evaluate(ctx, &sql.Set{Variable: id, Value: "x"}) != nil, "set of anything else fails")
		case 3:
			ses.Evaluate(ctx, &sql.Begin{})
		case 4:
			ses.Evaluate(ctx, &sql.Rollback{})
		}
	}
	from := len(eng.calls)
	kind := pick("stmt", 6)
	switch kind {
	case 0, 1:
		sn := schemaName("n")
		var stmt sql.Stmt = &sql.CreateSchema{Schema: sn}
		if kind == 1 {
			stmt = &sql.DropSchema{Schema: sn, IfExists: sym.Bool("if")}
		}
		sym.Assert(ses.Evaluate(ctx, stmt) == nil, "evaluated")
		sym.Assert(sameSchema(eng.calls[from].sn, d.schemaName(sn)), "the schema is resolved")
	case 2, 3, 4:
		tn := tableName("n")
		var stmt sql.Stmt
		switch kind {
		case 2:
			stmt = &sql.CreateTable{Table: tn}
		case 3:
			stmt = &sql.CreateIndex{Table: tn, Index: ident("index")}
			eng.table = &engine.TableType{}
		case 4:
			stmt = &sql.DropIndex{Table: tn, Index: ident("index")}
		}
		sym.Assert(ses.Evaluate(ctx, stmt) == nil, "evaluated")
		n := 0
		for _, c := range eng.calls[from:] {
			if c.op == "commit" {
				continue
			}
			n++
			sym.Assert(sameTable(c.tn, d.table(tn)), "the table is resolved")
		}
		sym.Assert(n == 2 || kind == 4 && n == 1, "the engine is asked")
	case 5:
		tns := []types.TableName{tableName("n0"), tableName("n1"), tableName("n2")}
		tns = tns[:1+pick("tables", 3)]
		stmt := &sql.DropTable{Tables: append([]types.TableName{}, tns...)}
		sym.Assert(ses.Evaluate(ctx, stmt) == nil, "evaluated")
		for i, tn := range tns {
			sym.Assert(eng.calls[from+i].op == "drop table", "every table is dropped")
			sym.Assert(sameTable(eng.calls[from+i].tn, d.table(tn)), "every table is resolved")
		}
	}
	sym.Reach("evaluated")
}

type fixed struct{ d defaults }

func (f fixed) ResolveTable(tn types.TableName) types.TableName    { return f.d.table(tn) }
func (f fixed) ResolveSchema(sn types.SchemaName) types.SchemaName { return f.d.schemaName(sn) }

// Statements: resolving a statement resolves its table and changes nothing
// else in it.
func Statements() {
	d := defaults{ident("db"), ident("schema")}
	tn := tableName("n")
	want := d.table(tn)
	f := fixed{d}
	c := []types.Identifier{ident("c")}
	where := sql.Ref{ident("where")}
	sym.Reach("resolved")
	switch pick("stmt", 8) {
	case 0:
		s := sql.Copy{Table: tn, Columns: c, Delimiter: rune(sym.Int32("delimiter"))}
		dl := s.Delimiter
		s.Resolve(f)
		sym.Assert(sameTable(s.Table, want), "COPY")
		sym.Assert(s.Delimiter == dl && len(s.Columns) == 1 && s.Columns[0] == c[0], "the rest is unchanged")
	case 1:
		s := sql.Delete{Table: tn, Where: where}
		s.Resolve(f)
		sym.Assert(sameTable(s.Table, want), "DELETE")
		sym.Assert(s.Where.(sql.Ref)[0] == where[0], "the rest is unchanged")
	case 2:
		s := sql.InsertValues{Table: tn, Columns: c, Rows: [][]sql.Expr{{where}}}
		s.Resolve(f)
		sym.Assert(sameTable(s.Table, want), "INSERT")
		sym.Assert(len(s.Columns) == 1 && s.Columns[0] == c[0] && len(s.Rows) == 1 && s.Rows[0][0].(sql.Ref)[0] == where[0], "the rest is unchanged")
	case 3:
		s := sql.Update{Table: tn, ColumnUpdates: []sql.ColumnUpdate{{Column: c[0], Expr: where}}, Where: where}
		s.Resolve(f)
		sym.Assert(sameTable(s.Table, want), "UPDATE")
		sym.Assert(len(s.ColumnUpdates) == 1 && s.ColumnUpdates[0].Column == c[0] && s.Where.(sql.Ref)[0] == where[0], "the rest is unchanged")
	case 4:
		s := sql.AlterTable{Table: tn, Actions: []sql.AlterAction{&sql.DropConstraint{Name: c[0]}}}
		s.Resolve(f)
		sym.Assert(sameTable(s.Table, want), "ALTER TABLE")
		sym.Assert(len(s.Actions) == 1, "the rest is unchanged")
	case 5:
		s := sql.DropTable{Tables: []types.TableName{tn, tn}, Cascade: sym.Bool("cascade")}
		s.Resolve(f)
		sym.Assert(len(s.Tables) == 2, "DROP TABLE")
		sym.Assert(sym.And(sameTable(s.Tables[0], want), sameTable(s.Tables[1], want)), "DROP TABLE")
	case 6:
		s := sql.CreateIndex{Table: tn, Index: c[0], Key: sql.IndexKey{Columns: c, Reverse: []bool{true}}}
		s.Resolve(f)
		sym.Assert(sameTable(s.Table, want), "CREATE INDEX")
		sym.Assert(s.Index == c[0] && s.Key.Columns[0] == c[0], "the rest is unchanged")
	case 7:
		s := sql.CreateTable{Table: tn, Columns: c}
		s.Resolve(f)
		sym.Assert(sameTable(s.Table, want), "CREATE TABLE")
		sym.Assert(len(s.Columns) == 1 && s.Columns[0] == c[0], "the rest is unchanged")
	}
}
