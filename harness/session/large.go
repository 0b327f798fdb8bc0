package session

import (
	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/evaluate"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/sym"
)

// Wide: tables of many columns, keys of many columns and tables with many
// indexes; one place of the key is any column or an unknown one.
func Wide() {
	n := sym.Param("cols", 24)
	k := sym.Param("keys", 9)
	eng := &fakeEngine{}
	ses := evaluate.NewSession(eng, types.MAHO, types.PUBLIC)
	var cols []types.Identifier
	var cts []types.ColumnType
	for i := 0; i < n; i++ {
		cols = append(cols, types.Identifier(1<<20+i))
		cts = append(cts, types.ColumnType{Type: types.StringType, Size: uint32(i + 1), NotNull: i%2 == 0})
	}
	at := []int{0, k / 2, k - 1}[pick("at", 3)]
	any := ident("any")
	sym.Assume(any < types.Identifier(1<<20+n+1))
	var ik sql.IndexKey
	var want []types.ColumnKey
	ok := true
	for i := 0; i < k; i++ {
		id, rev := cols[n-1-2*i], i%3 == 1
		if i == at {
			id, rev = any, sym.Bool("desc")
		}
		ik.Columns = append(ik.Columns, id)
		ik.Reverse = append(ik.Reverse, rev)
		num := int(id) - 1<<20
		ok = ok && num < n
		want = append(want, types.MakeColumnKey(types.ColumnNum(num), rev))
	}
	tn := types.TableName{Database: ident("d"), Schema: ident("s"), Table: ident("t")}
	if sym.Bool("table") {
		stmt := &sql.CreateTable{Table: tn, Columns: cols, ColumnTypes: cts}
		for i := 0; i < n; i++ {
			stmt.Constraints = append(stmt.Constraints, sql.Constraint{Type: sql.UniqueConstraint,
				Key: sql.IndexKey{Columns: []types.Identifier{cols[i]}, Reverse: []bool{false}}})
		}
		stmt.Constraints = append(stmt.Constraints, sql.Constraint{Type: sql.PrimaryConstraint, Key: ik})
		err := ses.Evaluate(ctx, stmt)
		sym.Reach("table")
		sym.Assert((err == nil) == ok, "the table is created unless its key has an unknown column")
		for _, c := range eng.calls {
			if c.op != "create table" {
				continue
			}
			sym.Assert(len(c.cols) == n && len(c.cts) == n, "the columns")
			for i := range cols {
				sym.Assert(c.cols[i] == cols[i] && c.cts[i] == cts[i], "the columns in order with their types")
			}
			sym.Assert(sameTable(c.tn, tn) && sameKey(c.key, want), "the primary key")
		}
		return
	}
	stmt := &sql.CreateIndex{Index: ident("index"), Table: tn, Key: ik, IfNotExists: sym.Bool("if")}
	eng.table = &engine.TableType{ColumnNames: cols, ColumnTypes: cts}
	for i := 0; i < n; i++ {
		eng.table.Indexes = append(eng.table.Indexes, engine.IndexType{Name: types.Identifier(1<<20 + i)})
	}
	exists := stmt.Index < types.Identifier(1<<20+n)
	err := ses.Evaluate(ctx, stmt)
	sym.Reach("index")
	created := 0
	for _, c := range eng.calls {
		if c.op == "create index" {
			created++
			sym.Assert(sameTable(c.tn, tn) && c.in == stmt.Index && sameKey(c.key, want), "the index and its key")
		}
	}
	if exists {
		sym.Assert(created == 0 && (err == nil) == stmt.IfNotExists, "an existing index is left alone")
	} else {
		sym.Assert((err == nil) == ok && created == b2i(ok), "the index is created unless its key has an unknown column")
	}
}

// Many: a statement which drops many tables, the engine refusing any one of
// them.
func Many() {
	n := sym.Param("tables", 40)
	eng := &fakeEngine{}
	ses := evaluate.NewSession(eng, types.MAHO, types.PUBLIC)
	in := sym.Bool("in")
	if in {
		sym.Assert(ses.Evaluate(ctx, &sql.Begin{}) == nil, "begin")
	}
	stmt := &sql.DropTable{}
	for i := 0; i < n; i++ {
		stmt.Tables = append(stmt.Tables, types.TableName{Database: ident("d"), Schema: ident("s"), Table: types.Identifier(1<<20 + i)})
	}
	eng.refuse = 1 + pick("refuse", n+2)
	err := ses.Evaluate(ctx, stmt)
	sym.Reach("dropped")
	done := eng.refuse
	if done > n {
		done = n
	}
	sym.Assert((err != nil) == (eng.refuse <= n || eng.refuse == n+1 && !in), "a failure is reported")
	sym.Assert(len(eng.calls) == done+b2i(!in), "the tables up to the one refused are dropped")
	for i := 0; i < done; i++ {
		sym.Assert(eng.calls[i].op == "drop table" && sameTable(eng.calls[i].tn, stmt.Tables[i]), "in order")
	}
	if !in {
		want := "commit"
		if eng.refuse <= n {
			want = "rollback"
		}
		sym.Assert(eng.calls[done].op == want, "and the transaction is ended")
	}
}

// long runs statements and transactions before the symbolic ones.
func long(eng *fakeEngine, ses *evaluate.Session, n int) {
	fail := eng.fail
	eng.fail = false
	for i := 0; i < n; i++ {
		begun := eng.begun
		sym.Assert(ses.Evaluate(ctx, &sql.Begin{}) == nil, "BEGIN succeeds when no transaction is active")
		sym.Assert(ses.Evaluate(ctx, &sql.DropSchema{}) == nil, "a statement inside a transaction")
		var end sql.Stmt = &sql.Commit{}
		if i%2 == 0 {
			end = &sql.Rollback{}
		}
		sym.Assert(ses.Evaluate(ctx, end) == nil, "COMMIT and ROLLBACK end the active transaction")
		sym.Assert(ses.Evaluate(ctx, &sql.DropSchema{}) == nil, "a statement outside a transaction")
		sym.Assert(eng.begun == begun+2 && eng.open == 0, "a transaction each, ended")
	}
	eng.calls = nil
	eng.fail = fail
}
