package session

import (
	"github.com/leftmike/maho/evaluate"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/fault"
	"github.com/leftmike/maho/zzverif/sym"
)

// Faults: a statement on the real engine whose store fails at any call, in a
// transaction or not.
func Faults() {
	st, eng := fault.Engine()
	_, twin := fault.Engine()
	before := fault.Catalog(eng)
	ses := evaluate.NewSession(eng, types.MAHO, types.PUBLIC)
	ok := evaluate.NewSession(twin, types.MAHO, types.PUBLIC)

	tn := fault.Table
	switch fault.Pick("names", 5) {
	case 1:
		tn.Schema = fault.Name("schema")
	case 2:
		tn.Table = fault.Name("table")
	case 3:
		tn.Database = fault.Name("db")
	case 4:
		tn = types.TableName{Table: types.ID("u", true)}
	}
	flag := sym.Bool("if")
	begin := sym.Bool("begin")
	op := fault.Pick("op", 6)
	stmt := func() sql.Stmt {
		switch op {
		case 0:
			return &sql.CreateSchema{Schema: tn.SchemaName()}
		case 1:
			return &sql.DropSchema{Schema: tn.SchemaName(), IfExists: flag}
		case 2:
			return &sql.CreateTable{Table: tn, IfNotExists: flag, Columns: fault.Cols, ColumnTypes: fault.Types}
		case 3:
			return &sql.CreateIndex{Table: tn, IfNotExists: flag, Index: types.ID("i", true),
				Key: sql.IndexKey{Columns: fault.Cols, Reverse: []bool{false}}}
		case 4:
			return &sql.CreateDatabase{Database: tn.Database}
		}
		return &sql.DropDatabase{Database: tn.Database, IfExists: flag}
	}
	if op >= 4 {
		if begin || tn.Database == 0 {
			sym.Stop()
		}
	} else if begin {
		sym.Assert(ses.Evaluate(ctx, &sql.Begin{}) == nil && ok.Evaluate(ctx, &sql.Begin{}) == nil, "BEGIN")
	}
	want := ok.Evaluate(ctx, stmt())
	st.Arm("fault")
	err := ses.Evaluate(ctx, stmt())
	sym.Assert(st.Open == 0, "no scan is left open")
	if !st.Hit {
		sym.Reach("worked")
		sym.Assert((err == nil) == (want == nil), "only a failure of the store is reported")
	} else {
		sym.Reach("failed")
		// Asking whether a table exists may fail without consequences.
		sym.Assert(err != nil || want == nil, "a failed statement does not succeed")
	}
	if begin {
		end := sql.Stmt(&sql.Rollback{})
		if err == nil && sym.Bool("commit") {
			end = &sql.Commit{}
		}
		sym.Assert(ok.Evaluate(ctx, end) == nil, "end")
		e := ses.Evaluate(ctx, end)
		_, rolled := end.(*sql.Rollback)
		if rolled || e != nil {
			st.Disarm()
			sym.Assert(st.Live == 0, "no transaction is left open")
			sym.Assert(fault.Catalog(eng) == before, "what was rolled back or failed leaves nothing behind")
			return
		}
		sym.Reach("committed")
	}
	st.Disarm()
	sym.Assert(st.Live == 0 && st.Open == 0, "no transaction is left open")
	after := fault.Catalog(eng)
	if err != nil {
		sym.Assert(after == before, "a failed statement leaves nothing behind")
	} else {
		sym.Assert(after == fault.Catalog(twin), "a statement which succeeded took effect entirely")
	}
	sym.Assert(ses.Evaluate(ctx, &sql.Begin{}) == nil, "the session remains usable")
	sym.Assert(ses.Evaluate(ctx, &sql.Rollback{}) == nil, "the session remains usable")
}
