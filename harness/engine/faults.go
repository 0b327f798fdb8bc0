package engine

import (
	"errors"
	"strings"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/fault"
	"github.com/leftmike/maho/zzverif/sym"
)

// FaultInit: setting up a store which fails can be repeated.
func FaultInit() {
	st := fault.New()
	st.Arm("fault")
	err := engine.Init(st)
	sym.Assert((err != nil) == st.Hit && !(st.Ended && !st.Hit) && (err == nil || fault.Reported(err)), "the failure is reported, and only a failure")
	st.Disarm()
	sym.Assert(st.Live == 0 && st.Open == 0, "no transaction or scan is left open")
	if err != nil {
		sym.Reach("failed")
		sym.Assert(engine.Init(st) == nil, "setting up can be repeated")
	} else {
		sym.Reach("worked")
	}
	sym.Assert(fault.Catalog(engine.NewEngine(st)) == "maho(public )system(info )", "the store is set up")
}

// FaultDatabases: the operations of the engine which are a transaction of
// their own.
func FaultDatabases() {
	st, eng := fault.Engine()
	before := fault.Catalog(eng)
	dn := fault.Name("db")
	flag := sym.Bool("if")
	op := fault.Pick("op", 3)
	st.Arm("fault")
	var err error
	switch op {
	case 0:
		err = eng.CreateDatabase(dn, nil)
	case 1:
		err = eng.DropDatabase(dn, flag)
	case 2:
		var l []types.Identifier
		l, err = eng.ListDatabases()
		sym.Assert(err != nil || len(l) == 3, "the complete list or an error")
	}
	st.Disarm()
	sym.Assert(st.Live == 0 && st.Open == 0, "no transaction or scan is left open")
	if st.Hit {
		sym.Reach("failed")
		sym.Assert(fault.Reported(err), "the failure is reported")
	} else {
		sym.Reach("worked")
		exists := dn == fault.DB
		sym.Assert((err == nil) == (op == 2 || op == 0 && !exists || op == 1 && (exists || flag)), "only a failure is reported")
	}
	if err != nil {
		sym.Assert(fault.Catalog(eng) == before, "a failed operation leaves nothing behind")
	}
}

// FaultTx: the operations of a transaction.
func FaultTx() {
	st, eng := fault.Engine()
	before := fault.Catalog(eng)
	tx := eng.Begin()
	dn := types.MAHO
	tn := fault.Table
	switch fault.Pick("name", 5) {
	case 1:
		dn = types.ID("g", true)
	case 2:
		tn.Schema = fault.Name("schema")
	case 3:
		tn.Table = fault.Name("table")
	case 4:
		tn.Schema, tn.Table = types.ID("z", true), types.ID("u", true)
	}
	tn.Database = dn
	flag := sym.Bool("if")
	op := fault.Pick("op", 7)
	st.Arm("fault")
	var err error
	switch op {
	case 0:
		err = tx.CreateSchema(ctx, tn.SchemaName())
	case 1:
		err = tx.DropSchema(ctx, tn.SchemaName(), flag)
	case 2:
		var l []types.Identifier
		l, err = tx.ListSchemas(ctx, dn)
		sym.Assert(err != nil || len(l) == 2, "the complete list or an error")
	case 3:
		var t engine.Table
		t, err = tx.OpenTable(ctx, tn)
		sym.Assert(err != nil || t.Name() == tn && len(t.Type().ColumnNames) == 1, "the table or an error")
	case 4:
		err = tx.CreateTable(ctx, tn, fault.Cols, fault.Types, nil)
	case 5, 6:
		sn := types.SchemaName{Database: types.MAHO, Schema: types.ID("z", true)}
		err = tx.CreateSchema(ctx, sn)
		if err != nil {
			break
		}
		if op == 5 {
			err = tx.Commit(ctx)
			sym.Assert(tx.Commit(ctx) != nil && tx.Rollback() != nil, "a transaction ends once")
		} else {
			err = tx.Rollback()
			sym.Assert(tx.Commit(ctx) != nil && tx.Rollback() != nil, "a transaction ends once")
		}
	}
	st.Disarm()
	sym.Assert(st.Open == 0, "no scan is left open")
	if st.Hit {
		sym.Reach("failed")
		sym.Assert(fault.Reported(err), "the failure is reported")
	} else {
		sym.Reach("worked")
		sym.Assert(fault.Reported(err) == (st.Ended && op == 6), "only a failure is reported")
	}
	if st.Live > 0 {
		sym.Assert(st.Live == 1 && tx.Rollback() == nil, "the transaction can be rolled back")
	}
	if op != 5 || err != nil {
		sym.Assert(fault.Catalog(eng) == before, "what was rolled back or failed leaves nothing behind")
	} else {
		sym.Assert(fault.Catalog(eng) != before, "what was committed is there")
	}
	sym.Assert(st.Live == 0, "no transaction is left open")
}

var errCallback = errors.New("callback")

// FaultTyped: reading and changing typed tables, with the store and the
// callback failing.
func FaultTyped() {
	st := fault.New()
	ti := engine.MakeTypedInfo(1000, tableName("typed"), faultRec{})
	setup := st.Begin()
	sym.Assert(engine.CreateTypedTable(ctx, setup, ti) == nil, "create")
	rows := sym.Param("rows", 2)
	for i := 0; i < rows; i++ {
		sym.Assert(engine.TypedTableInsert(ctx, setup, ti, &faultRec{Key: int64(i), Val: int64(10 + i)}) == nil, "insert")
	}
	sym.Assert(setup.Commit(ctx) == nil, "commit")

	tx := st.Begin()
	op := fault.Pick("op", 6)
	stop := int(sym.Byte("stop")) // the callback which fails
	st.Arm("fault")
	seen := 0
	callback := func() error {
		seen++
		if seen-1 == stop {
			return errCallback
		}
		return nil
	}
	var err error
	switch op {
	case 0:
		err = engine.TypedTableInsert(ctx, tx, ti, &faultRec{Key: int64(rows + 7)}, &faultRec{Key: int64(rows + 8)})
	case 1:
		r := &faultRec{Key: 0}
		err = engine.TypedTableLookup(ctx, tx, ti, r)
		sym.Assert(err != nil || r.Val == 10, "the record or an error")
	case 2:
		err = engine.TypedTableSelect(ctx, tx, ti, nil, nil, func(row types.Row) error { return callback() })
	case 3:
		err = engine.TypedTableUpdate(ctx, tx, ti, nil, nil, func(row types.Row) (interface{}, error) {
			if err := callback(); err != nil {
				return nil, err
			}
			return &struct{ Val int64 }{99}, nil
		})
	case 4:
		err = engine.TypedTableDelete(ctx, tx, ti, nil, nil, func(row types.Row) (bool, error) { err := callback(); return true, err })
	case 5:
		err = engine.CreateTypedTable(ctx, tx, engine.MakeTypedInfo(1001, tableName("other"), faultRec{}))
	}
	st.Disarm()
	sym.Assert(st.Open == 0, "no scan is left open")
	wants := op >= 2 && op <= 4 && seen > stop
	switch {
	case st.Hit:
		sym.Reach("failed")
		sym.Assert(fault.Reported(err), "the failure is reported")
		sym.Assert(!wants, "nothing else is called after a failure")
	case wants:
		sym.Reach("callback")
		sym.Assert(err != nil && strings.Contains(err.Error(), "callback"), "the failure of the callback is reported")
		sym.Assert(seen == stop+1, "nothing else is called after it")
	default:
		sym.Reach("worked")
		sym.Assert(err == nil, "only a failure is reported")
		sym.Assert(op < 2 || op == 5 || seen == rows, "every record is visited")
	}
	end := func(tx storage.Transaction) {
		sym.Assert(tx.Rollback() == nil, "the transaction can be rolled back")
	}
	end(tx)
	check := st.Begin()
	for i := 0; i < rows; i++ {
		r := &faultRec{Key: int64(i)}
		sym.Assert(engine.TypedTableLookup(ctx, check, ti, r) == nil && r.Val == int64(10+i), "what was rolled back leaves nothing behind")
	}
	end(check)
	sym.Assert(st.Live == 0 && st.Open == 0, "no transaction or scan is left open")
}

type faultRec struct {
	Key int64 `maho:"primary"`
	Val int64
}
