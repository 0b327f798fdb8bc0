package session

import (
	"context"
	"errors"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/sym"
)

var ctx = context.Background()

var errFake = errors.New("refused by the engine")

// call is one call which reached the engine.
type call struct {
	op   string
	tx   int
	db   types.Identifier
	tn   types.TableName
	sn   types.SchemaName
	in   types.Identifier
	cols []types.Identifier
	cts  []types.ColumnType
	key  []types.ColumnKey
	flag bool
	opts int
	bad  bool // the engine refused it
}

// fakeEngine records every call; each one fails or succeeds as its symbolic
// input says.
type fakeEngine struct {
	calls  []call
	begun  int
	open   int // transactions begun and not ended
	fail   bool
	refuse int               // the call refused, from 1
	table  *engine.TableType // the table found by OpenTable, or nil
}

type fakeTx struct {
	eng  *fakeEngine
	n    int
	done bool
}

type fakeTable struct {
	tn types.TableName
	tt *engine.TableType
}

func (t *fakeTable) Name() types.TableName    { return t.tn }
func (t *fakeTable) Type() *engine.TableType  { return t.tt }
func (t *fakeTable) TableId() storage.TableId { return 1000 }

func (e *fakeEngine) record(c call) error {
	c.bad = e.fail && sym.Bool("refused."+string(rune('a'+len(e.calls)))) || e.refuse == len(e.calls)+1
	e.calls = append(e.calls, c)
	if c.bad {
		return errFake
	}
	return nil
}

func (e *fakeEngine) CreateDatabase(dn types.Identifier, opts storage.OptionsMap) error {
	return e.record(call{op: "create database", db: dn, opts: len(opts)})
}

func (e *fakeEngine) DropDatabase(dn types.Identifier, ifExists bool) error {
	return e.record(call{op: "drop database", db: dn, flag: ifExists})
}

func (e *fakeEngine) ListDatabases() ([]types.Identifier, error) { return nil, nil }

func (e *fakeEngine) Begin() engine.Transaction {
	e.begun++
	e.open++
	return &fakeTx{eng: e, n: e.begun}
}

func (t *fakeTx) live() {
	sym.Assert(!t.done, "a transaction is not used after it was ended")
}

func (t *fakeTx) Commit(ctx context.Context) error {
	t.live()
	t.done = true
	t.eng.open--
	return t.eng.record(call{op: "commit", tx: t.n})
}

func (t *fakeTx) Rollback() error {
	t.live()
	t.done = true
	t.eng.open--
	return t.eng.record(call{op: "rollback", tx: t.n})
}

func (t *fakeTx) CreateSchema(ctx context.Context, sn types.SchemaName) error {
	t.live()
	return t.eng.record(call{op: "create schema", tx: t.n, sn: sn})
}

func (t *fakeTx) DropSchema(ctx context.Context, sn types.SchemaName, ifExists bool) error {
	t.live()
	return t.eng.record(call{op: "drop schema", tx: t.n, sn: sn, flag: ifExists})
}

func (t *fakeTx) ListSchemas(ctx context.Context, dn types.Identifier) ([]types.Identifier, error) {
	t.live()
	return nil, nil
}

func (t *fakeTx) OpenTable(ctx context.Context, tn types.TableName) (engine.Table, error) {
	t.live()
	t.eng.calls = append(t.eng.calls, call{op: "open table", tx: t.n, tn: tn})
	if t.eng.table == nil {
		return nil, errFake
	}
	return &fakeTable{tn, t.eng.table}, nil
}

func (t *fakeTx) CreateTable(ctx context.Context, tn types.TableName, cols []types.Identifier,
	cts []types.ColumnType, primary []types.ColumnKey) error {
	t.live()
	return t.eng.record(call{op: "create table", tx: t.n, tn: tn, cols: cols, cts: cts, key: primary})
}

func (t *fakeTx) DropTable(ctx context.Context, tn types.TableName) error {
	t.live()
	return t.eng.record(call{op: "drop table", tx: t.n, tn: tn})
}

func (t *fakeTx) ListTables(ctx context.Context, sn types.SchemaName) ([]types.Identifier, error) {
	t.live()
	return nil, nil
}

func (t *fakeTx) CreateIndex(ctx context.Context, tn types.TableName, in types.Identifier, key []types.ColumnKey) error {
	t.live()
	return t.eng.record(call{op: "create index", tx: t.n, tn: tn, in: in, key: key})
}

func (t *fakeTx) DropIndex(ctx context.Context, tn types.TableName, in types.Identifier) error {
	t.live()
	return t.eng.record(call{op: "drop index", tx: t.n, tn: tn, in: in})
}
