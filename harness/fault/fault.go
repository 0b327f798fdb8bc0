// Package fault is a store whose calls fail where a symbolic input says.
package fault

import (
	"context"
	"errors"

	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/sym"
)

var Err = errors.New("the disk is on fire")

// Store passes calls on to a real store. While it is armed, the call which a
// symbolic number selects fails instead, and so may all later ones.
type Store struct {
	storage.Store
	armed bool
	calls byte // calls since the store was armed
	at    byte // the call which fails
	stay  bool // all later calls fail as well
	Live  int  // transactions not ended
	Open  int  // scans not closed
	Hit   bool // a call other than a rollback failed
	Ended bool // a rollback failed
}

func New() *Store {
	st, err := basic.NewStore("test")
	sym.Assert(err == nil, "new store")
	return &Store{Store: st}
}

// Arm makes an arbitrary call fail (or none, if there are not as many).
func (st *Store) Arm(name string) {
	st.armed, st.calls, st.Hit, st.Ended = true, 0, false, false
	st.at = sym.Byte(name + ".at")
	st.stay = sym.Bool(name + ".stay")
}

// Disarm makes no call fail any more.
func (st *Store) Disarm() {
	st.armed = false
}

func (st *Store) fail() bool {
	if !st.armed {
		return false
	}
	k := st.calls
	st.calls++
	if k > 250 {
		sym.Fail("too many calls")
	}
	// Which calls fail is for the solver to say.
	return sym.Or(k == st.at, sym.And(st.stay, k > st.at))
}

func (st *Store) failed() bool {
	if st.fail() {
		st.Hit = true
		return true
	}
	return false
}

func (st *Store) Begin() storage.Transaction {
	st.Live++
	return &tx{Transaction: st.Store.Begin(), st: st}
}

type tx struct {
	storage.Transaction
	st    *Store
	ended bool
}

func (t *tx) Store() storage.Store { return t.st }

func (t *tx) OpenTable(ctx context.Context, tid storage.TableId, tn types.TableName, colNames []types.Identifier,
	colTypes []types.ColumnType, primary []types.ColumnKey) (storage.Table, error) {

	if t.st.failed() {
		return nil, Err
	}
	tbl, err := t.Transaction.OpenTable(ctx, tid, tn, colNames, colTypes, primary)
	if err != nil {
		return nil, err
	}
	return &table{Table: tbl, st: t.st}, nil
}

func (t *tx) CreateTable(ctx context.Context, tid storage.TableId, tn types.TableName, colNames []types.Identifier,
	colTypes []types.ColumnType, primary []types.ColumnKey) error {

	if t.st.failed() {
		return Err
	}
	return t.Transaction.CreateTable(ctx, tid, tn, colNames, colTypes, primary)
}

func (t *tx) DropTable(ctx context.Context, tid storage.TableId) error {
	if t.st.failed() {
		return Err
	}
	return t.Transaction.DropTable(ctx, tid)
}

func (t *tx) end() {
	if !t.ended {
		t.ended = true
		t.st.Live--
	}
}

// Commit either commits or fails and leaves nothing behind.
func (t *tx) Commit(ctx context.Context) error {
	if !t.ended && t.st.failed() {
		t.end()
		sym.Assert(t.Transaction.Rollback() == nil, "rollback")
		return Err
	}
	t.end()
	return t.Transaction.Commit(ctx)
}

func (t *tx) Rollback() error {
	if !t.ended && t.st.fail() {
		t.st.Ended = true
		t.end()
		sym.Assert(t.Transaction.Rollback() == nil, "rollback")
		return Err
	}
	t.end()
	return t.Transaction.Rollback()
}

type table struct {
	storage.Table
	st *Store
}

func (t *table) Rows(ctx context.Context, cols []types.ColumnNum, minRow, maxRow types.Row,
	pred storage.Predicate) (storage.Rows, error) {

	if t.st.failed() {
		return nil, Err
	}
	rs, err := t.Table.Rows(ctx, cols, minRow, maxRow, pred)
	if err != nil {
		return nil, err
	}
	t.st.Open++
	return &rows{Rows: rs, st: t.st}, nil
}

func (t *table) Insert(ctx context.Context, rows []types.Row) error {
	if t.st.failed() {
		return Err
	}
	return t.Table.Insert(ctx, rows)
}

type rows struct {
	storage.Rows
	st *Store
}

func (r *rows) Next(ctx context.Context) (types.Row, error) {
	if r.st.failed() {
		return nil, Err
	}
	return r.Rows.Next(ctx)
}

func (r *rows) Current() (storage.RowRef, error) {
	if r.st.failed() {
		return nil, Err
	}
	rr, err := r.Rows.Current()
	if err != nil {
		return nil, err
	}
	return &rowRef{RowRef: rr, st: r.st}, nil
}

// Close never fails: what closing a scan could still report is not specified.
func (r *rows) Close(ctx context.Context) error {
	r.st.Open--
	return r.Rows.Close(ctx)
}

type rowRef struct {
	storage.RowRef
	st *Store
}

func (r *rowRef) Update(ctx context.Context, cols []types.ColumnNum, vals []types.Value) error {
	if r.st.failed() {
		return Err
	}
	return r.RowRef.Update(ctx, cols, vals)
}

func (r *rowRef) Delete(ctx context.Context) error {
	if r.st.failed() {
		return Err
	}
	return r.RowRef.Delete(ctx)
}
