package store

import (
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/lib"
	"github.com/leftmike/maho/zzverif/sym"
)

// state is the reference for a store with up to three tables.
type state struct {
	exists [3]bool
	rows   [3][]types.Row
}

var txTables = []storage.TableId{16, 17, 40}

func txTable(i int) *Tbl { return table(txTables[i], txShape(i)) }

func txShape(i int) int {
	if i == 1 {
		return 3
	}
	return 0
}

// step applies one operation to table i; false ends the sequence.
func (s *state) step(tx storage.Transaction, nm string, i int) {
	t := txTable(i)
	t.small = true
	if !s.exists[i] {
		sym.Assert(t.create(tx) == nil, "create")
		s.exists[i] = true
		s.rows[i] = nil
		return
	}
	tbl := t.open(tx)
	n := len(s.rows[i])
	switch sym.Choose(nm+".op", 4) {
	case 0:
		r := t.keyRow(nm, 5)
		w, ok := t.add(s.rows[i], r)
		sym.Assert((tbl.Insert(ctx, []types.Row{r}) == nil) == ok, "insert")
		s.rows[i] = w
	case 1:
		if n == 0 {
			sym.Stop()
		}
		j := sym.Choose(nm+".which", n)
		c := sym.Choose(nm+".col", len(t.kinds))
		v := t.value(nm+".val", c)
		nrow := lib.CopyRow(s.rows[i][j])
		nrow[c] = v
		w, ok := t.add(remove(s.rows[i], j), nrow)
		rr := current(tbl, j)
		sym.Assert((rr.Update(ctx, []types.ColumnNum{types.ColumnNum(c)}, []types.Value{v}) == nil) == ok, "update")
		if ok {
			s.rows[i] = w
		}
	case 2:
		if n == 0 {
			sym.Stop()
		}
		j := sym.Choose(nm+".which", n)
		sym.Assert(current(tbl, j).Delete(ctx) == nil, "delete")
		s.rows[i] = remove(s.rows[i], j)
	case 3:
		sym.Assert(tx.DropTable(ctx, t.tid) == nil, "drop")
		s.exists[i] = false
		s.rows[i] = nil
	}
}

func (s *state) check(tx storage.Transaction, what string) {
	for i := range s.exists {
		t := txTable(i)
		refused := lib.Panics(func() { t.open(tx) })
		sym.Assert(refused == !s.exists[i], what+": the tables are those of the state")
		if s.exists[i] {
			sym.Assert(sameRows(scan(t.open(tx)), s.rows[i]), what+": the rows are those of the state")
			early(t.open(tx), len(s.rows[i]))
		}
	}
}

func end(tx storage.Transaction, commit bool) error {
	if commit {
		return tx.Commit(ctx)
	}
	return tx.Rollback()
}

// History: transactions one after another, each with a few operations, ended
// by commit or rollback, and ended again afterwards.
func History() {
	st := newStore()
	s := &state{}
	tx := st.Begin()
	t := txTable(0)
	t.small = true
	sym.Assert(t.create(tx) == nil, "create")
	s.exists[0] = true
	tbl := t.open(tx)
	r := t.keyRow("base", 0)
	sym.Assert(tbl.Insert(ctx, []types.Row{lib.CopyRow(r)}) == nil, "insert")
	s.rows[0], _ = t.add(nil, r)
	sym.Assert(tx.Commit(ctx) == nil, "commit")
	done := []storage.Transaction{tx}

	txs := sym.Param("txs", 2)
	steps := sym.Param("steps", 2)
	for k := 0; k < txs; k++ {
		nm := "x" + string(rune('0'+k))
		tx := st.Begin()
		sym.Assert(tx.Store() == st, "the transaction knows its store")
		before := *s
		for i := 0; i < steps; i++ {
			n := nm + string(rune('a'+i))
			which := sym.Choose(n+".table", 4)
			if which == 3 {
				break // fewer operations
			}
			s.step(tx, n, which)
			tx.NextStmt()
		}
		s.check(tx, "inside the transaction")
		if k > 0 && sym.Choose(nm+".stale", 2) == 1 {
			// ending a completed transaction while another one is active
			sym.Assert(end(done[len(done)-1], sym.Choose(nm+".staleend", 2) == 0) != nil, "a completed transaction cannot be ended again")
			s.check(tx, "after a stale end")
		}
		commit := sym.Choose(nm+".commit", 2) == 0
		sym.Assert(end(tx, commit) == nil, "the transaction ends")
		if !commit {
			*s = before
		}
		if sym.Choose(nm+".again", 2) == 1 {
			sym.Assert(tx.Commit(ctx) != nil, "commit again is refused")
			sym.Assert(tx.Rollback() != nil, "rollback again is refused")
		}
		done = append(done, tx)
	}
	tx = st.Begin()
	s.check(tx, "in a later transaction")
	sym.Reach("history")
	sym.Assert(tx.Rollback() == nil, "rollback")
	st2 := newStore().Begin()
	sym.Assert(lib.Panics(func() { txTable(0).open(st2) }), "another store has its own tables")
	sym.Assert(st2.Rollback() == nil, "rollback")
}
