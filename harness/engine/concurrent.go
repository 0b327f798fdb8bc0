package engine

import (
	"sync"

	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/sym"
)

// Concurrent: threads changing the catalog of one engine. Every thread
// creates a database on its own and a schema and table in a transaction.
func Concurrent() {
	n := sym.Param("threads", 2)
	sym.Preempt(sym.Param("preempt", 1))
	eng := newEngine()
	names := []types.Identifier{types.ID("a", true), types.ID("b", true)}
	dbOK := make([]bool, n)
	tblOK := make([]bool, n)
	commit := make([]bool, n)
	db := make([]types.Identifier, n)
	tbl := make([]types.Identifier, n)
	tid := make([]storage.TableId, n)
	listed := make([]int, n)
	for i := 0; i < n; i++ {
		nm := "t" + string(rune('0'+i))
		db[i] = names[sym.Choose(nm+".db", 2)]
		tbl[i] = names[sym.Choose(nm+".table", 2)]
		commit[i] = sym.Choose(nm+".commit", 2) == 0
	}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		i := i
		wg.Add(1)
		sym.Go(func() {
			defer wg.Done()
			dbOK[i] = eng.CreateDatabase(db[i], nil) == nil
			tx := eng.Begin()
			tn := types.TableName{Database: types.MAHO, Schema: types.PUBLIC, Table: tbl[i]}
			tblOK[i] = tx.CreateTable(ctx, tn, []types.Identifier{tbl[i]}, []types.ColumnType{{Type: types.BoolType}}, nil) == nil
			t, err := tx.OpenTable(ctx, tn)
			sym.Assert(err == nil, "the table is found")
			tid[i] = t.TableId()
			if commit[i] {
				sym.Assert(tx.Commit(ctx) == nil, "commit")
			} else {
				sym.Assert(tx.Rollback() == nil, "rollback")
			}
			l, err := eng.ListDatabases()
			sym.Assert(err == nil, "list")
			listed[i] = len(l)
			sym.Assert(findName(l, db[i]) >= 0, "the own database is listed")
		})
	}
	wg.Wait()
	sym.Reach("joined")
	l, err := eng.ListDatabases()
	sym.Assert(err == nil, "list")
	distinct := 0
	for _, d := range names {
		created, wanted := 0, 0
		for i := range db {
			if db[i] == d {
				wanted++
				if dbOK[i] {
					created++
				}
			}
		}
		if wanted > 0 {
			distinct++
			sym.Assert(created == 1, "exactly one thread creates a database")
		}
		sym.Assert((findName(l, d) >= 0) == (wanted > 0), "no created database is lost")
	}
	sym.Assert(len(l) == 2+distinct, "nothing else is listed")
	for i := range listed {
		sym.Assert(listed[i] >= 3 && listed[i] <= len(l), "lists are of some moment")
	}
	tx := eng.Begin()
	for _, d := range names {
		created := 0
		var id storage.TableId
		for i := range tbl {
			if tbl[i] == d && tblOK[i] && commit[i] {
				created++
				id = tid[i]
			}
		}
		sym.Assert(created <= 1, "at most one committed creation")
		t, err := tx.OpenTable(ctx, types.TableName{Database: types.MAHO, Schema: types.PUBLIC, Table: d})
		sym.Assert((err == nil) == (created == 1), "committed tables are found, others not")
		if err == nil {
			sym.Assert(t.TableId() == id, "with the id its creator saw")
		}
	}
	for i := range tid {
		for j := range tid[:i] {
			if commit[i] && commit[j] && tblOK[i] && tblOK[j] {
				sym.Assert(tid[i] != tid[j], "ids are distinct")
			}
		}
	}
	sym.Assert(tx.Rollback() == nil, "rollback")
}
