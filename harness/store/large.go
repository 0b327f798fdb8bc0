package store

import (
	"io"

	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/lib"
	"github.com/leftmike/maho/zzverif/sym"
)

// above is satisfied by strings which start with a later letter.
type above byte

func (p above) Column() types.ColumnNum               { return 1 }
func (p above) StringPred(val types.StringValue) bool { return val[0] > byte(p) }

// Many: a table of many rows, one of which is given by symbolic values.
func Many() {
	t := table(100, 0)
	n := sym.Param("rows", 70)
	st := newStore()
	tx := st.Begin()
	sym.Assert(t.create(tx) == nil, "create")
	tbl := t.open(tx)
	row := func(i int) types.Row {
		return types.Row{types.Int64Value(3*i - n), types.StringValue(string(rune('A' + i%26)))}
	}
	var want, batch []types.Row
	for i := 0; i < n; i++ {
		want = append(want, row(i))
	}
	what := sym.Param("what", 0) + sym.Choose("what", sym.Param("whats", 8))
	fill := 0
	if what < 2 {
		fill = sym.Choose("fill", 3)
	}
	switch fill {
	case 0:
		for i := 0; i < n; i++ {
			batch = append(batch, row(i))
		}
		sym.Assert(tbl.Insert(ctx, batch) == nil, "insert many rows at once")
	case 1:
		for i := n - 1; i >= 0; i-- {
			sym.Assert(tbl.Insert(ctx, []types.Row{row(i)}) == nil, "insert")
		}
	case 2:
		// in two transactions
		for i := 0; i < n; i += 2 {
			batch = append(batch, row(i))
		}
		sym.Assert(tbl.Insert(ctx, batch) == nil, "insert")
		sym.Assert(tx.Commit(ctx) == nil, "commit")
		tx = st.Begin()
		tbl = t.open(tx)
		for i := 1; i < n; i += 2 {
			sym.Assert(tbl.Insert(ctx, []types.Row{row(i)}) == nil, "insert")
		}
	}
	x := types.Int64Value(sym.Int8("x"))
	if sym.Param("small", 1) == 0 {
		x = types.Int64Value(sym.Int64("x"))
	}
	given := types.Row{x, types.StringValue("x")}
	switch what {
	case 0, 1:
		var min, max types.Row
		if what == 1 {
			max = given
		} else {
			min = given
		}
		var pred storage.Predicate
		letter := byte(0)
		if fill == 0 && sym.Choose("pred", 2) == 1 {
			letter = []byte{'E', 'Y'}[sym.Choose("letter", 2)]
			pred = above(letter)
		}
		rs, err := tbl.Rows(ctx, nil, min, max, pred)
		sym.Assert(err == nil, "scan opens")
		got := drain(rs)
		sym.Assert(rs.Close(ctx) == nil, "close")
		sym.Reach("scanned")
		var sel []types.Row
		for _, r := range want {
			if min != nil && r[0].(types.Int64Value) < x || max != nil && r[0].(types.Int64Value) > x ||
				r[1].(types.StringValue)[0] <= letter {
				continue
			}
			sel = append(sel, r)
		}
		sym.Assert(sameRows(got, sel), "a scan returns exactly the matching rows in key order")
	case 2:
		err := tbl.Insert(ctx, []types.Row{lib.CopyRow(given)})
		var ok bool
		want, ok = t.add(want, given)
		sym.Reach("inserted")
		sym.Assert((err == nil) == ok, "an insert succeeds exactly when its key is new")
	case 3:
		// Update one row, its key included.
		at := []int{0, 1, n / 2, n - 2, n - 1}[sym.Choose("at", 5)]
		rs, err := tbl.Rows(ctx, nil, want[at], want[at], nil)
		sym.Assert(err == nil, "scan opens")
		_, err = rs.Next(ctx)
		sym.Assert(err == nil, "a row is found by its key")
		cur, err := rs.Current()
		sym.Assert(err == nil, "current")
		err = cur.Update(ctx, []types.ColumnNum{1, 0}, []types.Value{given[1], x})
		sym.Assert(rs.Close(ctx) == nil, "close")
		rest, ok := t.add(remove(want, at), given)
		sym.Reach("updated")
		sym.Assert((err == nil) == ok, "an update succeeds exactly when its key is new or its own")
		if ok {
			want = rest
		}
	case 4:
		// Delete the rows from a key on.
		rs, err := tbl.Rows(ctx, nil, given, nil, nil)
		sym.Assert(err == nil, "scan opens")
		for {
			_, err := rs.Next(ctx)
			if err == io.EOF {
				break
			}
			sym.Assert(err == nil, "read")
			cur, err := rs.Current()
			sym.Assert(err == nil, "current")
			sym.Assert(cur.Delete(ctx) == nil, "delete")
		}
		sym.Assert(rs.Close(ctx) == nil, "close")
		sym.Reach("deleted")
		var left []types.Row
		for _, r := range want {
			if r[0].(types.Int64Value) < x {
				left = append(left, r)
			}
		}
		want = left
	case 5:
		// A change while all rows are being read.
		rs, err := tbl.Rows(ctx, nil, nil, nil, nil)
		sym.Assert(err == nil, "scan opens")
		var got []types.Row
		for i := 0; i < n/2; i++ {
			r, err := rs.Next(ctx)
			sym.Assert(err == nil, "read")
			got = append(got, r)
		}
		next, ok := t.add(want, given)
		err = tbl.Insert(ctx, []types.Row{lib.CopyRow(given)})
		sym.Assert((err == nil) == ok, "an insert succeeds exactly when its key is new")
		got = append(got, drain(rs)...)
		sym.Assert(rs.Close(ctx) == nil, "close")
		sym.Reach("snapshot")
		sym.Assert(sameRows(got, want), "an open scan keeps reading what it started on")
		want = next
	case 6:
		// Many rows inserted at once, one of them anywhere.
		at := []int{0, 1, n / 2, n - 1}[sym.Choose("at", 4)]
		var next []types.Row
		batch, next = nil, want
		ok := true
		for i := 0; i < n; i++ {
			r := types.Row{types.Int64Value(3*i - n + 1), types.StringValue("y")}
			if i == at {
				r = given
			}
			batch = append(batch, lib.CopyRow(r))
		}
		for i := 0; i < n && ok; i++ {
			next, ok = t.add(next, batch[i])
		}
		err := tbl.Insert(ctx, batch)
		sym.Reach("batch")
		sym.Assert((err == nil) == ok, "a batch is inserted exactly when all its keys are new")
		got := scan(tbl)
		if ok {
			want = next
		} else {
			// the rows before the refused one may or may not be stored
			kept := 0
			for _, r := range got {
				if kept < len(want) && sameRows([]types.Row{r}, []types.Row{want[kept]}) {
					kept++
				}
			}
			sym.Assert(kept == len(want) && len(got) < len(want)+n, "a refused batch leaves stored rows unchanged")
			want = got
		}
	case 7:
		// Many changes in one transaction, kept or undone.
		sym.Assert(tx.Commit(ctx) == nil, "commit")
		old := want
		tx = st.Begin()
		tbl = t.open(tx)
		rs, err := tbl.Rows(ctx, nil, nil, nil, nil)
		sym.Assert(err == nil, "scan opens")
		want = nil
		for i := 0; i < n; i++ {
			_, err := rs.Next(ctx)
			sym.Assert(err == nil, "read")
			cur, err := rs.Current()
			sym.Assert(err == nil, "current")
			if old[i][0].(types.Int64Value) >= x {
				sym.Assert(cur.Delete(ctx) == nil, "delete")
			} else {
				sym.Assert(cur.Update(ctx, []types.ColumnNum{1}, []types.Value{types.StringValue("y")}) == nil, "update")
				want = append(want, types.Row{old[i][0], types.StringValue("y")})
			}
		}
		sym.Assert(rs.Close(ctx) == nil, "close")
		for i := 0; i < n; i++ {
			r := types.Row{types.Int64Value(2*n + i), types.StringValue("z")}
			sym.Assert(tbl.Insert(ctx, []types.Row{lib.CopyRow(r)}) == nil, "insert")
			want = append(want, r)
		}
		sym.Assert(sameRows(scan(tbl), want), "a transaction sees its own changes")
		sym.Reach("transaction")
		if sym.Choose("undo", 2) == 1 {
			sym.Assert(tx.Rollback() == nil, "rollback")
			tx = st.Begin()
			tbl = t.open(tx)
			want = old
		}
	}
	sym.Assert(sameRows(scan(tbl), want), "the table holds exactly its rows")
	sym.Assert(tx.Commit(ctx) == nil, "commit")
	tx = st.Begin()
	sym.Assert(sameRows(scan(t.open(tx)), want), "also after the commit")
}

// ManyTables: many tables, one of them large; any one is dropped and another
// one created.
func ManyTables() {
	n := sym.Param("tables", 30)
	big := sym.Param("rows", 70)
	st := newStore()
	tx := st.Begin()
	tables := make([]*Tbl, n)
	want := make([][]types.Row, n)
	for i := range tables {
		t := table(storage.TableId(100+2*i), i%2*4)
		t.tn.Table = types.ID("t"+string(rune('a'+i/26))+string(rune('a'+i%26)), true)
		tables[i] = t
		sym.Assert(t.create(tx) == nil, "create")
		rows := 3
		if i == n/2 {
			rows = big
		}
		for j := 0; j < rows; j++ {
			r := types.Row{}
			for _, k := range t.kinds {
				r = append(r, plain(k, 100*i+j))
			}
			if k := t.kinds[1]; k == lib.Bytes {
				r[1] = types.BytesValue([]byte{byte(j)})
			}
			want[i] = append(want[i], r)
		}
		var batch []types.Row
		for _, r := range want[i] {
			batch = append(batch, lib.CopyRow(r))
		}
		sym.Assert(t.open(tx).Insert(ctx, batch) == nil, "insert")
	}
	if sym.Choose("later", 2) == 1 {
		sym.Assert(tx.Commit(ctx) == nil, "commit")
		tx = st.Begin()
	}
	tid := storage.TableId(sym.Uint32("tid"))
	sym.Assume(tid >= 16)
	at := -1
	for i := range tables {
		if tables[i].tid == tid {
			at = i
		}
	}
	if sym.Choose("create", 2) == 0 {
		refused := lib.Panics(func() { sym.Assert(tx.DropTable(ctx, tid) == nil, "drop") })
		sym.Assert(refused == (at < 0), "exactly a table which exists is dropped")
		if at >= 0 {
			sym.Reach("dropped")
			sym.Assert(lib.Panics(func() { tables[at].open(tx) }), "a dropped table cannot be opened")
			if sym.Choose("again", 2) == 1 {
				sym.Assert(tables[at].create(tx) == nil, "create again")
				sym.Assert(len(scan(tables[at].open(tx))) == 0, "a new table is empty")
				want[at] = nil
				at = -1
			}
		}
	} else {
		t := table(tid, 0)
		refused := lib.Panics(func() { sym.Assert(t.create(tx) == nil, "create") })
		sym.Assert(refused == (at >= 0), "exactly a table which does not exist is created")
		if at < 0 {
			sym.Reach("created")
			sym.Assert(len(scan(t.open(tx))) == 0, "a new table is empty")
		}
		at = -1
	}
	for i := range tables {
		if i == at {
			continue
		}
		sym.Assert(sameRows(scan(tables[i].open(tx)), want[i]), "other tables stay")
	}
	sym.Assert(tx.Commit(ctx) == nil, "commit")
}
