package store

import (
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/lib"
	"github.com/leftmike/maho/zzverif/sym"
)

// given returns a value offered for column c and what is stored for it:
// a fitting value, NULL, or a value of an impossible type.
func (t *Tbl) given(name string, c int) (v, stored types.Value, ok bool) {
	switch sym.Choose(name+".what", 3) {
	case 0:
		v = t.value(name, c)
		return v, v, true
	case 1:
		if t.cts[c].NotNull {
			return nil, nil, false
		}
		sym.Stop() // a NULL that fits is among case 0
	}
	// impossible types
	switch t.kinds[c] {
	case lib.Bool:
		return types.Int64Value(1), nil, false
	case lib.Int, lib.Float, lib.String, lib.Bytes:
		return types.BoolValue(true), nil, false
	}
	return nil, nil, false
}

// Insert: a batch of rows into a table that already holds rows.
func Insert() {
	s := chooseShape()
	t := table(100, s)
	tx := newStore().Begin()
	sym.Assert(t.create(tx) == nil, "create")
	tbl := t.open(tx)
	pre := t.fill(tbl, sym.Choose("nrows", sym.Param("rows", 1)+1), "r", true)

	batch := 1 + sym.Choose("batch", sym.Param("batch", 2))
	var rows []types.Row
	want := pre
	ok := true
	var partial [][]types.Row
	for i := 0; i < batch; i++ {
		n := "n" + string(rune('0'+i))
		cols := len(t.kinds) + 1 - sym.Choose(n+".cols", len(t.kinds)+2)
		row := types.Row{}
		stored := make(types.Row, len(t.kinds))
		fits := cols <= len(t.kinds)
		for c := 0; c < cols; c++ {
			if c >= len(t.kinds) {
				row = append(row, nil)
				break
			}
			if !fits || (i > 0 && !isKey(t, c)) {
				row = append(row, plain(t.kinds[c], 5))
				stored[c] = plain(t.kinds[c], 5)
				continue
			}
			v, st, vok := t.given(n+"."+string(rune('a'+c)), c)
			row = append(row, v)
			stored[c] = st
			if !vok {
				fits = false
			}
		}
		for c := cols; c < len(t.kinds); c++ {
			if t.cts[c].NotNull {
				fits = false
			}
		}
		rows = append(rows, row)
		if ok {
			partial = append(partial, want)
			if !fits {
				ok = false
			} else {
				want, ok = t.add(want, stored)
			}
		}
	}
	in := make([]types.Row, len(rows))
	for i := range rows {
		in[i] = lib.CopyRow(rows[i])
	}
	err := tbl.Insert(ctx, rows)
	sym.Reach("inserted")
	for i := range rows {
		sym.Assert(lib.SameRow(in[i], rows[i]), "the caller's rows are not changed")
	}
	sym.Assert((err == nil) == ok, "an insert succeeds exactly when every row fits and every key is new")
	got := scan(tbl)
	if ok {
		sym.Assert(sameRows(got, want), "the table holds the previous rows and exactly the inserted ones")
	} else {
		// rows of the batch before the refused one may or may not be stored
		sym.Assert(len(got) >= len(pre) && len(got) < len(pre)+len(partial), "no more than the accepted rows")
		sym.Assert(sameRows(got, partial[len(got)-len(pre)]), "a refused row leaves stored rows unchanged")
	}
	if ok && sym.Choose("reuse", 2) == 1 {
		for _, r := range rows {
			for c := range r {
				r[c] = nil
			}
		}
		sym.Assert(sameRows(scan(tbl), want), "stored rows do not share the caller's rows")
	}
}

func isKey(t *Tbl, c int) bool {
	for _, ck := range t.key {
		if lib.KeyCol(ck) == c {
			return true
		}
	}
	return false
}

// Update: the current row of a scan.
func Update() {
	s := chooseShape()
	t := table(100, s)
	tx := newStore().Begin()
	sym.Assert(t.create(tx) == nil, "create")
	tbl := t.open(tx)
	n := 1 + sym.Choose("nrows", sym.Param("rows", 2))
	rows := t.fill(tbl, n, "r", true)

	// which columns: any nonempty subset, in either order
	mask := 1 + sym.Choose("cols", 1<<uint(len(t.kinds))-1)
	var cols []types.ColumnNum
	for c := range t.kinds {
		if mask&(1<<uint(c)) != 0 {
			cols = append(cols, types.ColumnNum(c))
		}
	}
	if len(cols) > 1 && sym.Choose("swap", 2) == 1 {
		cols[0], cols[1] = cols[1], cols[0]
	}
	j := sym.Choose("which", n)
	var vals []types.Value
	nrow := lib.CopyRow(rows[j])
	ok := true
	for _, c := range cols {
		v, st, vok := t.given("u."+string(rune('a'+int(c))), int(c))
		vals = append(vals, v)
		if !vok {
			ok = false
		}
		nrow[c] = st
	}
	want := rows
	if ok {
		want, ok = t.add(remove(rows, j), nrow)
		if !ok {
			want = rows
		}
	}

	// the scan the row comes from may project columns
	var proj []types.ColumnNum
	if sym.Choose("project", 2) == 1 {
		proj = []types.ColumnNum{types.ColumnNum(len(t.kinds) - 1)}
	}
	rs, err := tbl.Rows(ctx, proj, nil, nil, nil)
	sym.Assert(err == nil, "scan opens")
	for i := 0; i <= j; i++ {
		_, err := rs.Next(ctx)
		sym.Assert(err == nil, "read")
	}
	rr, err := rs.Current()
	sym.Assert(err == nil, "current row")
	after := sym.Choose("closed", 3)
	closed := after != 0
	if after == 2 {
		// the reference is still to this row when the scan has gone on
		if j == n-1 {
			sym.Stop()
		}
		for i := j + 1; i < n; i++ {
			_, err := rs.Next(ctx)
			sym.Assert(err == nil, "read")
			_, err = rs.Current()
			sym.Assert(err == nil, "current row")
		}
	}
	if closed {
		sym.Assert(rs.Close(ctx) == nil, "scan closes")
	}
	err = rr.Update(ctx, cols, vals)
	sym.Reach("updated")
	sym.Assert((err == nil) == ok, "an update succeeds exactly when the values fit and the key is free")
	if ok {
		sym.Assert(sameRows(scan(tbl), want), "the update changes exactly that row")
	} else {
		sym.Assert(sameRows(scan(tbl), rows), "a refused update changes nothing")
	}
	if !closed {
		if proj == nil {
			rest := drain(rs)
			sym.Assert(sameRows(rest, rows[j+1:]), "the open scan is not disturbed")
		}
		sym.Assert(rs.Close(ctx) == nil, "scan closes")
	}
}

// Delete: any subset of rows through an open scan, with another scan open.
func Delete() {
	s := chooseShape()
	t := table(100, s)
	u := table(101, s)
	tx := newStore().Begin()
	sym.Assert(t.create(tx) == nil && u.create(tx) == nil, "create")
	tbl, other := t.open(tx), u.open(tx)
	n := 1 + sym.Choose("nrows", sym.Param("rows", 3))
	rows := t.fill(tbl, n, "r", true)
	for _, r := range rows {
		sym.Assert(other.Insert(ctx, []types.Row{r}) == nil, "insert into another table")
	}
	snap, err := tbl.Rows(ctx, nil, nil, nil, nil)
	sym.Assert(err == nil, "scan opens")
	rs, err := tbl.Rows(ctx, nil, nil, nil, nil)
	sym.Assert(err == nil, "scan opens")
	mask := sym.Choose("delete", 1<<uint(n))
	late := n > 1 && sym.Choose("late", 2) == 1 // delete only when all were read
	var want []types.Row
	var refs []storage.RowRef
	for i := 0; i < n; i++ {
		_, err := rs.Next(ctx)
		sym.Assert(err == nil, "read")
		if mask&(1<<uint(i)) != 0 {
			rr, err := rs.Current()
			sym.Assert(err == nil, "current row")
			if late {
				refs = append(refs, rr)
				continue
			}
			sym.Assert(rr.Delete(ctx) == nil, "delete")
		} else {
			want = append(want, rows[i])
		}
	}
	sym.Assert(rs.Close(ctx) == nil, "scan closes")
	for _, rr := range refs {
		sym.Assert(rr.Delete(ctx) == nil, "delete")
	}
	sym.Reach("deleted")
	sym.Assert(sameRows(scan(tbl), want), "exactly the deleted rows are gone")
	sym.Assert(sameRows(scan(other), rows), "rows of another table stay")
	// insert one of the deleted keys again
	if mask != 0 {
		i := sym.Choose("again", n)
		if mask&(1<<uint(i)) != 0 {
			sym.Assert(tbl.Insert(ctx, []types.Row{rows[i]}) == nil, "a deleted key can be inserted again")
			want, _ = t.add(want, rows[i])
			sym.Assert(sameRows(scan(tbl), want), "the row is back")
		} else {
			sym.Assert(tbl.Insert(ctx, []types.Row{rows[i]}) != nil, "a remaining key is still taken")
		}
	}
	sym.Assert(sameRows(drain(snap), rows), "an open scan returns the rows it had when opened")
	sym.Assert(snap.Close(ctx) == nil, "scan closes")
}

// Snapshot: an open scan against any interleaved change.
func Snapshot() {
	s := chooseShape()
	t := table(100, s)
	tx := newStore().Begin()
	sym.Assert(t.create(tx) == nil, "create")
	tbl := t.open(tx)
	n := 1 + sym.Choose("nrows", sym.Param("rows", 2))
	rows := t.fill(tbl, n, "r", true)
	snap, err := tbl.Rows(ctx, nil, nil, nil, nil)
	sym.Assert(err == nil, "scan opens")
	read := sym.Choose("read", n+1)
	var got []types.Row
	for i := 0; i < read; i++ {
		r, err := snap.Next(ctx)
		sym.Assert(err == nil, "read")
		got = append(got, r)
	}
	want := rows
	steps := sym.Param("steps", 2)
	for i := 0; i < steps; i++ {
		nm := "s" + string(rune('0'+i))
		if len(want) == 0 && i > 0 {
			break
		}
		switch op := sym.Choose(nm, 3); op {
		case 0:
			r := t.keyRow(nm, 5)
			var ok bool
			want, ok = t.add(want, r)
			sym.Assert((tbl.Insert(ctx, []types.Row{r}) == nil) == ok, "insert")
		default:
			if len(want) == 0 {
				sym.Stop()
			}
			j := sym.Choose(nm+".which", len(want))
			rr := current(tbl, j)
			if op == 1 {
				sym.Assert(rr.Delete(ctx) == nil, "delete")
				want = remove(want, j)
			} else {
				c := sym.Choose(nm+".col", len(t.kinds))
				v := t.value(nm+".val", c)
				nrow := lib.CopyRow(want[j])
				nrow[c] = v
				w, ok := t.add(remove(want, j), nrow)
				sym.Assert((rr.Update(ctx, []types.ColumnNum{types.ColumnNum(c)}, []types.Value{v}) == nil) == ok, "update")
				if ok {
					want = w
				}
			}
		}
	}
	got = append(got, drain(snap)...)
	sym.Reach("read")
	sym.Assert(snap.Close(ctx) == nil, "scan closes")
	sym.Assert(sameRows(got, rows), "an open scan returns the rows it had when opened")
	sym.Assert(sameRows(scan(tbl), want), "later scans see the changes")
}

func current(tbl storage.Table, j int) storage.RowRef {
	rs, err := tbl.Rows(ctx, nil, nil, nil, nil)
	sym.Assert(err == nil, "scan opens")
	for i := 0; i <= j; i++ {
		_, err := rs.Next(ctx)
		sym.Assert(err == nil, "read")
	}
	rr, err := rs.Current()
	sym.Assert(err == nil, "current row")
	sym.Assert(rs.Close(ctx) == nil, "scan closes")
	return rr
}
