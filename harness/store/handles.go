package store

import (
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/lib"
	"github.com/leftmike/maho/zzverif/sym"
)

// Handles: one table opened several times in a transaction, before and after
// its first change, and references to rows taken before that; what is done
// through one of them is seen through all of them.
func Handles() {
	st := newStore()
	tx := st.Begin()
	s := chooseShape()
	t, u := table(16, s), table(17, s)
	t.small, u.small = true, true
	sym.Assert(t.create(tx) == nil && u.create(tx) == nil, "create")
	n := sym.Param("rows", 2)
	rows := t.fill(t.open(tx), n, "r", true)
	base := u.fill(u.open(tx), 1, "u", true)
	committed := sym.Choose("committed", 2) == 1
	if committed {
		sym.Assert(tx.Commit(ctx) == nil, "commit")
		tx = st.Begin()
	}
	handles := []storage.Table{t.open(tx), t.open(tx)}
	other := u.open(tx)
	j := sym.Choose("ref", n)
	ref, held := current(handles[0], j), lib.CopyRow(rows[j])
	before := rows
	for i := 0; i < sym.Param("steps", 2); i++ {
		nm := "s" + string(rune('0'+i))
		h := sym.Choose(nm+".handle", 3)
		tbl := storage.Table(nil)
		if h < 2 {
			tbl = handles[h]
		} else {
			tbl = t.open(tx)
		}
		switch sym.Choose(nm+".op", 4) {
		case 0:
			r := t.keyRow(nm, 5)
			w, ok := t.add(rows, r)
			sym.Assert((tbl.Insert(ctx, []types.Row{r}) == nil) == ok, "insert")
			rows = w
		case 1: // any row, by a scan of this handle
			if len(rows) == 0 {
				sym.Stop()
			}
			k := sym.Choose(nm+".which", len(rows))
			if held != nil && sameKey(t, rows[k], held) {
				held = nil
			}
			sym.Assert(current(tbl, k).Delete(ctx) == nil, "delete")
			rows = remove(rows, k)
		case 2: // the row referred to since the beginning
			if held == nil || h != 0 {
				sym.Stop()
			}
			k := find(t, rows, held)
			c := 0
			for isKey(t, c) && c < len(t.kinds)-1 {
				c++
			}
			v := t.value(nm+".val", c)
			nrow := lib.CopyRow(rows[k])
			nrow[c] = v
			w, ok := t.add(remove(rows, k), nrow)
			sym.Assert((ref.Update(ctx, []types.ColumnNum{types.ColumnNum(c)}, []types.Value{v}) == nil) == ok, "update")
			if ok {
				rows = w
				if isKey(t, c) {
					held = nil
				}
			}
		default:
			if held == nil || h != 0 {
				sym.Stop()
			}
			k := find(t, rows, held)
			sym.Assert(ref.Delete(ctx) == nil, "delete")
			rows = remove(rows, k)
			held = nil
		}
		for _, h := range handles {
			sym.Assert(sameRows(scan(h), rows), "a handle opened earlier shows the change")
		}
		sym.Assert(sameRows(scan(t.open(tx)), rows), "a handle opened now shows the change")
		sym.Assert(sameRows(scan(other), base), "another table does not change")
	}
	sym.Reach("changed")
	if committed && sym.Choose("rollback", 2) == 1 {
		sym.Assert(tx.Rollback() == nil, "rollback")
		rows = before
	} else {
		sym.Assert(tx.Commit(ctx) == nil, "commit")
	}
	tx = st.Begin()
	sym.Assert(sameRows(scan(t.open(tx)), rows), "a later transaction")
	sym.Assert(sameRows(scan(u.open(tx)), base), "another table")
	sym.Assert(tx.Rollback() == nil, "rollback")
}

func sameKey(t *Tbl, a, b types.Row) bool {
	for _, ck := range t.key {
		c := lib.KeyCol(ck)
		if !lib.Same(a[c], b[c]) {
			return false
		}
	}
	return true
}

// find returns where the row with the key of r is.
func find(t *Tbl, rows []types.Row, r types.Row) int {
	for k := range rows {
		if sameKey(t, rows[k], r) {
			return k
		}
	}
	sym.Assert(false, "the row is there")
	return 0
}
