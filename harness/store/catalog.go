package store

import (
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/lib"
	"github.com/leftmike/maho/zzverif/sym"
)

// Tables: two tables with arbitrary identities, dropped and created again.
func Tables() {
	s := chooseShape()
	t1 := table(storage.TableId(sym.Uint32("tid1")), s)
	t2 := table(storage.TableId(sym.Uint32("tid2")), s)
	t1.small, t2.small = true, true
	tx := newStore().Begin()
	low := t1.tid < storage.EngineTableId
	refused := lib.Panics(func() { sym.Assert(t1.create(tx) == nil, "create") })
	sym.Assert(refused == low, "exactly the reserved identities are refused")
	if refused {
		sym.Reach("reserved")
		return
	}
	bad := t2.tid < storage.EngineTableId || t2.tid == t1.tid
	refused = lib.Panics(func() { sym.Assert(t2.create(tx) == nil, "create") })
	sym.Assert(refused == bad, "a table that exists is not created again")
	if refused {
		sym.Reach("duplicate")
		return
	}
	r1 := t1.fill(t1.open(tx), sym.Choose("rows1", sym.Param("rows", 2)+1), "r", true)
	r2 := t2.fill(t2.open(tx), 1, "s", true)
	sym.Assert(sameRows(scan(t1.open(tx)), r1) && sameRows(scan(t2.open(tx)), r2), "tables do not share rows")
	b := t1.open(tx)
	sym.Assert(b.TID() == t1.tid && b.Name() == t1.tn, "an open table knows its identity and name")
	sym.Assert(tx.DropTable(ctx, t1.tid) == nil, "drop")
	sym.Assert(lib.Panics(func() { t1.open(tx) }), "a dropped table cannot be opened")
	sym.Assert(lib.Panics(func() { tx.DropTable(ctx, t1.tid) }), "nor dropped again")
	sym.Assert(sameRows(scan(t2.open(tx)), r2), "other tables stay")
	sym.Assert(t1.create(tx) == nil, "create again")
	sym.Assert(len(scan(t1.open(tx))) == 0, "a new table is empty")
	sym.Assert(sameRows(scan(t2.open(tx)), r2), "other tables stay")
	sym.Assert(tx.DropTable(ctx, t2.tid) == nil, "drop")
	sym.Assert(lib.Panics(func() { t2.open(tx) }), "a dropped table cannot be opened")
	sym.Reach("dropped")
}

// Open: a table opens exactly with its own definition.
func Open() {
	s := chooseShape()
	t := table(storage.TableId(16+sym.Choose("tid", 2)), s)
	st := newStore()
	tx := st.Begin()
	sym.Assert(t.create(tx) == nil, "create")
	if sym.Choose("later", 2) == 1 {
		sym.Assert(tx.Commit(ctx) == nil, "commit")
		tx = st.Begin()
	}
	u := table(t.tid, s)
	c := sym.Choose("col", len(u.kinds))
	same := false
	switch sym.Choose("what", 7) {
	case 0:
		same = true
	case 1:
		u.tid = storage.TableId(sym.Uint32("other"))
		same = u.tid == t.tid
	case 2:
		switch sym.Choose("part", 3) {
		case 0:
			u.tn.Database = types.ID("other", true)
		case 1:
			u.tn.Schema = types.ID("other", true)
		case 2:
			u.tn.Table = types.ID("other", true)
		}
	case 3:
		switch sym.Choose("names", 3) {
		case 0:
			u.names[c] = types.ID("other", true)
		case 1:
			u.names = u.names[:len(u.names)-1]
		case 2:
			u.names = append(append([]types.Identifier{}, u.names...), types.ID("other", true))
		}
	case 4:
		ct := u.cts[c]
		switch sym.Choose("type", 5) {
		case 0:
			u.cts[c].Type = types.ValueType(sym.Int32("newtype"))
		case 1:
			u.cts[c].Size = sym.Uint32("size")
		case 2:
			u.cts[c].NotNull = sym.Bool("notnull")
		case 3:
			u.cts[c].Fixed = sym.Bool("fixed")
		case 4:
			u.cts = u.cts[:len(u.cts)-1]
		}
		same = len(u.cts) == len(t.cts) && u.cts[c] == ct
	case 5:
		u.key = append([]types.ColumnKey{}, u.key...)
		k := sym.Choose("key", len(u.key)+1)
		if k < len(u.key) {
			old := u.key[k]
			u.key[k] = types.ColumnKey(sym.Int32("newkey"))
			same = u.key[k] == old
		} else {
			u.key = append(u.key, 1)
		}
	case 6:
		u.key = u.key[:len(u.key)-1]
	}
	var tbl storage.Table
	refused := lib.Panics(func() {
		var err error
		tbl, err = tx.OpenTable(ctx, u.tid, u.tn, u.names, u.cts, u.key)
		if err != nil {
			panic(err)
		}
	})
	sym.Reach("opened")
	sym.Assert(refused == !same, "a table opens exactly with its own definition")
	if same {
		sym.Assert(tbl.TID() == t.tid && tbl.Name() == t.tn, "identity")
		sym.Assert(len(tbl.ColumnNames()) == len(t.names) && len(tbl.ColumnTypes()) == len(t.cts) && len(tbl.Key()) == len(t.key), "definition")
		for i := range t.names {
			sym.Assert(tbl.ColumnNames()[i] == t.names[i] && tbl.ColumnTypes()[i] == t.cts[i], "column")
		}
		for i := range t.key {
			sym.Assert(tbl.Key()[i] == t.key[i], "key")
		}
		sym.Assert(tbl.Version() == 1, "version")
	}
}

// Create: misuse is refused and the hidden row-id column is reserved.
func Create() {
	n := 1 + sym.Choose("cols", 3)
	t := &Tbl{tid: 16, tn: types.TableName{Database: types.MAHO, Schema: types.PUBLIC, Table: types.ID("t", true)}}
	rowid := -1
	if k := sym.Choose("rowid", n+1); k < n {
		rowid = k
	}
	for i := 0; i < n; i++ {
		t.names = append(t.names, columnNames[i])
		ct := types.Int64ColType
		if i == rowid {
			t.names[i] = types.ROWID
			ct.Size = sym.Uint32("size")
			ct.NotNull = sym.Bool("notnull")
			ct.Type = types.ValueType(sym.Choose("type", 6))
		}
		t.cts = append(t.cts, ct)
	}
	keys := sym.Choose("keys", 4)
	if keys > 0 {
		t.key = []types.ColumnKey{}
	}
	badKey := keys == 0
	for i := 1; i < keys; i++ {
		k := sym.Int32("key" + string(rune('0'+i)))
		sym.Assume(sym.And(k != 0, k > -1000))
		t.key = append(t.key, types.ColumnKey(k))
		if lib.KeyCol(types.ColumnKey(k)) >= n {
			badKey = true
		}
	}
	mismatch := sym.Choose("mismatch", 2) == 1
	if mismatch {
		t.cts = append(t.cts, types.Int64ColType)
	}
	badRowid := rowid > 0
	if rowid == 0 {
		badRowid = t.cts[0] != types.Int64ColType || len(t.key) != 1 || t.key[0] != 1
	}
	tx := newStore().Begin()
	var err error
	refused := lib.Panics(func() { err = t.create(tx) })
	sym.Reach("create")
	bad := badKey || mismatch || badRowid
	sym.Assert((refused || err != nil) == bad, "exactly the unusable definitions are refused")
	sym.Assert(lib.Panics(func() { t.open(tx) }) == bad, "a refused table does not exist")
}

// Setup: the hidden row-id column is added exactly when no key is declared.
func Setup() {
	st, _ := basic.NewStore("")
	n := sym.Choose("cols", 4)
	var names []types.Identifier
	var cts []types.ColumnType
	for i := 0; i < n; i++ {
		names = append(names, columnNames[i])
		cts = append(cts, types.ColumnType{Type: types.ValueType(sym.Int32("t" + string(rune('0'+i)))), Size: sym.Uint32("s" + string(rune('0'+i)))})
	}
	var key []types.ColumnKey
	if sym.Choose("key", 2) == 1 {
		key = []types.ColumnKey{types.ColumnKey(sym.Int32("k"))}
	}
	on, oc, ok := st.SetupColumns(names, cts, key)
	sym.Reach("setup")
	d := 0
	if key == nil {
		d = 1
		sym.Assert(len(on) > 0 && on[0] == types.ROWID && oc[0] == types.Int64ColType, "the row-id column comes first")
		sym.Assert(len(ok) == 1 && ok[0] == types.MakeColumnKey(0, false), "and is the key")
	} else {
		sym.Assert(len(ok) == 1 && ok[0] == key[0], "the declared key stays")
	}
	sym.Assert(len(on) == n+d && len(oc) == n+d, "no column is lost")
	for i := 0; i < n; i++ {
		sym.Assert(on[i+d] == names[i] && oc[i+d] == cts[i] && names[i] == columnNames[i], "columns keep their order and types")
	}
}
