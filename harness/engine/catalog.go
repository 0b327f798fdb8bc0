package engine

import (
	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/lib"
	"github.com/leftmike/maho/zzverif/sym"
)

func newEngine() engine.Engine {
	st := newStore()
	sym.Assert(engine.Init(st) == nil, "init")
	return engine.NewEngine(st)
}

// schema names of one database, in order
type dbModel struct {
	name    types.Identifier
	schemas []types.Identifier
}

type world []dbModel

func (w world) clone() world {
	out := append(world{}, w...)
	for i := range out {
		out[i].schemas = append([]types.Identifier{}, w[i].schemas...)
	}
	return out
}

func (w world) find(db types.Identifier) int {
	for i := range w {
		if w[i].name == db {
			return i
		}
	}
	return -1
}

func findName(l []types.Identifier, n types.Identifier) int {
	for i := range l {
		if l[i] == n {
			return i
		}
	}
	return -1
}

func sameSet(a, b []types.Identifier) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if findName(b, a[i]) < 0 || findName(a[:i], a[i]) >= 0 {
			return false
		}
	}
	return true
}

func (w world) names() []types.Identifier {
	var out []types.Identifier
	for _, d := range w {
		out = append(out, d.name)
	}
	return out
}

func initial() world {
	return world{{types.SYSTEM, []types.Identifier{types.INFO}}, {types.MAHO, []types.Identifier{types.PUBLIC}}}
}

// checkDatabases compares the whole catalog with the reference.
func (w world) checkDatabases(eng engine.Engine) {
	got, err := eng.ListDatabases()
	sym.Assert(err == nil, "list databases")
	sym.Assert(sameSet(got, w.names()), "exactly the existing databases are listed")
}

func (w world) checkSchemas(tx engine.Transaction, dbs []types.Identifier) {
	for _, n := range dbs {
		got, err := tx.ListSchemas(ctx, n)
		i := w.find(n)
		sym.Assert((err == nil) == (i >= 0), "schemas are listed exactly for existing databases")
		if i >= 0 {
			sym.Assert(sameSet(got, w[i].schemas), "exactly the existing schemas are listed")
		}
	}
}

// pool is the names a history draws from: a symbolic one, one which extends
// it, a built-in one and an unrelated one.
func pool() []types.Identifier {
	a := sym.String("name", 1)
	sym.Assume(sym.Or(a[0] < 0x80, a[0] >= 0xC0))
	return []types.Identifier{types.ID(a, true), types.ID(a+"b", true), types.PUBLIC, types.MAHO}
}

// Databases: any sequence of creating and dropping databases and schemas.
func Databases() {
	eng := newEngine()
	w := initial()
	names := pool()
	steps := sym.Param("steps", 3)
	var tx engine.Transaction
	saved := w
	for i := 0; i < steps; i++ {
		nm := "s" + string(rune('0'+i))
		db := names[sym.Choose(nm+".db", len(names))]
		switch sym.Choose(nm+".op", 5) {
		case 0:
			if tx != nil {
				sym.Stop()
			}
			err := eng.CreateDatabase(db, nil)
			sym.Assert((err == nil) == (w.find(db) < 0), "a database is created exactly when it does not exist")
			if err == nil {
				w = append(w, dbModel{name: db})
			}
		case 1:
			if tx != nil {
				sym.Stop()
			}
			ifExists := sym.Choose(nm+".if", 2) == 1
			err := eng.DropDatabase(db, ifExists)
			j := w.find(db)
			sym.Assert((err == nil) == (j >= 0 || ifExists), "a database is dropped exactly when it exists or may be missing")
			if j >= 0 {
				w = append(append(world{}, w[:j]...), w[j+1:]...)
			}
		case 2:
			t := tx
			if t == nil {
				t = eng.Begin()
			}
			sn := types.SchemaName{Database: db, Schema: names[2*sym.Choose(nm+".schema", 2)]}
			j := w.find(db)
			k := -1
			if j >= 0 {
				k = findName(w[j].schemas, sn.Schema)
			}
			w = w.clone()
			if sym.Choose(nm+".create", 2) == 0 {
				err := t.CreateSchema(ctx, sn)
				sym.Assert((err == nil) == (j >= 0 && k < 0), "a schema is created exactly when its database exists and it does not")
				if err == nil {
					w[j].schemas = append(w[j].schemas, sn.Schema)
				}
			} else {
				ifExists := sym.Choose(nm+".if", 2) == 1
				err := t.DropSchema(ctx, sn, ifExists)
				sym.Assert((err == nil) == (k >= 0 || ifExists), "a schema is dropped exactly when it exists or may be missing")
				if k >= 0 {
					w[j].schemas = append(w[j].schemas[:k], w[j].schemas[k+1:]...)
				}
			}
			if tx == nil {
				sym.Assert(t.Commit(ctx) == nil, "commit")
			} else {
				w.checkSchemas(tx, names)
			}
		case 3:
			if tx != nil {
				sym.Stop()
			}
			tx = eng.Begin()
			saved = w.clone()
		case 4:
			if tx == nil {
				sym.Stop()
			}
			if sym.Choose(nm+".commit", 2) == 0 {
				sym.Assert(tx.Commit(ctx) == nil, "commit")
			} else {
				sym.Assert(tx.Rollback() == nil, "rollback")
				w = saved
			}
			sym.Assert(tx.Commit(ctx) != nil && tx.Rollback() != nil, "a completed transaction is refused")
			tx = nil
		}
	}
	if tx != nil {
		sym.Assert(tx.Rollback() == nil, "rollback")
		w = saved
	}
	sym.Reach("listed")
	w.checkDatabases(eng)
	tx = eng.Begin()
	w.checkSchemas(tx, append([]types.Identifier{types.SYSTEM}, names...))
	sym.Assert(tx.Rollback() == nil, "rollback")
}

// Options: a database with options is refused.
func Options() {
	eng := newEngine()
	n := types.ID(sym.String("name", 2), true)
	opts := storage.OptionsMap{types.ID("x", true): "y"}
	if sym.Choose("empty", 2) == 1 {
		opts = storage.OptionsMap{}
	}
	err := eng.CreateDatabase(n, opts)
	sym.Reach("options")
	got, lerr := eng.ListDatabases()
	sym.Assert(lerr == nil, "list databases")
	sym.Assert((err == nil) == (len(opts) == 0) && (findName(got, n) >= 0) == (err == nil), "unknown options are refused and create nothing")
}

type tableModel struct {
	tn    types.TableName
	tid   storage.TableId
	names []types.Identifier
	cts   []types.ColumnType
	key   []types.ColumnKey
}

// definition returns a table definition with symbolic types and keys.
func definition(nm string) (m tableModel) {
	n := sym.Choose(nm+".cols", sym.Param("cols", 2)+1)
	all := []types.Identifier{types.ID("c", true), types.INT, types.ID(sym.String(nm+".c", 1), true)}
	for i := 0; i < n; i++ {
		c := nm + string(rune('0'+i))
		m.names = append(m.names, all[i])
		m.cts = append(m.cts, types.ColumnType{Type: types.ValueType(sym.Byte(c + ".type")), Size: sym.Uint32(c + ".size"),
			Fixed: sym.Bool(c + ".fixed"), NotNull: sym.Bool(c + ".notnull")})
	}
	keys := sym.Choose(nm+".keys", 3)
	for i := 0; i < keys; i++ {
		m.key = append(m.key, types.ColumnKey(sym.Int32(nm+".key"+string(rune('0'+i)))))
	}
	return m
}

func (m *tableModel) matches(t engine.Table) bool {
	tt := t.Type()
	if t.Name() != m.tn || len(tt.ColumnNames) != len(m.names) || len(tt.ColumnTypes) != len(m.cts) || len(tt.Key) != len(m.key) {
		return false
	}
	for i := range m.names {
		a, b := tt.ColumnTypes[i], m.cts[i]
		if tt.ColumnNames[i] != m.names[i] || a.Type != b.Type || a.Size != b.Size || a.Fixed != b.Fixed || a.NotNull != b.NotNull {
			return false
		}
	}
	for i := range m.key {
		if tt.Key[i] != m.key[i] {
			return false
		}
	}
	return len(tt.ColumnDefaults) == 0 && len(tt.Indexes) == 0
}

// Definition: one table with an arbitrary definition is opened again, in the
// same and in a later transaction.
func Definition() {
	eng := newEngine()
	m := definition("d")
	m.tn = types.TableName{Database: types.MAHO, Schema: types.PUBLIC, Table: types.ID(sym.String("t", 1), true)}
	tx := eng.Begin()
	_, err := tx.OpenTable(ctx, m.tn)
	sym.Assert(err != nil, "a table that was not created is not found")
	sym.Assert(tx.CreateTable(ctx, m.tn, m.names, m.cts, m.key) == nil, "create table")
	t, err := tx.OpenTable(ctx, m.tn)
	sym.Assert(err == nil, "the own table is found")
	sym.Assert(m.matches(t), "with its definition")
	tid := t.TableId()
	sym.Assert(tid > 511, "ids are above the reserved range")
	sym.Assert(tx.CreateTable(ctx, m.tn, m.names, m.cts, m.key) != nil, "an existing name is refused")
	commit := sym.Choose("commit", 2) == 0
	if commit {
		sym.Assert(tx.Commit(ctx) == nil, "commit")
	} else {
		sym.Assert(tx.Rollback() == nil, "rollback")
	}
	tx = eng.Begin()
	t, err = tx.OpenTable(ctx, m.tn)
	sym.Reach("opened")
	sym.Assert((err == nil) == commit, "found later exactly when committed")
	if commit {
		sym.Assert(m.matches(t) && t.TableId() == tid, "with its definition and id")
	}
	sym.Assert(tx.Rollback() == nil, "rollback")
}

// Tables: histories of table creations over several names.
func Tables() {
	eng := newEngine()
	base := eng.Begin()
	other := types.ID("other", true)
	sym.Assert(base.CreateSchema(ctx, types.SchemaName{Database: types.MAHO, Schema: other}) == nil, "create schema")
	sym.Assert(base.Commit(ctx) == nil, "commit")
	a := sym.String("name", 1)
	sym.Assume(a[0] < 0x80)
	names := []types.Identifier{types.ID(a, true), types.ID(a+"b", true), types.TABLES}
	dbs := []types.Identifier{types.MAHO, types.MAHO, types.SYSTEM, types.ID(a, true)}
	scs := []types.Identifier{types.PUBLIC, other, types.INFO, types.PUBLIC}
	var tables, saved []tableModel
	schemas := []bool{true, true, true, false}
	savedSchemas := append([]bool{}, schemas...)
	steps := sym.Param("steps", 3)
	tx := eng.Begin()
	find := func(tn types.TableName) int {
		for i := range tables {
			if tables[i].tn == tn {
				return i
			}
		}
		return -1
	}
	for i := 0; i < steps; i++ {
		nm := "s" + string(rune('0'+i))
		switch sym.Choose(nm+".op", 4) {
		case 0:
			w := sym.Choose(nm+".where", len(dbs))
			m := tableModel{tn: types.TableName{Database: dbs[w], Schema: scs[w], Table: names[sym.Choose(nm+".name", len(names))]},
				names: []types.Identifier{names[0]}, cts: []types.ColumnType{{Type: types.Int64Type, Size: sym.Uint32(nm + ".size")}}}
			builtin := w == 2 && m.tn.Table == types.TABLES
			ok := schemas[w] && find(m.tn) < 0 && !builtin
			err := tx.CreateTable(ctx, m.tn, m.names, m.cts, nil)
			sym.Assert((err == nil) == ok, "a table is created exactly when its schema exists and the name is free")
			if ok {
				t, err := tx.OpenTable(ctx, m.tn)
				sym.Assert(err == nil && m.matches(t), "the own table is found")
				m.tid = t.TableId()
				for _, o := range tables {
					sym.Assert(o.tid != m.tid, "no two tables share an id")
				}
				tables = append(append([]tableModel{}, tables...), m)
			}
		case 1:
			sym.Assert(tx.Commit(ctx) == nil, "commit")
			saved = tables
			savedSchemas = append([]bool{}, schemas...)
			tx = eng.Begin()
		case 2:
			sym.Assert(tx.Rollback() == nil, "rollback")
			tables = saved
			schemas = append([]bool{}, savedSchemas...)
			tx = eng.Begin()
		case 3:
			// a schema and with it its tables
			if !schemas[1] {
				sym.Assert(tx.CreateSchema(ctx, types.SchemaName{Database: types.MAHO, Schema: other}) == nil, "create schema")
				schemas[1] = true
				break
			}
			sym.Assert(tx.DropSchema(ctx, types.SchemaName{Database: types.MAHO, Schema: other}, false) == nil, "drop schema")
			schemas[1] = false
			var rest []tableModel
			for _, m := range tables {
				if m.tn.Schema != other || m.tn.Database != types.MAHO {
					rest = append(rest, m)
				}
			}
			tables = rest
		}
	}
	sym.Reach("tables")
	for w := range dbs {
		for _, n := range names {
			tn := types.TableName{Database: dbs[w], Schema: scs[w], Table: n}
			t, err := tx.OpenTable(ctx, tn)
			j := find(tn)
			if j < 0 {
				sym.Assert((err == nil) == (w == 2 && n == types.TABLES), "only created tables are found")
			} else {
				sym.Assert(err == nil && tables[j].matches(t) && t.TableId() == tables[j].tid, "a created table is found with its definition and id")
			}
		}
	}
	sym.Assert(tx.Rollback() == nil, "rollback")
}

// System: the built-in tables describe themselves.
func System() {
	eng := newEngine()
	tx := eng.Begin()
	want := []struct {
		name types.Identifier
		tid  storage.TableId
		cols []string
		keys int
	}{
		{types.SEQUENCES, 16, []string{"sequence", "current"}, 1},
		{types.DATABASES, 17, []string{"database"}, 1},
		{types.SCHEMAS, 18, []string{"database", "schema"}, 2},
		{types.TABLES, 19, []string{"database", "schema", "table", "table_id", "type"}, 3},
	}
	w := want[sym.Choose("table", len(want))]
	t, err := tx.OpenTable(ctx, types.TableName{Database: types.SYSTEM, Schema: types.INFO, Table: w.name})
	sym.Assert(err == nil && t.TableId() == w.tid, "a built-in table has its reserved id")
	tt := t.Type()
	sym.Reach("system")
	sym.Assert(len(tt.ColumnNames) == len(w.cols) && len(tt.ColumnTypes) == len(w.cols) && len(tt.Key) == w.keys, "definition")
	for i := range w.cols {
		sym.Assert(tt.ColumnNames[i].String() == w.cols[i], "column")
	}
	for i, k := range tt.Key {
		sym.Assert(lib.KeyCol(k) == i && !k.Reverse(), "key")
	}
}

// Lifecycle: two databases with arbitrary names, each with a schema and a
// table; one is dropped and created again.
func Lifecycle() {
	eng := newEngine()
	name := sym.String("x", 1)
	x := types.ID(name, true)
	var y types.Identifier
	whole := sym.Choose("database", 2) == 0
	k := 1
	if whole {
		k = sym.Choose("y", 3)
	}
	switch k {
	case 0:
		y = types.ID(sym.String("y", 1), true)
	case 1:
		y = types.ID(name+"b", true)
	case 2:
		y = types.ID("b"+name, true)
	}
	if x == types.MAHO || y == types.MAHO || x == types.SYSTEM || y == types.SYSTEM {
		sym.Stop()
	}
	s, t := types.ID("s", true), types.ID("t", true)
	switch sym.Choose("special", 3) {
	case 1:
		s, t = types.PUBLIC, types.TABLES
	case 2:
		s, t = types.ID("", true), types.ID("1 A", true)
	}
	same := x == y
	def := []types.Identifier{types.ID("c", true)}
	cts := []types.ColumnType{{Type: types.BoolType}}
	sym.Assert(eng.CreateDatabase(x, nil) == nil, "create")
	sym.Assert((eng.CreateDatabase(y, nil) == nil) == !same, "the second is created exactly when its name differs")
	if same {
		sym.Reach("same")
		return
	}
	tx := eng.Begin()
	for _, d := range []types.Identifier{x, y, types.MAHO} {
		err := tx.CreateSchema(ctx, types.SchemaName{Database: d, Schema: s})
		sym.Assert((err == nil) == (d != types.MAHO || s != types.PUBLIC), "create schema")
		sym.Assert(tx.CreateTable(ctx, types.TableName{Database: d, Schema: s, Table: t}, def, cts, nil) == nil, "create table")
	}
	// Another schema with a table in the same database.
	z := s
	if !whole {
		z = types.ID(sym.String("z", 1), true)
		zn := types.SchemaName{Database: x, Schema: z}
		sym.Assert((tx.CreateSchema(ctx, zn) == nil) == (z != s && z != types.PUBLIC), "another schema")
		if z != s {
			sym.Assert(tx.CreateTable(ctx, types.TableName{Database: x, Schema: z, Table: t}, def, cts, nil) == nil, "create table")
		}
	}
	exists := func(d types.Identifier, schema, table bool) {
		l, err := tx.ListSchemas(ctx, d)
		sym.Assert(err == nil && (findName(l, s) >= 0) == schema, "schemas")
		_, err = tx.OpenTable(ctx, types.TableName{Database: d, Schema: s, Table: t})
		sym.Assert((err == nil) == table, "tables")
	}
	if whole {
		sym.Assert(tx.Commit(ctx) == nil, "commit")
		sym.Assert(eng.DropDatabase(x, sym.Choose("if", 2) == 0) == nil, "drop")
		tx = eng.Begin()
		_, err := tx.ListSchemas(ctx, x)
		sym.Assert(err != nil, "a dropped database is gone")
		_, err = tx.OpenTable(ctx, types.TableName{Database: x, Schema: s, Table: t})
		sym.Assert(err != nil, "and its tables")
		sym.Assert(tx.CreateSchema(ctx, types.SchemaName{Database: x, Schema: s}) != nil, "and takes no schemas")
		sym.Assert(tx.Rollback() == nil, "rollback")
		sym.Assert(eng.CreateDatabase(x, nil) == nil, "create again")
		tx = eng.Begin()
	} else {
		sn := types.SchemaName{Database: x, Schema: s}
		sym.Assert(tx.DropSchema(ctx, sn, sym.Choose("if", 2) == 0) == nil, "drop")
		sym.Assert(tx.DropSchema(ctx, sn, false) != nil, "drop again")
		sym.Assert(tx.DropSchema(ctx, sn, true) == nil, "drop again if there is one")
	}
	exists(x, false, false)
	exists(y, true, true)
	exists(types.MAHO, true, true)
	if z != s {
		_, err := tx.OpenTable(ctx, types.TableName{Database: x, Schema: z, Table: t})
		sym.Assert(err == nil, "the tables of other schemas remain")
	}
	sym.Assert(tx.CreateSchema(ctx, types.SchemaName{Database: x, Schema: s}) == nil, "create again")
	exists(x, true, false)
	sym.Reach("again")
	sym.Assert(tx.Commit(ctx) == nil, "commit")
}
