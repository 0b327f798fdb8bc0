package session

import (
	"strings"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/evaluate"
	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/sym"
)

// columns returns up to max different column names with any types.
func columns(max int) (cols []types.Identifier, cts []types.ColumnType) {
	n := pick("cols", max+1)
	for i := 0; i < n; i++ {
		c := "c" + string(rune('0'+i))
		id := ident(c)
		for _, o := range cols {
			sym.Assume(o != id)
		}
		cols = append(cols, id)
		cts = append(cts, types.ColumnType{Type: types.ValueType(sym.Byte(c + ".type")), Size: sym.Uint32(c + ".size"),
			Fixed: sym.Bool(c + ".fixed"), NotNull: sym.Bool(c + ".notnull")})
	}
	return
}

// key returns a key of up to max different columns, which may be unknown, and
// the column keys it stands for, or ok false.
func key(nm string, max int, cols []types.Identifier) (ik sql.IndexKey, want []types.ColumnKey, ok bool) {
	ok = true
	n := 1 + pick(nm+".n", max)
	for i := 0; i < n; i++ {
		c := nm + string(rune('0'+i))
		id := ident(c)
		for _, o := range ik.Columns {
			sym.Assume(o != id)
		}
		rev := sym.Bool(c + ".desc")
		ik.Columns = append(ik.Columns, id)
		ik.Reverse = append(ik.Reverse, rev)
		at := -1
		for j := range cols {
			if cols[j] == id {
				at = j
			}
		}
		if at < 0 {
			ok = false
			continue
		}
		want = append(want, types.MakeColumnKey(types.ColumnNum(at), rev))
	}
	return
}

func sameKey(a, b []types.ColumnKey) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = sym.And(r, a[i] == b[i])
	}
	return r
}

// CreateTable: what the statement declares reaches the engine.
func CreateTable() {
	eng := &fakeEngine{}
	ses := evaluate.NewSession(eng, types.MAHO, types.PUBLIC)
	max := sym.Param("cols", 3)
	cols, cts := columns(max)
	tn := types.TableName{Database: ident("d"), Schema: ident("s"), Table: ident("t")}
	stmt := &sql.CreateTable{Table: tn, Columns: cols, ColumnTypes: cts, IfNotExists: sym.Bool("if")}
	exists := sym.Bool("exists")
	if exists {
		eng.table = &engine.TableType{}
	}
	var want []types.ColumnKey
	ok := true
	primary := pick("primary", 3) // none, first or after other constraints
	if primary == 2 {
		other, _, _ := key("u", 1, cols)
		stmt.Constraints = append(stmt.Constraints,
			sql.Constraint{Type: []sql.ConstraintType{sql.UniqueConstraint, sql.CheckConstraint, sql.NotNullConstraint}[pick("other", 3)], Key: other})
	}
	if primary > 0 {
		var ik sql.IndexKey
		ik, want, ok = key("k", sym.Param("keys", 2), cols)
		stmt.Constraints = append(stmt.Constraints, sql.Constraint{Type: sql.PrimaryConstraint, Key: ik})
	}
	err := ses.Evaluate(ctx, stmt)
	sym.Reach("created")
	created := 0
	for _, c := range eng.calls {
		if c.op != "create table" {
			sym.Assert(c.op == "open table" || c.op == "commit" || c.op == "rollback", "nothing else is done")
			continue
		}
		created++
		sym.Assert(sameTable(c.tn, tn), "the table")
		sym.Assert(len(c.cols) == len(cols) && len(c.cts) == len(cts), "the columns")
		r := true
		for i := range cols {
			a, b := c.cts[i], cts[i]
			r = sym.And(r, sym.And(c.cols[i] == cols[i], sym.And(sym.And(a.Type == b.Type, a.Size == b.Size), sym.And(a.Fixed == b.Fixed, a.NotNull == b.NotNull))))
		}
		sym.Assert(r, "the columns in order with their types")
		sym.Assert(sameKey(c.key, want), "the primary key")
	}
	if exists {
		sym.Assert(created == 0 && (err == nil) == stmt.IfNotExists, "an existing table is left alone")
	} else {
		sym.Assert((err == nil) == ok && created == b2i(ok), "the table is created unless its key has an unknown column")
	}
}

// CreateIndex: what the statement declares reaches the engine.
func CreateIndex() {
	eng := &fakeEngine{}
	ses := evaluate.NewSession(eng, types.MAHO, types.PUBLIC)
	cols, cts := columns(sym.Param("cols", 3))
	tn := types.TableName{Database: ident("d"), Schema: ident("s"), Table: ident("t")}
	ik, want, ok := key("k", sym.Param("keys", 2), cols)
	stmt := &sql.CreateIndex{Index: ident("index"), Table: tn, Key: ik, IfNotExists: sym.Bool("if")}
	found := sym.Bool("found")
	exists := false
	if found {
		eng.table = &engine.TableType{ColumnNames: cols, ColumnTypes: cts}
		for i := 0; i < pick("indexes", 3); i++ {
			id := ident("i" + string(rune('0'+i)))
			eng.table.Indexes = append(eng.table.Indexes, engine.IndexType{Name: id})
			if id == stmt.Index {
				exists = true
			}
		}
	}
	err := ses.Evaluate(ctx, stmt)
	sym.Reach("created")
	created := 0
	for _, c := range eng.calls {
		if c.op != "create index" {
			sym.Assert(c.op == "open table" || c.op == "commit" || c.op == "rollback", "nothing else is done")
			continue
		}
		created++
		sym.Assert(sameTable(c.tn, tn), "the table")
		sym.Assert(c.in == stmt.Index, "the index")
		sym.Assert(sameKey(c.key, want), "the key")
	}
	switch {
	case !found:
		sym.Assert(err != nil && created == 0, "an index on a missing table is refused")
	case exists:
		sym.Assert(created == 0 && (err == nil) == stmt.IfNotExists, "an existing index is left alone")
	default:
		sym.Assert((err == nil) == ok && created == b2i(ok), "the index is created unless its key has an unknown column")
	}
}

var typeTexts = []struct {
	text string
	ct   types.ColumnType
}{
	{"int", types.ColumnType{Type: types.Int64Type, Size: 4}},
	{"Bool", types.ColumnType{Type: types.BoolType, Size: 1}},
	{"VARCHAR", types.ColumnType{Type: types.StringType, Size: 1}},
	{"binary", types.ColumnType{Type: types.BytesType, Fixed: true, Size: 1}},
	{"double precision", types.ColumnType{Type: types.Float64Type, Size: 8}},
}

// Text: a statement as text, evaluated by a session on the real engine,
// creates the table which is then opened from the engine.
func Text() {
	eng := newEngine()
	ses := evaluate.NewSession(eng, types.MAHO, types.PUBLIC)
	n := 1 + pick("cols", 2)
	names := []string{"a", "bee"}
	var ids []types.Identifier
	var cts []types.ColumnType
	var want []types.ColumnKey
	text := ""
	primary := -1
	for i := 0; i < n; i++ {
		nm := "c" + string(rune('0'+i))
		t := typeTexts[pick(nm+".type", len(typeTexts))]
		ct := t.ct
		if i > 0 {
			text += ", "
		}
		text += names[i] + " " + t.text
		if (ct.Type == types.StringType || ct.Type == types.BytesType) && sym.Bool(nm+".sized") {
			d := sym.String(nm+".size", 2)
			sym.Assume(sym.And(sym.And(d[0] >= '0', d[0] <= '9'), sym.And(d[1] >= '0', d[1] <= '9')))
			text += "(" + d + ")"
			ct.Size = uint32(d[0]-'0')*10 + uint32(d[1]-'0')
		}
		if sym.Bool(nm + ".notnull") {
			text += " not null"
			ct.NotNull = true
		}
		if primary < 0 && sym.Bool(nm+".primary") {
			text += " PRIMARY KEY"
			primary = i
			want = []types.ColumnKey{types.MakeColumnKey(types.ColumnNum(i), false)}
		}
		ids = append(ids, types.ID(names[i], true))
		cts = append(cts, ct)
	}
	ok := true
	if primary < 0 && sym.Bool("key") {
		text += ", primary key ("
		k := 1 + pick("key.n", 2)
		first := pick("key.first", 3) // a, bee or an unknown one
		for i := 0; i < k; i++ {
			at := (first + i) % 3
			text += []string{"a", "bee", "nope"}[at]
			rev := false
			switch pick("key.order", 3) {
			case 1:
				text += " ASC"
			case 2:
				text += " desc"
				rev = true
			}
			if i+1 < k {
				text += ", "
			}
			if at >= n {
				ok = false
			}
			want = append(want, types.MakeColumnKey(types.ColumnNum(at), rev))
		}
		text += ")"
	}
	name := []string{"t", "public.t", "maho.public.t"}[pick("name", 3)]
	text = "create table " + name + " (" + text + ");"
	err := run(ses, text)
	sym.Assert((err == nil) == ok, "created unless the key has an unknown column")
	sym.Reach("created")
	tx := eng.Begin()
	tn := types.TableName{Database: types.MAHO, Schema: types.PUBLIC, Table: types.ID("t", true)}
	tbl, err := tx.OpenTable(ctx, tn)
	sym.Assert((err == nil) == ok, "the table is found")
	if ok {
		tt := tbl.Type()
		sym.Assert(tbl.Name() == tn && len(tt.ColumnNames) == n && len(tt.ColumnTypes) == n, "its columns")
		for i := range ids {
			a, b := tt.ColumnTypes[i], cts[i]
			sym.Assert(tt.ColumnNames[i] == ids[i], "its columns in order")
			sym.Assert(sym.And(sym.And(a.Type == b.Type, a.Size == b.Size), sym.And(a.Fixed == b.Fixed, a.NotNull == b.NotNull)), "with their types")
		}
		sym.Assert(sameKey(tt.Key, want), "its key")
	}
	sym.Assert(tx.Rollback() == nil, "rollback")
	if ok {
		sym.Assert(run(ses, text) != nil, "an existing table is refused")
		sym.Assert(run(ses, "create table if not exists t (x bool)") == nil, "or left alone")
		tx := eng.Begin()
		tbl, err := tx.OpenTable(ctx, tn)
		sym.Assert(err == nil && len(tbl.Type().ColumnNames) == n && tbl.Type().ColumnNames[0] == ids[0], "untouched")
		sym.Assert(tx.Rollback() == nil, "rollback")
	}
}

func run(ses *evaluate.Session, text string) error {
	stmt, err := parser.NewParser(strings.NewReader(text), "").Parse()
	sym.Assert(err == nil, "the statement is parsed")
	return ses.Evaluate(ctx, stmt)
}
