package parse

import (
	"strings"

	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/sym"
)

// choose is pick, with the execution forked.
func choose(nm string, n int) int {
	b := pick(nm, n)
	for k := 0; k < n-1; k++ {
		if b == k {
			return k
		}
	}
	return n - 1
}

func yes(nm string) bool { return choose(nm, 2) == 1 }

func ids(ss ...string) []types.Identifier {
	var out []types.Identifier
	for _, s := range ss {
		out = append(out, id(s))
	}
	return out
}

// table is a table name with none, some or all of its qualifiers.
func table(nm, t string) (string, types.TableName) {
	switch choose(nm+".table", 3) {
	case 0:
		return t, types.TableName{Table: id(t)}
	case 1:
		return "qs1." + t, types.TableName{Schema: id("qs1"), Table: id(t)}
	}
	return "qd1.qs1." + t, types.TableName{Database: id("qd1"), Schema: id("qs1"), Table: id(t)}
}

const maxSize = 1<<32 - 2

type colType struct {
	text  string
	ct    types.ColumnType
	sized bool
}

var colTypes = []colType{
	{"BINARY", types.ColumnType{Type: types.BytesType, Fixed: true, Size: 1}, true},
	{"VARBINARY", types.ColumnType{Type: types.BytesType, Size: 1}, true},
	{"BLOB", types.ColumnType{Type: types.BytesType, Size: maxSize}, true},
	{"BYTEA", types.ColumnType{Type: types.BytesType, Size: maxSize}, true},
	{"BYTES", types.ColumnType{Type: types.BytesType, Size: maxSize}, true},
	{"CHAR", types.ColumnType{Type: types.StringType, Fixed: true, Size: 1}, true},
	{"CHARACTER", types.ColumnType{Type: types.StringType, Fixed: true, Size: 1}, true},
	{"VARCHAR", types.ColumnType{Type: types.StringType, Size: 1}, true},
	{"TEXT", types.ColumnType{Type: types.StringType, Size: maxSize}, true},
	{"BOOL", types.ColumnType{Type: types.BoolType, Size: 1}, false},
	{"BOOLEAN", types.ColumnType{Type: types.BoolType, Size: 1}, false},
	{"DOUBLE", types.ColumnType{Type: types.Float64Type, Size: 8}, false},
	{"DOUBLE PRECISION", types.ColumnType{Type: types.Float64Type, Size: 8}, false},
	{"REAL", types.ColumnType{Type: types.Float64Type, Size: 4}, false},
	{"SMALLINT", types.ColumnType{Type: types.Int64Type, Size: 2}, false},
	{"INT2", types.ColumnType{Type: types.Int64Type, Size: 2}, false},
	{"INT", types.ColumnType{Type: types.Int64Type, Size: 4}, false},
	{"INTEGER", types.ColumnType{Type: types.Int64Type, Size: 4}, false},
	{"INT4", types.ColumnType{Type: types.Int64Type, Size: 4}, false},
	{"INT8", types.ColumnType{Type: types.Int64Type, Size: 8}, false},
	{"BIGINT", types.ColumnType{Type: types.Int64Type, Size: 8}, false},
}

// decl collects a CREATE TABLE and what it declares.
type decl struct {
	parts []string
	want  sql.CreateTable
	bad   bool // must be rejected
}

func (d *decl) add(s ...string) { d.parts = append(d.parts, s...) }

func (d *decl) name(cn types.Identifier) {
	for _, c := range d.want.Constraints {
		if c.Name == cn {
			d.bad = true
		}
	}
}

func (d *decl) key(ct sql.ConstraintType, cn types.Identifier, key sql.IndexKey) {
	key.Unique = true
	if cn == 0 {
		nm := ""
		for _, c := range key.Columns {
			nm += c.String() + "_"
		}
		if ct == sql.PrimaryConstraint {
			cn = id(nm + "primary")
		} else {
			cn = id(nm + "unique")
		}
	}
	for i, c := range key.Columns {
		for _, o := range key.Columns[:i] {
			if o == c {
				d.bad = true
			}
		}
	}
	d.name(cn)
	for _, c := range d.want.Constraints {
		if c.Type == sql.PrimaryConstraint && ct == c.Type {
			d.bad = true
		}
		if c.Type != sql.PrimaryConstraint && c.Type != sql.UniqueConstraint {
			continue
		}
		eq := same{}.ids(c.Key.Columns, key.Columns)
		for i := range key.Columns {
			eq = eq && c.Key.Reverse[i] == key.Reverse[i]
		}
		if eq {
			d.bad = true
		}
	}
	d.want.Constraints = append(d.want.Constraints, sql.Constraint{Type: ct, Name: cn, ColNum: -1, Key: key})
}

var (
	actions     = []string{"NO ACTION", "RESTRICT", "CASCADE", "SET NULL", "SET DEFAULT"}
	actionKinds = []sql.RefAction{sql.NoAction, sql.Restrict, sql.Cascade, sql.SetNull, sql.SetDefault}
)

// on adds the actions of a foreign key.
func (d *decl) on(nm string, fk *sql.ForeignKey) { d.bad = d.bad || onActions(nm, fk, d.add) }

func onActions(nm string, fk *sql.ForeignKey, add func(...string)) bool {
	var del, upd, bad bool
	n := sym.Param("actions", 1)
	for i := 0; i < n; i++ {
		k := choose(nm+".on"+num(i), 3)
		if k == 0 {
			break
		}
		j := choose(nm+".action"+num(i), len(actions))
		if k == 1 {
			add("ON DELETE", actions[j])
			fk.OnDelete = actionKinds[j]
			bad = bad || del
			del = true
		} else {
			add("ON UPDATE", actions[j])
			fk.OnUpdate = actionKinds[j]
			bad = bad || upd
			upd = true
		}
	}
	return bad
}

// constant returns an expression whose end must be found by the parser.
func constant(nm string) (string, sql.Expr) {
	d := digit(nm + ".d")
	lit := sql.Literal{types.Int64Value(d - '0')}
	switch choose(nm+".e", sym.Param("exprs", 3)) {
	case 0:
		return string([]byte{d}), lit
	case 1:
		return "q1 + " + string([]byte{d}), &sql.BinaryExpr{Op: sql.AddOp, Left: sql.Ref{id("q1")}, Right: lit}
	case 2:
		return "q1 IS NOT NULL", &sql.UnaryExpr{Op: sql.NotOp, Expr: &sql.SExpr{Name: id("is_null"), Args: []sql.Expr{sql.Ref{id("q1")}}}}
	case 3:
		return "(q1)", &sql.UnaryExpr{Op: sql.NoOp, Expr: sql.Ref{id("q1")}}
	}
	return "q1 NOT IN (VALUES (" + string([]byte{d}) + "))",
		&sql.Subquery{Op: sql.All, ExprOp: sql.NotEqualOp, Expr: sql.Ref{id("q1")}, Stmt: &sql.Values{Expressions: [][]sql.Expr{{lit}}}}
}

// columnConstraint adds one constraint to the last column.
func (d *decl) columnConstraint(nm string) {
	w := &d.want
	col := w.Columns[len(w.Columns)-1]
	var cn types.Identifier
	kind := choose(nm+".kind", 8)
	if names := sym.Param("names", 2); names > 0 {
		k := choose(nm+".named", names+1)
		if k > 0 {
			s := "qk" + num(k)
			if kind == 5 || kind >= 6 {
				s = "qx" + string(rune('a'+len(d.parts)%26)) + string(rune('a'+len(d.parts)/26))
			}
			d.add("CONSTRAINT", s)
			cn = id(s)
		}
	}
	switch kind {
	case 0, 1:
		t, e := constant(nm)
		d.add("DEFAULT", t)
		if w.ColumnDefaults[len(w.Columns)-1] != nil {
			d.bad = true
		}
		w.ColumnDefaults[len(w.Columns)-1] = e
		if cn != 0 {
			d.name(cn)
			w.Constraints = append(w.Constraints, sql.Constraint{Type: sql.DefaultConstraint, Name: cn, ColNum: len(w.Columns) - 1})
		}
	case 2:
		d.add("NOT NULL")
		if w.ColumnTypes[len(w.Columns)-1].NotNull {
			d.bad = true
		}
		w.ColumnTypes[len(w.Columns)-1].NotNull = true
		if cn != 0 {
			d.name(cn)
			w.Constraints = append(w.Constraints, sql.Constraint{Type: sql.NotNullConstraint, Name: cn, ColNum: len(w.Columns) - 1})
		}
	case 3:
		d.add("PRIMARY KEY")
		d.key(sql.PrimaryConstraint, cn, sql.IndexKey{Columns: []types.Identifier{col}, Reverse: []bool{false}})
	case 4:
		d.add("UNIQUE")
		d.key(sql.UniqueConstraint, cn, sql.IndexKey{Columns: []types.Identifier{col}, Reverse: []bool{false}})
	case 5:
		t, e := constant(nm)
		d.add("CHECK (" + t + ")")
		w.Constraints = append(w.Constraints, sql.Constraint{Type: sql.CheckConstraint, Name: cn, ColNum: len(w.Columns) - 1, Check: e})
	default:
		fk := &sql.ForeignKey{Name: cn, FKCols: []types.Identifier{col}}
		t, tn := table(nm, "qt2")
		d.add("REFERENCES", t)
		fk.RefTable = tn
		if kind == 7 {
			d.add("(qc9)")
			fk.RefCols = ids("qc9")
		}
		d.on(nm, fk)
		w.ForeignKeys = append(w.ForeignKeys, fk)
	}
}

// column adds a column.
func (d *decl) column(nm string, name string, typ int, opts int) {
	w := &d.want
	for _, c := range w.Columns {
		if c == id(name) {
			d.bad = true
		}
	}
	w.Columns = append(w.Columns, id(name))
	w.ColumnTypes = append(w.ColumnTypes, colTypes[typ].ct)
	w.ColumnDefaults = append(w.ColumnDefaults, nil)
	d.add(name, colTypes[typ].text)
	for i := 0; i < opts && yes(nm+".opt"+num(i)); i++ {
		d.columnConstraint(nm + num(i))
	}
}

// keyColumns adds the columns of a key.
func (d *decl) keyColumns(nm string) sql.IndexKey {
	var key sql.IndexKey
	key.Columns, key.Reverse = keyColumns(nm, d.add)
	return key
}

func keyColumns(nm string, add func(...string)) ([]types.Identifier, []bool) {
	var cols []types.Identifier
	var rev []bool
	add("(")
	n := 1 + choose(nm+".cols", sym.Param("keycols", 2))
	for i := 0; i < n; i++ {
		if i > 0 {
			add(",")
		}
		c := "qc" + num(choose(nm+".col"+num(i), 2))
		add(c)
		cols = append(cols, id(c))
		k := choose(nm+".dir"+num(i), 3)
		if k > 0 {
			add([]string{"ASC", "DESC"}[k-1])
		}
		rev = append(rev, k == 2)
	}
	add(")")
	return cols, rev
}

// constraint adds a table constraint.
func (d *decl) constraint(nm string, kind int) {
	var cn types.Identifier
	w := &d.want
	k := choose(nm+".named", sym.Param("names", 1)+1)
	if k > 0 {
		s := "qk" + num(k)
		if kind > 1 {
			s = "qx" + string(rune('a'+len(d.parts)%26)) + string(rune('a'+len(d.parts)/26))
		}
		cn = id(s)
		d.add("CONSTRAINT", s)
	}
	switch kind {
	case 0:
		d.add("PRIMARY KEY")
		d.key(sql.PrimaryConstraint, cn, d.keyColumns(nm))
	case 1:
		d.add("UNIQUE")
		key := d.keyColumns(nm)
		if cn == 0 {
			// Whether two unnamed keys of the same columns in different
			// directions may be declared is left open.
			for _, c := range w.Constraints {
				if c.Type == sql.UniqueConstraint && (same{}).ids(c.Key.Columns, key.Columns) {
					for i := range key.Reverse {
						sym.Assume(key.Reverse[i] == c.Key.Reverse[i])
					}
				}
			}
		}
		d.key(sql.UniqueConstraint, cn, key)
	case 2:
		t, e := constant(nm)
		d.add("CHECK (" + t + ")")
		w.Constraints = append(w.Constraints, sql.Constraint{Type: sql.CheckConstraint, Name: cn, ColNum: -1, Check: e})
	default:
		fk := &sql.ForeignKey{Name: cn}
		foreign(nm, fk, d.add)
		d.on(nm, fk)
		w.ForeignKeys = append(w.ForeignKeys, fk)
	}
}

// foreign adds the columns and table of a foreign key.
func foreign(nm string, fk *sql.ForeignKey, add func(...string)) {
	add("FOREIGN KEY")
	fk.FKCols = ids("qc0")
	if yes(nm + ".two") {
		fk.FKCols = ids("qc0", "qc1")
		add("(qc0, qc1)")
	} else {
		add("(qc0)")
	}
	t, tn := table(nm, "qt2")
	add("REFERENCES", t)
	fk.RefTable = tn
	switch choose(nm+".refs", 3) {
	case 1:
		add("(qr0)")
		fk.RefCols = ids("qr0")
	case 2:
		add("(qr0, qr1)")
		fk.RefCols = ids("qr0", "qr1")
	}
}

// check parses the declaration.
func (d *decl) check(head string) {
	got, err := one(head + " (" + strings.Join(d.parts, " ") + ")")
	sym.Reach("parsed")
	if d.bad {
		sym.Reach("rejected")
		sym.Assert(err != nil, "the declaration is rejected")
		return
	}
	sym.Assert(err == nil, "the declaration is accepted")
	if err == nil {
		sym.Assert(same{}.stmt(got, &d.want), "the table as declared")
	}
}

func newDecl() (*decl, string) {
	d := &decl{}
	t, tn := "qt1", types.TableName{Table: id("qt1")}
	if sym.Param("qualified", 0) == 1 {
		t, tn = table("name", "qt1")
		if yes("ifnot") {
			d.want.IfNotExists = true
			t = "IF NOT EXISTS " + t
		}
	}
	d.want.Table = tn
	return d, "CREATE TABLE " + t
}

// Types: columns of every type, followed by any one constraint or another
// column.
func Types() {
	d, head := newDecl()
	d.column("a", "qc0", choose("type", len(colTypes)), 1)
	if yes("second") {
		d.add(",")
		d.column("b", "qc1", choose("type2", len(colTypes)), 0)
	}
	d.check(head)
}

// Constraints: a column with several constraints.
func Constraints() {
	d, head := newDecl()
	d.column("a", "qc0", 7, sym.Param("opts", 2))
	if sym.Param("second", 0) == 1 {
		d.add(",")
		d.column("b", "qc1", 16, 1)
	}
	d.check(head)
}

// Keys: several table constraints, and columns before, between and after.
func Keys() {
	d, head := newDecl()
	n := sym.Param("items", 2)
	kinds := sym.Param("kinds", 4)
	at := choose("at", n+1)
	for i := 0; i <= n; i++ {
		if i > 0 {
			d.add(",")
		}
		if i == at {
			d.column("a", "qc0", 16, sym.Param("opts", 1))
		} else {
			d.constraint("c"+num(i), choose("kind"+num(i), kinds))
		}
	}
	if yes("last") {
		d.add(",")
		d.column("z", "qc1", 8, 0)
	}
	d.check(head)
}

// Columns: lists of columns, some repeated.
func Columns() {
	d, head := newDecl()
	n := sym.Param("cols", 3)
	for i := 0; i < n; i++ {
		if i > 0 {
			d.add(",")
		}
		d.column("c"+num(i), "qc"+num(choose("name"+num(i), 3)), choose("type"+num(i), sym.Param("types", 3))*8, 0)
	}
	d.check(head)
}

// Lengths: the length of a column is the number written, and has to be in
// range.
func Lengths() {
	d, head := newDecl()
	k := choose("type", len(colTypes))
	d.column("a", "qc0", k, 0)
	// Short lengths, and those near the limits.
	text := ""
	if c := choose("prefix", 5); c > 0 {
		text = []string{"0", "429496", "4294967", "922337203685477580"}[c-1]
		sym.Assume(k == 7 || k == 8) // the digits do not depend on the type
	}
	n := 1 + choose("digits", sym.Param("digits", 3))
	val := uint64(0)
	for i := 0; i < len(text); i++ {
		val = val*10 + uint64(text[i]-'0')
	}
	big := len(text)+n > 19 // out of range, whatever the digits
	for i := 0; i < n; i++ {
		b := digit("n" + num(i))
		val = val*10 + uint64(b-'0')
		text += string([]byte{b})
	}
	d.add("(" + text + ")")
	d.bad = !colTypes[k].sized
	if big || val > maxSize {
		d.bad = true
	} else {
		d.want.ColumnTypes[0].Size = uint32(val)
	}
	if yes("notnull") {
		d.add("NOT NULL")
		d.want.ColumnTypes[0].NotNull = true
	}
	d.check(head)
}

// NotLengths: anything but a number in range is no length.
func NotLengths() {
	d, head := newDecl()
	k := choose("type", len(colTypes))
	d.column("a", "qc0", k, 0)
	x := digit("x")
	sym.Assume(x != '0')
	s := string([]byte{x})
	d.add([]string{"(-" + s + ")", "(- " + s + ")", "(" + s + ".5)", "(" + s + "e1)", "('" + s + "')", "(q" + s + ")", "()", "(" + s, "(" + s + ", " + s + ")", "(" + s + " + 1)",
		"(1844674407370955161" + s + ")", "(9223372036854775807)", "(429496729" + s + "0)"}[choose("form", 13)])
	d.bad = true
	d.check(head)
}
