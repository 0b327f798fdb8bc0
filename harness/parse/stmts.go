package parse

import (
	"strings"

	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/sym"
)

// value is a constant given to a setting or an option.
func value(nm string, names bool) (string, string) {
	d := digit(nm + ".d")
	sym.Assume(d != '0')
	c := letter(nm + ".c")
	n := 6
	if names {
		n = 5
	}
	switch choose(nm, n) {
	case 0:
		// Any characters.
		var t, v []byte
		n := pick(nm+".len", 3)
		for i := 0; i < n; i++ {
			b := sym.Byte(nm + "." + num(i))
			sym.Assume(b < 0x80)
			if b == '\'' {
				t = append(t, '\'')
				b = '\''
			}
			t, v = append(t, b), append(v, b)
		}
		return "'" + string(t) + "'", string(v)
	case 1:
		return string([]byte{d, '7'}), string([]byte{d, '7'})
	case 2:
		return "1.5", "1.5"
	case 3:
		return "'" + string([]byte{c, ' ', d}) + "'", string([]byte{c, ' ', d})
	case 4:
		if names {
			return "qn", "qn"
		}
		return "TRUE", "true"
	}
	return "-" + string([]byte{d}), "-" + string([]byte{d})
}

// Settings: SET, USE and SHOW of a setting.
func Settings() {
	b := &build{}
	var want sql.Stmt
	switch choose("stmt", 3) {
	case 0:
		b.add("SET")
		s := &sql.Set{}
		switch choose("variable", 3) {
		case 0:
			b.add("qv")
			s.Variable = id("qv")
		case 1:
			b.add("DATABASE")
			s.Variable = types.DATABASE
		default:
			b.add("SCHEMA")
			s.Variable = types.SCHEMA
		}
		b.add([]string{"TO", "=", ""}[choose("to", 3)])
		b.bad = b.parts[len(b.parts)-1] == ""
		t, v := value("v", false)
		b.add(t)
		s.Value = v
		want = s
	case 1:
		t, v := value("v", false)
		b.add("USE", t)
		want = &sql.Set{Variable: types.DATABASE, Value: v}
	default:
		k := choose("show", 3)
		b.add("SHOW", []string{"qv", "DATABASE", "SCHEMA"}[k])
		want = &sql.Show{Variable: []types.Identifier{id("qv"), types.DATABASE, types.SCHEMA}[k]}
	}
	switch choose("end", 4) {
	case 1:
		b.add("1")
		b.bad = true
	case 2:
		b.add("qz")
		b.bad = true
	case 3:
		b.add("TO")
		b.bad = true
	}
	b.check(want)
}

// NotSettings: only constants are values of settings.
func NotSettings() {
	b := &build{bad: true}
	b.add([]string{"SET qv TO", "SET DATABASE =", "USE"}[choose("stmt", 3)])
	b.add([]string{"NULL", "1 + 1", "DEFAULT", "", "qf(1)", "'a' || 'b'", "(SELECT 1)", "- qx"}[choose("value", 8)])
	b.check(nil)
}

// Transactions: BEGIN, START TRANSACTION, COMMIT and ROLLBACK.
func Transactions() {
	b := &build{}
	k := choose("stmt", 5)
	b.add([]string{"BEGIN", "START TRANSACTION", "COMMIT", "ROLLBACK", "START"}[k])
	b.bad = k == 4
	if e := choose("end", 4); e > 0 {
		b.add([]string{"1", "qz", "BEGIN"}[e-1])
		b.bad = true
	}
	b.check([]sql.Stmt{&sql.Begin{}, &sql.Begin{}, &sql.Commit{}, &sql.Rollback{}, nil}[k])
}

func eq(name string, e sql.Expr) sql.Expr {
	return &sql.BinaryExpr{Op: sql.EqualOp, Left: ref(name), Right: e}
}

func text(s string) sql.Expr { return sql.Literal{types.StringValue(s)} }

// Shows: SHOW of what there is reads the tables which describe it.
func Shows() {
	b := &build{}
	var s sql.Select
	from := func(db, schema, table types.Identifier) {
		s.From = &sql.FromTableAlias{TableName: types.TableName{Database: db, Schema: schema, Table: table}}
	}
	current := &sql.Subquery{Op: sql.Scalar, Stmt: &sql.Show{Variable: types.SCHEMA}}
	k := choose("show", 6)
	if k == 2 && sym.Param("round", 0) == 1 {
		sym.Stop() // has a column whose name needs quotes
	}
	switch k {
	case 0, 1:
		b.add("SHOW", []string{"COLUMNS", "CONSTRAINTS"}[k], "FROM")
		t, tn := table("t", "qt1")
		b.add(t)
		schema := eq("schema_name", current)
		if tn.Schema != 0 {
			schema = eq("schema_name", text("qs1"))
		}
		from(tn.Database, types.METADATA, []types.Identifier{types.COLUMNS, types.CONSTRAINTS}[k])
		s.Where = &sql.BinaryExpr{Op: sql.AndOp, Left: eq("table_name", text("qt1")), Right: schema}
	case 2:
		b.add("SHOW CONFIG")
		from(types.SYSTEM, types.INFO, types.CONFIG)
		for _, c := range []string{"name", "value", "by"} {
			s.Results = append(s.Results, sql.ExprResult{Expr: ref(c)})
		}
		s.Where = eq("hidden", sql.Literal{types.BoolValue(false)})
	case 3:
		b.add("SHOW DATABASES")
		from(types.SYSTEM, types.INFO, types.DATABASES)
	case 4:
		b.add("SHOW SCHEMAS")
		var db types.Identifier
		if yes("from") {
			b.add("FROM qd1")
			db = id("qd1")
		}
		from(db, types.METADATA, types.SCHEMAS)
	default:
		b.add("SHOW TABLES")
		var db types.Identifier
		s.Where = eq("schema_name", current)
		switch choose("from", 3) {
		case 1:
			b.add("FROM qs1")
			s.Where = eq("schema_name", text("qs1"))
		case 2:
			b.add("FROM qd1.qs1")
			s.Where = eq("schema_name", text("qs1"))
			db = id("qd1")
		}
		from(db, types.METADATA, types.TABLES)
	}
	if e := choose("end", 4); e > 0 {
		b.add([]string{"1", "TO", ", qz"}[e-1])
		b.bad = true
	}
	b.check(&s)
}

// schema is a schema name with or without its database.
func schema(nm string) (string, types.SchemaName) {
	if yes(nm + ".qualified") {
		return "qd1.qs1", types.SchemaName{Database: id("qd1"), Schema: id("qs1")}
	}
	return "qs1", types.SchemaName{Schema: id("qs1")}
}

// Databases: CREATE and DROP of databases and schemas.
func Databases() {
	b := &build{}
	var want sql.Stmt
	switch choose("stmt", 4) {
	case 0:
		s := &sql.CreateDatabase{Database: id("qd1")}
		b.add("CREATE DATABASE qd1")
		if sym.Param("round", 0) == 0 && yes("with") { // options print without quotes
			b.add("WITH")
			s.Options = map[types.Identifier]string{}
			for i := 0; i == 0 || i < sym.Param("options", 2) && yes("more"+num(i)); i++ {
				t, v := value("v"+num(i), true)
				b.add("qo" + num(i))
				if yes("eq" + num(i)) {
					b.add("=")
				}
				b.add(t)
				s.Options[id("qo"+num(i))] = v
			}
		}
		want = s
	case 1:
		s := &sql.DropDatabase{Database: id("qd1")}
		b.add("DROP DATABASE")
		if yes("if") {
			b.add("IF EXISTS")
			s.IfExists = true
		}
		b.add("qd1")
		want = s
	case 2:
		t, sn := schema("s")
		b.add("CREATE SCHEMA", t)
		want = &sql.CreateSchema{Schema: sn}
	default:
		s := &sql.DropSchema{}
		b.add("DROP SCHEMA")
		if yes("if") {
			b.add("IF EXISTS")
			s.IfExists = true
		}
		t, sn := schema("s")
		b.add(t)
		s.Schema = sn
		want = s
	}
	if e := choose("end", 5); e > 0 {
		b.add([]string{"1", "CASCADE", ". 1", ", qz"}[e-1])
		b.bad = true
	}
	if c, ok := want.(*sql.CreateDatabase); ok && b.bad && c.Options != nil {
		sym.Assume(false) // could be another option
	}
	b.check(want)
}

// Drops: DROP TABLE and DROP INDEX.
func Drops() {
	b := &build{}
	var want sql.Stmt
	if yes("index") {
		s := &sql.DropIndex{Index: id("qi1")}
		b.add("DROP INDEX")
		if yes("if") {
			b.add("IF EXISTS")
			s.IfExists = true
		}
		t, tn := table("t", "qt1")
		b.add("qi1 ON", t)
		s.Table = tn
		want = s
	} else {
		s := &sql.DropTable{}
		b.add("DROP TABLE")
		if yes("if") {
			b.add("IF EXISTS")
			s.IfExists = true
		}
		for i := 0; i == 0 || i < sym.Param("tables", 3) && yes("more"+num(i)); i++ {
			t, tn := table("t"+num(i), "qt"+num(i))
			if i > 0 {
				b.add(",")
			}
			b.add(t)
			s.Tables = append(s.Tables, tn)
		}
		switch choose("how", 3) {
		case 1:
			b.add("CASCADE")
			s.Cascade = true
		case 2:
			b.add("RESTRICT")
		}
		want = s
	}
	if e := choose("end", 4); e > 0 {
		b.add([]string{"1", "qz", ","}[e-1])
		b.bad = true
	}
	b.check(want)
}

// Index: CREATE INDEX.
func Index() {
	b := &build{}
	s := &sql.CreateIndex{Index: id("qi1")}
	b.add("CREATE")
	if yes("unique") {
		b.add("UNIQUE")
		s.Key.Unique = true
	}
	b.add("INDEX")
	if yes("if") {
		b.add("IF NOT EXISTS")
		s.IfNotExists = true
	}
	t, tn := table("t", "qt1")
	b.add("qi1 ON", t)
	s.Table = tn
	switch choose("using", 3) {
	case 1:
		b.add("USING BTREE")
	case 2:
		b.add("USING qhash")
		b.bad = true
	}
	s.Key.Columns, s.Key.Reverse = keyColumns("k", b.add)
	for i, c := range s.Key.Columns {
		for _, o := range s.Key.Columns[:i] {
			b.bad = b.bad || o == c
		}
	}
	b.check(s)
}

// Alter: ALTER TABLE with several actions.
func Alter() {
	b := &build{}
	s := &sql.AlterTable{}
	t, tn := table("t", "qt1")
	b.add("ALTER TABLE", t)
	s.Table = tn
	n := sym.Param("acts", 2)
	for i := 0; i == 0 || i < n && yes("more"+num(i)); i++ {
		if i > 0 {
			b.add(",")
		}
		nm := "a" + num(i)
		switch choose(nm, 4) {
		case 0:
			fk := &sql.ForeignKey{}
			b.add("ADD")
			if sym.Param("round", 0) == 1 || yes(nm+".named") { // unnamed keys print an empty name
				b.add("CONSTRAINT qk1")
				fk.Name = id("qk1")
			}
			foreign(nm, fk, b.add)
			if onActions(nm, fk, b.add) {
				b.bad = true
			}
			s.Actions = append(s.Actions, &sql.AddForeignKey{ForeignKey: *fk})
		case 1:
			dc := &sql.DropConstraint{Name: id("qk2")}
			b.add("DROP CONSTRAINT")
			if yes(nm + ".if") {
				b.add("IF EXISTS")
				dc.IfExists = true
			}
			b.add("qk2")
			s.Actions = append(s.Actions, dc)
		default:
			dc := &sql.DropConstraint{Column: id("qc" + num(i))}
			b.add("ALTER")
			if yes(nm + ".column") {
				b.add("COLUMN")
			}
			b.add("qc"+num(i), "DROP")
			if yes(nm + ".null") {
				b.add("NOT NULL")
				dc.Type = sql.NotNullConstraint
			} else {
				b.add("DEFAULT")
				dc.Type = sql.DefaultConstraint
			}
			s.Actions = append(s.Actions, dc)
		}
	}
	if e := choose("end", 4); e > 0 {
		b.add([]string{"1", "qz", ","}[e-1])
		b.bad = true
	}
	b.check(s)
}

// The statements of a sequence: those which stand for every kind, and some
// which fail at their first, middle or last token.
var sequence = []string{
	"BEGIN", "", "$X", "COMMIT 1", "SELECT * FROM qt1 AS", "VALUES (1, 'a;b')", "SELECT qc1 -- ; c\n FROM qt1", "UPDATE qt1 SET qc1 = ", "qx", "DROP TABLE IF EXISTS qt1 CASCADE",
	"CREATE TABLE qt1 (qc1 INT qc2)", "SELECT ( 1", "INSERT INTO qt1 VALUES (1, DEFAULT)", "DELETE FROM qt1 WHERE qc1 = 1 OR", "SHOW SCHEMAS", "SELECT 1 /* ; */ + qc1 qa1",
	"SELECT qt1.* , qt1 . ", "CREATE TABLE qt1 (qc1 VARCHAR(9))", "EXPLAIN SELECT 2", "SELECT qc1 NOT", "SET qv = ", "START 1", ")", "1 2 3",
	"SELECT e'\\q' , 2", "SELECT 99999999999999999999 , 3", "@", "SELECT 1 # 2 , 3", "DROP DATABASE qd1 ! qd2 qd3", "VALUES (1), (2, 3), (4)",
}

// outcome is what a statement standing alone gives.
func outcome(text string) (sql.Stmt, bool) {
	p := parser.NewParser(strings.NewReader(text+";"), "text")
	stmt, err := p.Parse()
	return stmt, err == nil
}

// Sequence: every statement of a text is parsed as if it stood alone.
func Sequence() {
	n := sym.Param("n", 3)
	k := sym.Param("menu", len(sequence))
	var texts []string
	for i := 0; i < n; i++ {
		t := sequence[choose("stmt"+num(i), k)]
		if t == "$X" {
			t = "SELECT " + string([]byte{digit("d" + num(i))})
		}
		texts = append(texts, t)
	}
	text := strings.Join(texts, ";")
	if sym.Param("end", 0) == 1 {
		text += []string{"", ";", " ; ;"}[choose("end", 3)]
	} else {
		text += "; COMMIT;"
		texts = append(texts, "COMMIT")
	}
	p := parser.NewParser(strings.NewReader(text), "text")
	var gots, wants []sql.Stmt
	for _, t := range texts {
		want, ok := outcome(t)
		if strings.Trim(t, " ") == "" {
			continue // nothing
		}
		got, err := p.Parse()
		for i := 0; i < n && got == nil && err == nil; i++ {
			got, err = p.Parse() // of an empty statement
		}
		sym.Assert((err == nil) == ok, "accepted or rejected as if it stood alone")
		if ok {
			sym.Assert(same{}.stmt(got, want), "the same statement as if it stood alone")
			gots, wants = append(gots, got), append(wants, want)
		} else {
			sym.Reach("rejected")
		}
	}
	last, err := p.Parse()
	for i := 0; i < n+2 && last == nil && err == nil; i++ {
		last, err = p.Parse() // of an empty statement
	}
	sym.Reach("parsed")
	sym.Assert(last == nil && err != nil && err.Error() == "EOF", "then the text ends")
	for i := range gots {
		sym.Assert(same{}.stmt(gots[i], wants[i]), "still the same statement when the rest is parsed")
	}
}
