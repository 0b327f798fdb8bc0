package parse

import (
	"io"
	"strings"

	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/sym"
)

// build collects a statement text.
type build struct {
	parts []string
	bad   bool
}

func (b *build) add(s ...string) { b.parts = append(b.parts, s...) }

func (b *build) text() string { return strings.Join(b.parts, " ") }

// check parses the text and compares.
func (b *build) check(want sql.Stmt) {
	got, err := one(b.text())
	sym.Reach("parsed")
	if b.bad {
		sym.Reach("rejected")
		sym.Assert(err != nil, "the statement is rejected")
		return
	}
	sym.Assert(err == nil, "the statement is accepted")
	if err == nil {
		sym.Assert(same{}.stmt(got, want), "the statement as written")
		if sym.Param("round", 0) == 1 {
			again(got)
		}
	}
}

// again prints a statement and parses it again.
func again(s sql.Stmt) {
	t := s.String()
	got, err := one(t)
	sym.Reach("printed")
	sym.Assert(err == nil, "the printed statement is accepted")
	if err == nil {
		sym.Assert(same{noParens: true}.stmt(got, s), "the printed statement is the same")
	}
}

// againExpr prints an expression and parses it again.
func againExpr(e sql.Expr) {
	t := e.String()
	got, err := expr(t)
	sym.Reach("printed")
	sym.Assert(err == nil, "the printed expression is accepted")
	if err == nil {
		sym.Assert(same{noParens: true}.expr(got, e), "the printed expression is the same")
	}
}

func ref(ss ...string) sql.Ref { return sql.Ref(ids(ss...)) }

// condition is an expression where a clause has one.
func condition(nm string, n int) (string, sql.Expr) {
	k := choose(nm, n)
	d := digit(nm + ".d")
	lit := sql.Literal{types.Int64Value(d - '0')}
	ds := string([]byte{d})
	switch k {
	case 0:
		return "qc1 > " + ds, &sql.BinaryExpr{Op: sql.GreaterThanOp, Left: ref("qc1"), Right: lit}
	case 1:
		return "qt1.qc1", ref("qt1", "qc1")
	case 2:
		return "qc1 IS NULL", &sql.SExpr{Name: id("is_null"), Args: []sql.Expr{ref("qc1")}}
	case 3:
		return "qc1 IN (SELECT * FROM qt9)", &sql.Subquery{Op: sql.Any, ExprOp: sql.EqualOp, Expr: ref("qc1"),
			Stmt: &sql.Select{From: &sql.FromTableAlias{TableName: types.TableName{Table: id("qt9")}}}}
	case 4:
		return "NOT EXISTS (VALUES (" + ds + "))", &sql.UnaryExpr{Op: sql.NotOp, Expr: &sql.Subquery{Op: sql.Exists, Stmt: &sql.Values{Expressions: [][]sql.Expr{{lit}}}}}
	case 5:
		return "qf(" + ds + ", qc1)", &sql.SExpr{Name: id("qf"), Args: []sql.Expr{lit, ref("qc1")}}
	}
	return "(qc1 = " + ds + " OR NULL)", &sql.UnaryExpr{Op: sql.NoOp, Expr: &sql.BinaryExpr{Op: sql.OrOp,
		Left: &sql.BinaryExpr{Op: sql.EqualOp, Left: ref("qc1"), Right: lit}, Right: sql.Literal{nil}}}
}

// alias is an optional alias.
func alias(nm, name string, need bool) (string, types.Identifier) {
	n := 3
	if need {
		n = 2
	}
	switch choose(nm, n) {
	case 0:
		return " AS " + name, id(name)
	case 1:
		return " " + name, id(name)
	}
	return "", 0
}

const resultKinds = 14

// result is one item of a select list.
func result(nm string, kinds int) (string, sql.SelectResult) {
	k := choose(nm, kinds)
	if k == 0 {
		return "qt1.*", sql.TableResult{Table: id("qt1")}
	}
	d := digit(nm + ".d")
	lit := sql.Literal{types.Int64Value(d - '0')}
	ds := string([]byte{d})
	var t string
	var e sql.Expr
	switch k {
	case 1:
		t, e = "qc1", ref("qc1")
	case 2:
		t, e = "qt1.qc1", ref("qt1", "qc1")
	case 3:
		t, e = "qc1 * "+ds, &sql.BinaryExpr{Op: sql.MultiplyOp, Left: ref("qc1"), Right: lit}
	case 4:
		t, e = "COUNT(*)", &sql.SExpr{Name: types.COUNT_ALL}
	case 5:
		t, e = "qf(qc1, "+ds+")", &sql.SExpr{Name: id("qf"), Args: []sql.Expr{ref("qc1"), lit}}
	case 6:
		t, e = "'"+ds+"'", sql.Literal{types.StringValue(ds)}
	case 7:
		t, e = "(SELECT qc1 qa7, qt1.* FROM qt1)", &sql.Subquery{Op: sql.Scalar, Stmt: &sql.Select{
			Results: []sql.SelectResult{sql.ExprResult{Expr: ref("qc1"), Alias: id("qa7")}, sql.TableResult{Table: id("qt1")}},
			From:    &sql.FromTableAlias{TableName: types.TableName{Table: id("qt1")}}}}
	case 8:
		t, e = "qs1.qt1.qc1", ref("qs1", "qt1", "qc1")
	case 9:
		t, e = "NULL", sql.Literal{nil}
	case 10:
		t, e = "- qc1 + -"+ds, &sql.BinaryExpr{Op: sql.AddOp, Left: &sql.UnaryExpr{Op: sql.NegateOp, Expr: ref("qc1")}, Right: sql.Literal{types.Int64Value(-(int64(d) - '0'))}}
	case 11:
		t, e = "qf()", &sql.SExpr{Name: id("qf")}
	case 12:
		t, e = "NOT qt1.qc1", &sql.UnaryExpr{Op: sql.NotOp, Expr: ref("qt1", "qc1")}
	default:
		t, e = "qt1.qc1 = ANY (SHOW qv)", &sql.Subquery{Op: sql.Any, ExprOp: sql.EqualOp, Expr: ref("qt1", "qc1"), Stmt: &sql.Show{Variable: id("qv")}}
	}
	a, al := alias(nm+".as", "qa1", false)
	return t + a, sql.ExprResult{Expr: e, Alias: al}
}

// source is one table of a FROM clause.
func source(nm string, kinds int) (string, sql.FromItem) {
	k := choose(nm, kinds)
	switch k {
	case 0:
		return "qt1", &sql.FromTableAlias{TableName: types.TableName{Table: id("qt1")}}
	case 1:
		t, tn := table(nm, "qt1")
		a, al := alias(nm+".as", "qa1", false)
		return t + a, &sql.FromTableAlias{TableName: tn, Alias: al}
	case 2:
		t, tn := table(nm, "qt1")
		a, al := alias(nm+".as", "qa1", false)
		return t + "@qi1" + a, &sql.FromIndexAlias{TableName: tn, Index: id("qi1"), Alias: al}
	}
	d := digit(nm + ".d")
	fs := sql.FromStmt{}
	t := ""
	switch choose(nm+".q", 4) {
	case 0:
		t, fs.Stmt = "(SELECT qc1 FROM qt1 WHERE TRUE)", &sql.Select{Results: []sql.SelectResult{sql.ExprResult{Expr: ref("qc1")}},
			From: &sql.FromTableAlias{TableName: types.TableName{Table: id("qt1")}}, Where: sql.Literal{types.BoolValue(true)}}
	case 1:
		t, fs.Stmt = "(VALUES ("+string([]byte{d})+", NULL))", &sql.Values{Expressions: [][]sql.Expr{{sql.Literal{types.Int64Value(d - '0')}, sql.Literal{nil}}}}
	case 2:
		t, fs.Stmt = "(SHOW SCHEMA)", &sql.Show{Variable: types.SCHEMA}
	default:
		s, tn := table(nm, "qt1")
		t, fs.Stmt = "(TABLE "+s+")", &sql.Select{From: &sql.FromTableAlias{TableName: tn}}
	}
	a, al := alias(nm+".as", "qa1", true)
	t += a
	fs.Alias = al
	switch choose(nm+".cols", 3) {
	case 1:
		t += " (qx)"
		fs.ColumnAliases = ids("qx")
	case 2:
		t += " (qx, qy)"
		fs.ColumnAliases = ids("qx", "qy")
	}
	return t, fs
}

var joins = []struct {
	text string
	typ  sql.JoinType
}{
	{"JOIN", sql.Join}, {"CROSS JOIN", sql.CrossJoin}, {"LEFT JOIN", sql.LeftJoin}, {"RIGHT OUTER JOIN", sql.RightJoin}, {"FULL JOIN", sql.FullJoin},
	{"INNER JOIN", sql.Join}, {"LEFT OUTER JOIN", sql.LeftJoin}, {"RIGHT JOIN", sql.RightJoin}, {"FULL OUTER JOIN", sql.FullJoin},
}

// joined is a table with joins.
func (b *build) joined(nm string, n, kinds int) (string, sql.FromItem) {
	t, fi := source(nm, kinds)
	for i := 0; i < n && yes(nm+".join"+num(i)); i++ {
		m := nm + num(i)
		j := joins[choose(m+".type", sym.Param("joins", len(joins)))]
		rt, right := "", sql.FromItem(nil)
		if choose(m+".right", sym.Param("paren", 1)) == 0 {
			rt, right = source(m, kinds)
		} else {
			x, xi := source(m+".l", kinds)
			y, yi := source(m+".r", kinds)
			rt, right = "("+x+", "+y+")", sql.FromJoin{Left: xi, Right: yi, Type: sql.CrossJoin}
		}
		fj := sql.FromJoin{Left: fi, Right: right, Type: j.typ}
		t += " " + j.text + " " + rt
		switch choose(m+".on", 5) {
		case 0:
			b.bad = b.bad || j.typ != sql.CrossJoin
			if j.typ != sql.CrossJoin {
				return t, fj // what follows may be its condition
			}
		case 1:
			c, e := condition(m+".cond", sym.Param("exprs", 1))
			t += " ON " + c
			fj.On = e
		case 2:
			t += " USING (qu1)"
			fj.Using = ids("qu1")
		case 3:
			t += " USING (qu1, qu2)"
			fj.Using = ids("qu1", "qu2")
		default:
			t += " USING (qu1, " + []string{"qu1)", "qu2) ON qu1 = 1", "qu2, qu1)", ")"}[choose(m+".using", 4)]
			b.bad = true
		}
		if j.typ == sql.CrossJoin && (fj.On != nil || fj.Using != nil) {
			b.bad = true
		}
		fi = fj
	}
	if n > 0 && sym.Param("paren", 1) > 1 && yes(nm+".all") {
		t = "(" + t + ")"
	}
	return t, fi
}

// from is a FROM clause.
func (b *build) from(nm string) sql.FromItem {
	n, kinds := sym.Param("joinsn", 1), sym.Param("sources", 4)
	t, fi := b.joined(nm+"0", n, kinds)
	for i := 1; i < sym.Param("items", 1) && yes(nm+".more"); i++ {
		x, xi := b.joined(nm+num(i), n, kinds)
		t += ", " + x
		fi = sql.FromJoin{Left: fi, Right: xi, Type: sql.CrossJoin}
	}
	b.add("FROM", t)
	return fi
}

// clauses are those after FROM.
func (b *build) clauses(s *sql.Select) {
	n := sym.Param("exprs", 2)
	list := sym.Param("list", 2)
	if yes("where") {
		t, e := condition("where.e", n)
		b.add("WHERE", t)
		s.Where = e
	}
	if yes("group") {
		for i := 0; i == 0 || i < list && yes("group.more"+num(i)); i++ {
			t, e := condition("group.e"+num(i), n)
			b.add([]string{"GROUP BY", ","}[min1(i)], t)
			s.GroupBy = append(s.GroupBy, e)
		}
	}
	if yes("having") {
		t, e := condition("having.e", n)
		b.add("HAVING", t)
		s.Having = e
	}
	if yes("order") {
		for i := 0; i == 0 || i < list && yes("order.more"+num(i)); i++ {
			c := "qo" + num(i)
			b.add([]string{"ORDER BY", ","}[min1(i)], c)
			k := choose("order.dir"+num(i), 3)
			if k > 0 {
				b.add([]string{"ASC", "DESC"}[k-1])
			}
			s.OrderBy = append(s.OrderBy, sql.OrderBy{Expr: ref(c), Reverse: k == 2})
		}
	}
}

func min1(i int) int {
	if i > 0 {
		return 1
	}
	return 0
}

// Results: select lists.
func Results() {
	b := &build{}
	var s sql.Select
	b.add("SELECT")
	if yes("star") {
		b.add("*")
	} else {
		n := sym.Param("results", 2)
		for i := 0; i == 0 || i < n && yes("more"+num(i)); i++ {
			t, r := result("r"+num(i), resultKinds)
			if i > 0 {
				b.add(",")
			}
			b.add(t)
			s.Results = append(s.Results, r)
		}
	}
	switch choose("then", 4) {
	case 0:
		b.add("FROM qt1")
		s.From = &sql.FromTableAlias{TableName: types.TableName{Table: id("qt1")}}
	case 1:
		b.add("WHERE TRUE")
		s.Where = sql.Literal{types.BoolValue(true)}
	case 2:
		b.add("GROUP BY qc1")
		s.GroupBy = []sql.Expr{ref("qc1")}
	}
	b.check(&s)
}

// From: FROM clauses.
func From() {
	b := &build{}
	var s sql.Select
	b.add("SELECT *")
	s.From = b.from("f")
	if yes("then") {
		b.add("WHERE FALSE")
		s.Where = sql.Literal{types.BoolValue(false)}
	}
	b.check(&s)
}

// Clauses: which clauses there are, and what is in them.
func Clauses() {
	b := &build{}
	var s sql.Select
	explain := choose("explain", 3)
	if explain > 0 {
		b.add([]string{"EXPLAIN", "EXPLAIN VERBOSE"}[explain-1])
	}
	b.add("SELECT *")
	if yes("from") {
		t, fi := source("f", 1)
		b.add("FROM", t)
		s.From = fi
	}
	b.clauses(&s)
	if explain > 0 {
		b.check(&sql.Explain{Stmt: &s, Verbose: explain == 2})
		return
	}
	b.check(&s)
}

// cell is a value of a row, nil for DEFAULT.
func cell(nm string, dflt bool) (string, sql.Expr) {
	n := sym.Param("cells", 4)
	if dflt {
		n++
	}
	d := digit(nm + ".d")
	ds := string([]byte{d})
	switch choose(nm, n) {
	case 0:
		return ds, sql.Literal{types.Int64Value(d - '0')}
	case 1:
		return "'" + ds + "'", sql.Literal{types.StringValue(ds)}
	case 2:
		return "NULL", sql.Literal{nil}
	case 3:
		return "(1 + " + ds + ") * 2", &sql.BinaryExpr{Op: sql.MultiplyOp, Left: &sql.UnaryExpr{Op: sql.NoOp, Expr: &sql.BinaryExpr{Op: sql.AddOp,
			Left: sql.Literal{types.Int64Value(1)}, Right: sql.Literal{types.Int64Value(d - '0')}}}, Right: sql.Literal{types.Int64Value(2)}}
	}
	return "DEFAULT", nil
}

// row is a row of values.
func row(nm string, dflt bool) (string, []sql.Expr) {
	var out []sql.Expr
	t := "("
	for i := 0; i == 0 || i < sym.Param("width", 2) && yes(nm+".more"+num(i)); i++ {
		c, e := cell(nm+"."+num(i), dflt)
		if i > 0 {
			t += ", "
		}
		t += c
		out = append(out, e)
	}
	return t + ")", out
}

func rows(nm string, dflt bool, add func(...string)) [][]sql.Expr {
	var out [][]sql.Expr
	for i := 0; i == 0 || i < sym.Param("rows", 2) && yes(nm+".more"+num(i)); i++ {
		t, r := row(nm+num(i), dflt)
		if i > 0 {
			add(",")
		}
		add(t)
		out = append(out, r)
	}
	return out
}

// Values: VALUES alone, and as subquery.
func Values() {
	b := &build{}
	b.add("VALUES")
	var s sql.Values
	s.Expressions = rows("r", false, b.add)
	for _, r := range s.Expressions {
		b.bad = b.bad || len(r) != len(s.Expressions[0])
	}
	b.check(&s)
}

// columns is a list of columns in parentheses.
func (b *build) columns(nm string, n int) []types.Identifier {
	var out []types.Identifier
	t := "("
	for i := 0; i == 0 || i < n && yes(nm+".more"+num(i)); i++ {
		c := "qc" + num(choose(nm+num(i), n))
		for _, o := range out {
			b.bad = b.bad || o == id(c)
		}
		if i > 0 {
			t += ", "
		}
		t += c
		out = append(out, id(c))
	}
	b.add(t + ")")
	return out
}

// Insert: INSERT statements.
func Insert() {
	b := &build{}
	var s sql.InsertValues
	t, tn := table("t", "qt1")
	s.Table = tn
	b.add("INSERT INTO", t)
	if yes("cols") {
		s.Columns = b.columns("c", sym.Param("cols", 2))
	}
	b.add("VALUES")
	s.Rows = rows("r", true, b.add)
	b.check(&s)
}

// Update: UPDATE statements.
func Update() {
	b := &build{}
	var s sql.Update
	t, tn := table("t", "qt1")
	s.Table = tn
	b.add("UPDATE", t, "SET")
	for i := 0; i == 0 || i < sym.Param("sets", 3) && yes("more"+num(i)); i++ {
		c, e := cell("e"+num(i), true)
		if i > 0 {
			b.add(",")
		}
		b.add("qc"+num(i), "=", c)
		s.ColumnUpdates = append(s.ColumnUpdates, sql.ColumnUpdate{Column: id("qc" + num(i)), Expr: e})
	}
	if yes("where") {
		t, e := condition("where.e", sym.Param("exprs", 7))
		b.add("WHERE", t)
		s.Where = e
	}
	b.check(&s)
}

// Delete: DELETE statements.
func Delete() {
	b := &build{}
	var s sql.Delete
	t, tn := table("t", "qt1")
	s.Table = tn
	b.add("DELETE FROM", t)
	if yes("where") {
		t, e := condition("where.e", sym.Param("exprs", 7))
		b.add("WHERE", t)
		s.Where = e
	}
	b.check(&s)
}

// Copy: COPY statements and the rows after them.
func Copy() {
	b := &build{}
	var s sql.Copy
	t, tn := table("t", "qt1")
	s.Table = tn
	b.add("COPY", t)
	if yes("cols") {
		s.Columns = b.columns("c", sym.Param("cols", 3))
	}
	b.add("FROM STDIN")
	s.Delimiter = '\t'
	if yes("delim") {
		d := sym.String("delimiter", pick("length", 4))
		for i := 0; i < len(d); i++ {
			sym.Assume(d[i] < 0x80)
			sym.Assume(d[i] != '\'')
		}
		b.add("DELIMITER '" + d + "'")
		if len(d) != 1 {
			b.bad = true
		} else {
			s.Delimiter = rune(d[0])
		}
	}
	p := parser.NewParser(strings.NewReader(b.text()+";\nab\n"), "text")
	got, err := p.Parse()
	sym.Reach("parsed")
	if b.bad {
		sym.Reach("rejected")
		sym.Assert(err != nil, "the statement is rejected")
		return
	}
	sym.Assert(err == nil, "the statement is accepted")
	if err != nil {
		return
	}
	sym.Assert(same{}.stmt(got, &s), "the statement as written")
	if sym.Param("round", 0) == 1 {
		again(got)
	}
	from := got.(*sql.Copy).From
	for _, want := range "ab\n" {
		r, _, err := from.ReadRune()
		sym.Assert(err == nil && r == want, "the rows follow the statement")
	}
	_, _, err = from.ReadRune()
	sym.Assert(err == io.EOF, "the rows end with the text")
}
