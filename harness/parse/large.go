package parse

import (
	"io"
	"strconv"
	"strings"

	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/parser/scanner"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/parser/token"
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/sym"
)

// list is n items of a statement, one of which is symbolic: item i as text and
// its number.
type list struct {
	n, at int
	d     byte
}

func newList() *list {
	l := &list{n: sym.Param("n", 40)}
	l.at = choose("at", l.n)
	l.d = digit("d")
	return l
}

func (l *list) int(i int) (string, sql.Expr) {
	if i == l.at {
		return string([]byte{l.d}), sql.Literal{types.Int64Value(l.d - '0')}
	}
	return strconv.Itoa(i + 10), sql.Literal{types.Int64Value(i + 10)}
}

// name is qx<digit> for the symbolic item, otherwise different names.
func (l *list) name(i int) string {
	if i == l.at {
		return "qx" + string([]byte{l.d})
	}
	return "q" + strconv.Itoa(i)
}

const listKinds = 14

// Lists: statements with many items.
func Lists() {
	l := newList()
	b := &build{}
	comma := func(i int) {
		if i > 0 {
			b.add(",")
		}
	}
	switch kind := sym.Param("kind", 0) + choose("kind", sym.Param("kinds", listKinds)); kind {
	case 0:
		s := &sql.Select{}
		b.add("SELECT")
		for i := 0; i < l.n; i++ {
			comma(i)
			t, e := l.int(i)
			b.add(t)
			s.Results = append(s.Results, sql.ExprResult{Expr: e})
		}
		b.check(s)
	case 1:
		s := &sql.Select{}
		b.add("SELECT * GROUP BY")
		for i := 0; i < l.n; i++ {
			comma(i)
			b.add(l.name(i))
			s.GroupBy = append(s.GroupBy, ref(l.name(i)))
		}
		b.add("ORDER BY")
		for i := 0; i < l.n; i++ {
			comma(i)
			b.add(l.name(i))
			if i%3 > 0 {
				b.add([]string{"ASC", "DESC"}[i%3-1])
			}
			s.OrderBy = append(s.OrderBy, sql.OrderBy{Expr: ref(l.name(i)), Reverse: i%3 == 2})
		}
		b.check(s)
	case 2:
		s := &sql.Select{}
		b.add("SELECT * FROM")
		for i := 0; i < l.n; i++ {
			comma(i)
			b.add(l.name(i), "AS", "a"+l.name(i))
			fi := &sql.FromTableAlias{TableName: types.TableName{Table: id(l.name(i))}, Alias: id("a" + l.name(i))}
			if i == 0 {
				s.From = fi
			} else {
				s.From = sql.FromJoin{Left: s.From, Right: fi, Type: sql.CrossJoin}
			}
		}
		b.check(s)
	case 3:
		s := &sql.Select{}
		b.add("SELECT * FROM")
		for i := 0; i < l.n; i++ {
			if i > 0 {
				b.add("JOIN")
			}
			b.add(l.name(i))
			fi := &sql.FromTableAlias{TableName: types.TableName{Table: id(l.name(i))}}
			if i == 0 {
				s.From = fi
			} else {
				b.add("USING (", l.name(i), ")")
				s.From = sql.FromJoin{Left: s.From, Right: fi, Type: sql.Join, Using: ids(l.name(i))}
			}
		}
		b.check(s)
	case 4:
		s := &sql.Values{}
		b.add("VALUES")
		for i := 0; i < l.n; i++ {
			comma(i)
			t, e := l.int(i)
			b.add("( 1 ,", t, ", 'a' )")
			s.Expressions = append(s.Expressions, []sql.Expr{sql.Literal{types.Int64Value(1)}, e, text("a")})
		}
		b.check(s)
	case 5:
		s := &sql.InsertValues{Table: types.TableName{Table: id("qt1")}, Rows: [][]sql.Expr{nil, nil}}
		b.add("INSERT INTO qt1 (")
		for i := 0; i < l.n; i++ {
			comma(i)
			b.add(l.name(i))
			s.Columns = append(s.Columns, id(l.name(i)))
		}
		for r := 0; r < 2; r++ {
			b.add([]string{") VALUES (", ") , ("}[r])
			for i := 0; i < l.n; i++ {
				comma(i)
				t, e := l.int((i + r) % l.n)
				if (i+r)%5 == 4 {
					t, e = "DEFAULT", nil
				}
				b.add(t)
				s.Rows[r] = append(s.Rows[r], e)
			}
		}
		b.add(")")
		b.check(s)
	case 6:
		s := &sql.Update{Table: types.TableName{Table: id("qt1")}}
		b.add("UPDATE qt1 SET")
		for i := 0; i < l.n; i++ {
			comma(i)
			t, e := l.int(i)
			b.add(l.name(i), "=", t)
			s.ColumnUpdates = append(s.ColumnUpdates, sql.ColumnUpdate{Column: id(l.name(i)), Expr: e})
		}
		b.check(s)
	case 7:
		s := &sql.Select{}
		b.add("SELECT f (")
		call := &sql.SExpr{Name: id("f")}
		for i := 0; i < l.n; i++ {
			comma(i)
			t, e := l.int(i)
			b.add(t)
			call.Args = append(call.Args, e)
		}
		b.add(")")
		s.Results = []sql.SelectResult{sql.ExprResult{Expr: call}}
		b.check(s)
	case 8:
		s := &sql.DropTable{}
		b.add("DROP TABLE")
		for i := 0; i < l.n; i++ {
			comma(i)
			b.add("qs1 . ", l.name(i))
			s.Tables = append(s.Tables, types.TableName{Schema: id("qs1"), Table: id(l.name(i))})
		}
		b.check(s)
	case 9:
		s := &sql.CreateIndex{Index: id("qi1"), Table: types.TableName{Table: id("qt1")}}
		b.add("CREATE INDEX qi1 ON qt1 (")
		for i := 0; i < l.n; i++ {
			comma(i)
			b.add(l.name(i))
			if i%3 > 0 {
				b.add([]string{"ASC", "DESC"}[i%3-1])
			}
			s.Key.Columns = append(s.Key.Columns, id(l.name(i)))
			s.Key.Reverse = append(s.Key.Reverse, i%3 == 2)
		}
		b.add(")")
		b.check(s)
	case 10:
		s := &sql.AlterTable{Table: types.TableName{Table: id("qt1")}}
		b.add("ALTER TABLE qt1")
		for i := 0; i < l.n; i++ {
			comma(i)
			b.add("DROP CONSTRAINT", l.name(i))
			s.Actions = append(s.Actions, &sql.DropConstraint{Name: id(l.name(i))})
		}
		b.check(s)
	case 11:
		// Columns of all types, a key of every third column, a second key
		// of others, foreign keys.
		d, head := newDecl()
		var key sql.IndexKey
		for i := 0; i < l.n; i++ {
			if i > 0 {
				d.add(",")
			}
			d.column("c", l.name(i), i%len(colTypes), 0)
			if i%4 == 1 {
				d.add("NOT NULL")
				d.want.ColumnTypes[i].NotNull = true
			}
			if i%3 == 0 {
				key.Columns = append(key.Columns, id(l.name(i)))
				key.Reverse = append(key.Reverse, i%2 == 1)
			}
		}
		d.add(", CONSTRAINT qk1 PRIMARY KEY (")
		for i, c := range key.Columns {
			if i > 0 {
				d.add(",")
			}
			d.add(c.String())
			if key.Reverse[i] {
				d.add("DESC")
			}
		}
		d.add(")")
		d.key(sql.PrimaryConstraint, id("qk1"), key)
		d.check(head)
	case 12:
		s := &sql.CreateDatabase{Database: id("qd1"), Options: map[types.Identifier]string{}}
		b.add("CREATE DATABASE qd1 WITH")
		for i := 0; i < l.n; i++ {
			t, _ := l.int(i)
			b.add(l.name(i), t)
			s.Options[id(l.name(i))] = t
		}
		b.check(s)
	case 13:
		s := &sql.Copy{Table: types.TableName{Table: id("qt1")}, Delimiter: '\t'}
		txt := "COPY qt1 ("
		for i := 0; i < l.n; i++ {
			if i > 0 {
				txt += ","
			}
			txt += l.name(i)
			s.Columns = append(s.Columns, id(l.name(i)))
		}
		stmt, err := parser.NewParser(strings.NewReader(txt+") FROM STDIN\n"), "text").Parse()
		sym.Assert(err == nil, "the statement is accepted")
		got := stmt.(*sql.Copy)
		sym.Assert(got.Table == s.Table && same{}.ids(got.Columns, s.Columns) && got.Delimiter == s.Delimiter && got.FromLine == 2, "the statement as written")
		sym.Reach("parsed")
	}
}

// Deep: deeply nested expressions and queries.
func Deep() {
	n := 1 + choose("depth", sym.Param("n", 30))
	d := digit("d")
	var e sql.Expr = sql.Literal{types.Int64Value(d - '0')}
	t := string([]byte{d})
	kind := choose("kind", 6)
	for i := 0; i < n; i++ {
		switch kind {
		case 0:
			t, e = "("+t+")", &sql.UnaryExpr{Op: sql.NoOp, Expr: e}
		case 1:
			t, e = "NOT "+t, &sql.UnaryExpr{Op: sql.NotOp, Expr: e}
		case 2:
			if i == 0 {
				t, e = "qa", ref("qa") // a sign belongs to a number
			}
			t, e = "- "+t, &sql.UnaryExpr{Op: sql.NegateOp, Expr: e}
		case 3:
			t, e = "f("+t+")", &sql.SExpr{Name: id("f"), Args: []sql.Expr{e}}
		case 4:
			t = "(SELECT " + t + ")"
			e = &sql.Subquery{Op: sql.Scalar, Stmt: &sql.Select{Results: []sql.SelectResult{sql.ExprResult{Expr: e}}}}
		case 5:
			t = "1 + (" + t + " * 2)"
			e = &sql.BinaryExpr{Op: sql.AddOp, Left: sql.Literal{types.Int64Value(1)}, Right: &sql.UnaryExpr{Op: sql.NoOp,
				Expr: &sql.BinaryExpr{Op: sql.MultiplyOp, Left: &sql.UnaryExpr{Op: sql.NoOp, Expr: e}, Right: sql.Literal{types.Int64Value(2)}}}}
			t = strings.Replace(t, "(", "((", 1)
			t = strings.Replace(t, " * 2)", ") * 2)", 1)
			if i > 0 {
				sym.Stop()
			}
		}
	}
	got, err := expr(t)
	sym.Reach("parsed")
	sym.Assert(err == nil, "the expression is accepted")
	if err != nil {
		return
	}
	sym.Assert(same{}.expr(got, e), "the expression as written")
	if sym.Param("round", 0) == 1 {
		againExpr(got)
	}
}

// Chain: a long expression of operators, any of which is any operator.
func Chain() {
	n := sym.Param("n", 24)
	at := choose("at", n)
	op := choose("op", len(binops))
	pattern := choose("pattern", 4)
	r := &reader{}
	var parts []string
	for i := 0; i <= n; i++ {
		if i > 0 {
			k := []int{5, 2 + 7 - i*7/n, i * 7 / n, i * 5 % 8}[pattern] % 8
			if i-1 == at {
				k = op
			}
			parts = append(parts, binops[k].text)
			r.items = append(r.items, item{bin: &binops[k]})
		}
		nm := "q" + strconv.Itoa(i)
		if i == at {
			nm = "q" + string([]byte{digit("d")}) + "x"
		}
		parts = append(parts, nm)
		r.items = append(r.items, item{operand: ref(nm)})
	}
	got, err := expr(toText(parts))
	sym.Reach("parsed")
	sym.Assert(err == nil, "the expression is accepted")
	if err != nil {
		return
	}
	sym.Assert(same{}.expr(got, r.expr(0)), "the grouping by the rules")
	if sym.Param("round", 0) == 1 {
		againExpr(got)
	}
}

var tokenLengths = []int{14, 30, 62, 63, 64, 100, 126, 127, 128, 254, 255, 256, 510, 1022, 1023, 1024, 4095, 5000}

// LongTokens: tokens and comments of any length, with any character in one
// place, and what comes after them.
func LongTokens() {
	n := tokenLengths[choose("length", len(tokenLengths))]
	at := []int{0, n / 2, n - 1}[choose("at", 3)]
	kind := choose("kind", 9)
	c := sym.Byte("c")
	body := make([]byte, n)
	for i := range body {
		body[i] = byte('a' + i%6)
	}
	body[at] = c
	sym.Assume(c < 0x80 && c != 0)
	want := string(body)
	tok := rune(token.String)
	text := ""
	switch kind {
	case 0:
		sym.Assume(c != '\'')
		text = "'" + want + "'"
	case 1:
		sym.Assume(c != '"')
		text, tok = "\""+want+"\"", token.Identifier
	case 2:
		sym.Assume(sym.Or(sym.And(c >= 'a', c <= 'z'), c == '_'))
		text, tok = want, token.Identifier
	case 3:
		sym.Assume(sym.Or(sym.And(c >= '0', c <= '9'), sym.And(c >= 'a', c <= 'f')))
		text, tok = "x'"+want+"'", token.Bytes
	case 4:
		sym.Assume(c != '*' && c != '/')
		text, tok = "/*"+want+"*/", token.EOF
	case 5:
		sym.Assume(c != '\n')
		text, tok = "--"+want+"\n", token.EOF
	}
	zeros := strings.Repeat("0", n)
	switch kind {
	case 6:
		sym.Assume(sym.And(c >= '0', c <= '9'))
		text, tok = zeros+string([]byte{c}), token.Integer
	case 7:
		c = byte('0' + choose("digit", 10)) // decimal fractions of concrete digits
		text, tok = "0."+zeros[:at]+string([]byte{c}), token.Float
		want = text
	case 8:
		c = byte('1' + choose("digit", 9))
		want = string([]byte{c}) + zeros[:at%300]
		text, tok = want+".0"+zeros, token.Float
	}
	var sc scanner.Scanner
	sc.Init(strings.NewReader(text+" qz"), "text")
	var sctx scanner.ScanCtx
	sc.Scan(&sctx)
	sym.Reach("scanned")
	if tok != token.EOF {
		if kind == 3 && n%2 == 1 {
			sym.Assert(sctx.Token == token.Error, "half a byte is an error")
			return
		}
		sym.Assert(sctx.Token == tok, "the kind of the token")
		sym.Assert(sctx.Line == 1 && sctx.Column == 1, "where it starts")
		switch tok {
		case token.String:
			sym.Assert(sctx.String == want, "the string")
		case token.Integer:
			sym.Assert(sctx.Integer == int64(c-'0'), "the number")
		case token.Float:
			f, err := strconv.ParseFloat(want, 64)
			sym.Assert(err == nil && sctx.Float == f, "the number")
		case token.Identifier:
			sym.Assert(sctx.Identifier == types.ID(want, kind == 1), "the name")
		case token.Bytes:
			sym.Assert(len(sctx.Bytes) == n/2, "the bytes")
			ok := true
			for i := range sctx.Bytes {
				ok = sym.And(ok, sctx.Bytes[i] == nibble(body[2*i])<<4|nibble(body[2*i+1]))
			}
			sym.Assert(ok, "the bytes")
		}
		sc.Scan(&sctx)
	}
	sym.Assert(sctx.Token == token.Identifier && sctx.Identifier == id("qz"), "what comes after")
	line, col := position(text+" ", len(text)+1)
	sym.Assert(sctx.Line == line && sctx.Column == col, "and where")
}

func nibble(b byte) byte {
	if b >= 'a' {
		return b - 'a' + 10
	}
	return b - '0'
}

// ManyStatements: a long text of statements, one of which is any of a menu.
func ManyStatements() {
	n := sym.Param("n", 40)
	at, which := choose("at", n), choose("which", len(sequence))
	var texts []string
	for i := 0; i < n; i++ {
		k := i * 7 % len(sequence)
		if i == at {
			k = which
		}
		t := sequence[k]
		if t == "$X" {
			t = "SELECT 7"
			if i == at {
				t = "SELECT " + string([]byte{digit("d")})
			}
		}
		texts = append(texts, t)
	}
	p := parser.NewParser(strings.NewReader(strings.Join(texts, ";\n")), "text")
	var gots, wants []sql.Stmt
	for _, t := range texts {
		if strings.Trim(t, " ") == "" {
			continue // nothing
		}
		want, ok := outcome(t)
		got, err := p.Parse()
		for i := 0; i < n && got == nil && err == nil; i++ {
			got, err = p.Parse() // of an empty statement
		}
		sym.Assert((err == nil) == ok, "accepted or rejected as if it stood alone")
		if ok {
			sym.Assert(same{}.stmt(got, want), "the same statement as if it stood alone")
			gots, wants = append(gots, got), append(wants, want)
		} else {
			sym.Reach("rejected")
		}
	}
	last, err := p.Parse()
	for i := 0; i < n && last == nil && err == nil; i++ {
		last, err = p.Parse()
	}
	sym.Reach("parsed")
	sym.Assert(last == nil && err == io.EOF, "then the text ends")
	for i := range gots {
		sym.Assert(same{}.stmt(gots[i], wants[i]), "still the same statement when the rest is parsed")
	}
}

// FarPositions: tokens and errors on late lines and in late columns.
func FarPositions() {
	lines := []int{0, 1, 126, 127, 254, 255, 256, 300, 1000}[choose("lines", 9)]
	cols := []int{0, 1, 126, 127, 254, 255, 256, 300, 1000}[choose("cols", 9)]
	before := ""
	for i := 0; i < lines; i++ {
		before += []string{"\n", "--\n", "/*\n*/"}[i%3]
	}
	before += "SELECT 1"
	for i := 0; i < cols; i++ {
		before += " "
	}
	if cols == 0 {
		before += " "
	}
	off := len(before)
	text := before + string([]byte{digit("c")}) + " qz qy"
	_, err := parser.NewParser(strings.NewReader(text), "text").Parse()
	sym.Reach("rejected")
	sym.Assert(err != nil, "the statement is rejected")
	line, col := position(text, off)
	sym.Assert(strings.HasPrefix(err.Error(), "parser: text:"+strconv.Itoa(line)+":"+strconv.Itoa(col)+":"), "the error is where the wrong token starts")
}

// FarErrors: a repeated name or a row of another length anywhere in a long
// list.
func FarErrors() {
	n := sym.Param("n", 150)
	at := []int{0, 1, 2, n / 4, n/2 - 1, n / 2, 3 * n / 4, n - 3, n - 2, n - 1}[choose("at", 10)]
	to := []int{0, at, n / 2, n - 1}[choose("to", 4)]
	kind := choose("kind", 6)
	text := func(bad bool) string {
		var items, types []string
		for i := 0; i < n; i++ {
			nm := "c" + strconv.Itoa(i)
			if bad && i == at {
				nm = "c" + strconv.Itoa(to)
			}
			items = append(items, nm)
			types = append(types, nm+" INT")
		}
		list := strings.Join(items, ", ")
		switch kind {
		case 0:
			return "CREATE TABLE qt (" + strings.Join(types, ", ") + ")"
		case 1:
			return "CREATE TABLE qt (qa INT, PRIMARY KEY (" + list + "))"
		case 2:
			return "INSERT INTO qt (" + list + ") VALUES (1)"
		case 3:
			return "SELECT * FROM qt JOIN qs USING (" + list + ")"
		case 4:
			return "COPY qt (" + list + ") FROM STDIN"
		}
		rows := make([]string, n)
		for i := range rows {
			rows[i] = "(1, 2)"
			if bad && i == at {
				rows[i] = "(1, 2, 3)"
			}
		}
		return "VALUES " + strings.Join(rows, ", ")
	}
	bad := sym.Bool("bad")
	_, err := parser.NewParser(strings.NewReader(text(bad)+";"), "text").Parse()
	if bad && (kind == 5 || at != to) {
		sym.Reach("rejected")
		sym.Assert(err != nil, "a repeated name or a row of another length is rejected")
	} else {
		sym.Reach("parsed")
		sym.Assert(err == nil, "everything else is accepted")
	}
}
