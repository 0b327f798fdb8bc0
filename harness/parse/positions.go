package parse

import (
	"strconv"
	"strings"

	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/zzverif/sym"
)

// ErrorPositions: an error names the position of a token of the statement
// which is rejected.
func ErrorPositions() {
	i := choose("stmt", len(statements))
	ws := strings.Split(strings.Replace(statements[i], "$X", "2", 1), " ")
	at := choose("at", len(ws)+1)
	bad := []string{"", "=", "12", "'a'", "SELECT", ")", "q1", "$0", "FROM", ","}[choose("bad", 10)]
	var ts []string
	ts = append(ts, ws[:at]...)
	if bad != "" {
		ts = append(ts, bad)
	}
	if sym.Bool("insert") {
		ts = append(ts, ws[at:]...)
	} else if at < len(ws) {
		ts = append(ts, ws[at+1:]...)
	}
	text := []string{"", "BEGIN;\n", "SELECT 1 2 ; -- x\n"}[choose("before", 3)]
	skip := 0
	if text != "" {
		skip = 1
	}
	nl := choose("newline", 3)
	var starts []int
	for k, t := range ts {
		starts = append(starts, len(text))
		text += t
		if k%3 == nl {
			text += "\n "
		} else {
			text += " "
		}
	}
	starts = append(starts, len(text))
	text += ";"
	p := parser.NewParser(strings.NewReader(text), "file")
	for ; skip > 0; skip-- {
		p.Parse()
	}
	stmt, err := p.Parse()
	if err == nil {
		sym.Assert(stmt != nil || len(ts) == 0, "a statement or an error")
		sym.Stop()
	}
	sym.Reach("rejected")
	msg := err.Error()
	if !strings.HasPrefix(msg, "parser: file:") {
		// the first token is none
		sym.Assert(ts[0] == "$0", "the error names the position")
		return
	}
	msg = strings.TrimPrefix(msg, "parser: file:")
	parts := strings.SplitN(msg, ":", 3)
	line, e1 := strconv.Atoi(parts[0])
	col, e2 := strconv.Atoi(parts[1])
	sym.Assert(e1 == nil && e2 == nil, "the error names the position")
	found := -1
	for k, s := range starts {
		l, c := position(text, s)
		if l == line && c == col {
			found = k
		}
	}
	sym.Assert(found >= 0, "the position is that of a token of the statement")
	sym.Assert(found >= at-1, "and not before the place where it goes wrong")
}

// The offending token of each is marked with a ^.
var offending = []string{
	"^FOO",
	"^12 SELECT",
	"^a = 1",
	"BEGIN ^WORK",
	"BEGIN ^'x'",
	"COMMIT ^1",
	"ROLLBACK ^,",
	"START ^BEGIN",
	"START TRANSACTION ^TRANSACTION",
	"USE ^;",
	"SET ^12 = 1",
	"SET a ^1",
	"SET a = ^,",
	"SET a TO ^b",
	"SHOW ^12",
	"SHOW TABLES FROM ^1",
	"EXPLAIN ^1",
	"CREATE ^a",
	"CREATE TABLE ^1",
	"CREATE TABLE a . ^. b",
	"CREATE TABLE t ^a",
	"CREATE TABLE t ( a INT ^b INT )",
	"CREATE TABLE t ( a ^SELECT )",
	"CREATE TABLE t ( a ^FOO )",
	"CREATE TABLE t ( a CHAR ( ^x ) )",
	"CREATE TABLE t ( a CHAR ( ^99999999999 ) )",
	"CREATE TABLE t ( a CHAR ( ^-1 ) )",
	"CREATE TABLE t ( a CHAR ( 1 ^, 2 ) )",
	"CREATE TABLE t ( a INT , ^a INT )",
	"CREATE TABLE t ( a INT NOT ^DEFAULT )",
	"CREATE TABLE t ( a INT PRIMARY ^a )",
	"CREATE TABLE t ( a INT , PRIMARY KEY ^a )",
	"CREATE TABLE t ( a INT , PRIMARY KEY ( ^) )",
	"CREATE TABLE t ( a INT , PRIMARY KEY ( a , ^a ) )",
	"CREATE TABLE t ( a INT ) ^x",
	"CREATE INDEX ^ON t ( a )",
	"CREATE INDEX i ON ^( a )",
	"CREATE INDEX i ON t ^a",
	"CREATE INDEX i ON t ( a ^b )",
	"CREATE UNIQUE ^TABLE t ( a INT )",
	"DROP ^t",
	"DROP TABLE IF ^t",
	"DROP TABLE a , ^, b",
	"DROP TABLE a ^b",
	"DROP INDEX i ^t",
	"ALTER ^t",
	"ALTER TABLE t ^FOO",
	"ALTER TABLE t DROP CONSTRAINT ^1",
	"INSERT ^t VALUES ( 1 )",
	"INSERT INTO t ^1",
	"INSERT INTO t ( a ^1 ) VALUES ( 1 )",
	"INSERT INTO t VALUES ( 1 ^2 )",
	"INSERT INTO t VALUES ( ^, )",
	"INSERT INTO t VALUES ( 1 ) , ^2",
	"UPDATE t ^a = 1",
	"UPDATE t SET a ^1",
	"UPDATE t SET a = ^,",
	"DELETE ^t",
	"DELETE FROM t ^a",
	"DELETE FROM t WHERE ^)",
	"SELECT ^,",
	"SELECT a ^1",
	"SELECT a FROM ^1",
	"SELECT a FROM t WHERE ^;",
	"SELECT a FROM t WHERE b ^c",
	"SELECT a FROM t ORDER ^a",
	"SELECT ( 1 ^;",
	"SELECT 1 + ^)",
	"SELECT f ( 1 ^2 )",
	"VALUES ^1",
	"VALUES ( 1 ) ^( 2 )",
	"COPY t ^STDIN",
	"COPY t ( a , ^a ) FROM STDIN",
	"COPY t FROM ^x",
	"COPY t FROM STDIN DELIMITER ^x",
	"COPY t FROM STDIN DELIMITER ^'ab'",
}

// ErrorTokens: an error names the position of the token which is wrong,
// wherever the lines break.
func ErrorTokens() {
	i := choose("stmt", len(offending))
	text := []string{"", "BEGIN;\n", "\n COMMIT ; -- x\n"}[choose("before", 3)]
	skip := text != ""
	nl := choose("newline", 4)
	at := -1
	for k, t := range strings.Split(offending[i], " ") {
		if t[0] == '^' {
			at = len(text)
			t = t[1:]
		}
		text += t
		if k%4 == nl {
			text += "\n "
		} else {
			text += "  "
		}
	}
	text += "x ; y"
	p := parser.NewParser(strings.NewReader(text), "file")
	if skip {
		p.Parse()
	}
	stmt, err := p.Parse()
	sym.Assert(stmt == nil && err != nil, "a wrong statement is rejected")
	sym.Reach("rejected")
	line, col := position(text, at)
	want := "parser: file:" + strconv.Itoa(line) + ":" + strconv.Itoa(col) + ":"
	sym.Assert(strings.HasPrefix(err.Error(), want), "the position is that of the token which is wrong")
}

// CopyPositions: the line at which the rows of COPY start.
func CopyPositions() {
	text := strings.Repeat("\n", choose("lines", 3)) + []string{"", "BEGIN;\n", "SELECT 'a\nb'; -- x\n"}[choose("before", 3)]
	skip := strings.Contains(text, ";")
	text += "COPY t (a,"
	if sym.Bool("split") {
		text += "\n"
	}
	text += " b) FROM STDIN"
	if sym.Bool("delim") {
		text += " DELIMITER ','"
	}
	text += ";\nabc\nd\n"
	end := len(text)
	text += strings.Repeat("\n", choose("more", 2)) + " select 1 2;"
	p := parser.NewParser(strings.NewReader(text), "file")
	if skip {
		p.Parse()
	}
	stmt, err := p.Parse()
	sym.Assert(err == nil, "the statement is accepted")
	c, ok := stmt.(*sql.Copy)
	sym.Assert(ok, "the statement is accepted")
	sym.Reach("parsed")
	line, _ := position(text, strings.Index(text, "abc"))
	sym.Assert(c.FromLine == line, "the line at which the rows start")
	for k := strings.Index(text, "abc"); k < end; k++ {
		c.From.ReadRune()
	}
	stmt, err = p.Parse()
	sym.Assert(stmt == nil && err != nil, "a wrong statement is rejected")
	line, col := position(text, strings.LastIndex(text, "2"))
	want := "parser: file:" + strconv.Itoa(line) + ":" + strconv.Itoa(col) + ":"
	sym.Assert(strings.HasPrefix(err.Error(), want), "positions after the rows go on counting")
}
