package parse

import (
	"io"
	"strings"

	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/zzverif/sym"
)

// The words of statements: every reserved word, words with a meaning where
// they are not reserved, names, constants, operators and punctuation, and
// characters which start no token.
var vocabulary = strings.Split("ACTION ADD ALL ALTER AND ANY AS ASC BEGIN BY CASCADE CHECK COLUMN COMMIT CONSTRAINT COPY CREATE CROSS"+
	" DATABASE DEFAULT DELETE DELIMITER DESC DROP EXECUTE EXISTS EXPLAIN FALSE FOREIGN FROM FULL GROUP HAVING IF IN INDEX INNER INSERT INTO IS JOIN"+
	" KEY LEFT NO NOT NULL ON OR ORDER OUTER PREPARE PRIMARY REFERENCES RESTRICT RIGHT ROLLBACK SCHEMA SELECT SET SHOW SOME START TABLE TO"+
	" TRANSACTION TRUE UNIQUE UPDATE USE USING VALUES VERBOSE WHERE WITH"+
	" COUNT INT VARCHAR DOUBLE PRECISION BTREE STDIN COLUMNS TABLES q1 q2 1 -2 3.5 'a' '' b'a' $1 - + * = < || ( ) , . @ ! #", " ")

// feed is a text whose next token is chosen when it is read.
type feed struct {
	head []string // tokens before those chosen
	rest []string // and after
	max  int      // how many are chosen
	n    int
	buf  string
	done bool // no more choices: end the statement
	tail int
	name string
	errs int // chosen tokens which are none
}

func (f *feed) next() {
	switch {
	case len(f.head) > 0:
		f.buf = f.head[0] + " "
		f.head = f.head[1:]
		return
	case !f.done && f.n < f.max:
		k := pick(f.name+num(f.n), len(vocabulary)+1)
		f.n++
		if k < len(vocabulary) {
			f.buf = vocabulary[k] + " "
			return
		}
		f.n = f.max
		if len(f.rest) == 0 {
			f.done = true
		}
	}
	if !f.done && len(f.rest) > 0 {
		f.buf = f.rest[0] + " "
		f.rest = f.rest[1:]
		return
	}
	f.done = true
	f.tail++
	switch f.tail {
	case 1:
		f.buf = "; "
	case 2:
		f.buf = "BEGIN ;\n"
	}
}

func (f *feed) ReadRune() (rune, int, error) {
	if f.buf == "" {
		f.next()
		if f.buf == "" {
			return 0, 0, io.EOF
		}
	}
	r := rune(f.buf[0])
	f.buf = f.buf[1:]
	return r, 1, nil
}

// follow parses the statement of f and what is after it.
func follow(f *feed) {
	p := parser.NewParser(f, "text")
	stmt, err := p.Parse()
	f.done = true
	sym.Reach("parsed")
	sym.Assert(stmt == nil || err == nil, "a statement or an error")
	if stmt != nil {
		sym.Assert(stmt.String() != "", "the statement can be printed")
	}
	if _, ok := stmt.(*sql.Copy); ok {
		return // reads its own rows
	}
	next, err := p.Parse()
	if err != nil && err != io.EOF && f.n > 0 {
		// Something in what is skipped is no token.
		for i := 0; i <= f.errs && err != nil; i++ {
			next, err = p.Parse()
		}
	}
	_, ok := next.(*sql.Begin)
	sym.Assert(err == nil && ok, "the next statement is parsed as if it stood alone")
	_, err = p.Parse()
	sym.Assert(err == io.EOF, "then the text ends")
}

var starts = []string{"ALTER TABLE", "BEGIN", "COMMIT", "CREATE DATABASE", "CREATE INDEX", "CREATE SCHEMA", "CREATE TABLE", "CREATE UNIQUE INDEX", "DELETE FROM",
	"DROP DATABASE", "DROP INDEX", "DROP SCHEMA", "DROP TABLE", "EXPLAIN", "INSERT INTO", "ROLLBACK", "SELECT", "SET", "SHOW", "START", "UPDATE", "USE", "VALUES",
	"EXECUTE", "PREPARE", "DETACH", ""}

// Walk: every sequence of tokens after the first words of a statement.
func Walk() {
	i := pick("start", len(starts))
	for k := range starts {
		if i == k {
			i = k
			break
		}
	}
	f := &feed{max: sym.Param("n", 2), name: "t"}
	if starts[i] != "" {
		f.head = strings.Split(starts[i], " ")
	}
	follow(f)
}

// Splice: a statement of which some tokens are replaced by any others.
func Splice() {
	n := sym.Param("n", 1)
	i := pick("stmt", len(statements))
	for k := range statements {
		if i == k {
			i = k
			break
		}
	}
	ws := strings.Split(strings.Replace(statements[i], "$X", "2", 1), " ")
	at := pick("at", len(ws)+1)
	for k := 0; k <= len(ws); k++ {
		if at == k {
			at = k
			break
		}
	}
	f := &feed{head: ws[:at], max: n, name: "t"}
	if at < len(ws) {
		switch pick("how", 3) {
		case 0: // replaces one
			f.rest = ws[at+1:]
		case 1: // inserted
			f.rest = ws[at:]
		}
	}
	follow(f)
}

func ascii(nm string, n int) string {
	s := sym.Bytes(nm, n)
	for _, b := range s {
		sym.Assume(b < 0x80)
	}
	return string(s)
}

// Bytes: any bytes at all.
func Bytes() {
	n := sym.Param("len", 3)
	k := n
	if sym.Param("exact", 0) == 0 {
		k = pick("len", n+1)
	}
	text := ascii("text", k)
	before := []string{"", "SELECT ", "SELECT 'a", "VALUES (e'\\"}[pick("before", sym.Param("before", 1))]
	p := parser.NewParser(strings.NewReader(before+text), "text")
	for i := 0; i <= n+4; i++ {
		stmt, err := p.Parse()
		sym.Assert(stmt == nil || err == nil, "a statement or an error")
		if stmt != nil {
			sym.Assert(stmt.String() != "", "the statement can be printed")
		}
		if err == io.EOF {
			sym.Reach("end")
			return
		}
		if err != nil {
			sym.Assert(stmt == nil, "no statement with an error")
		}
	}
	sym.Fail("parsing reaches the end of the text")
}

// ExprBytes: any bytes as an expression.
func ExprBytes() {
	n := sym.Param("len", 3)
	text := ascii("text", pick("len", n+1))
	e, err := expr([]string{"", "(", "1 ", "qa."}[pick("before", sym.Param("before", 1))] + text)
	sym.Reach("parsed")
	sym.Assert((e == nil) == (err != nil), "an expression or an error")
	if e != nil {
		_ = e.String()
	}
}

// ExprWalk: every sequence of tokens as an expression.
func ExprWalk() {
	f := &feed{max: sym.Param("n", 3), name: "t"}
	p := parser.NewParser(f, "text")
	e, err := p.ParseExpr()
	sym.Reach("parsed")
	sym.Assert((e == nil) == (err != nil), "an expression or an error")
	if e != nil {
		_ = e.String()
	}
}
