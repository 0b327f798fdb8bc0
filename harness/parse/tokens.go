package parse

import (
	"strings"

	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/parser/scanner"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/parser/token"
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/sym"
)

// Kinds of tokens as far as writing them next to each other matters.
const (
	kWord = iota // names, keywords, parameters
	kNumber
	kString // constants
	kQuoted // quoted names
	kOp     // operators
	kPunct  // ( ) , ; @
	kDot
)

type tok struct {
	text  string
	kind  int
	check func(sctx *scanner.ScanCtx) bool
}

func lower(b byte) byte {
	return byte(sym.IteInt64(sym.And(b >= 'A', b <= 'Z'), int64(b)+32, int64(b)))
}

// anyCase returns w with every letter in a symbolic case.
func anyCase(nm, w string) string {
	b := []byte(w)
	c := sym.Uint64(nm)
	for i := range b {
		lo, up := b[i], b[i]
		if b[i] >= 'A' && b[i] <= 'Z' {
			lo = b[i] + 32
		} else if b[i] >= 'a' && b[i] <= 'z' {
			up = b[i] - 32
		}
		b[i] = byte(sym.IteInt64(c&(1<<uint(i)) != 0, int64(up), int64(lo)))
	}
	return string(b)
}

func isToken(t rune) func(*scanner.ScanCtx) bool {
	return func(sctx *scanner.ScanCtx) bool { return sctx.Token == t }
}

var opTokens = []struct {
	text string
	tok  rune
}{
	{"-", '-'}, {"+", '+'}, {"*", '*'}, {"/", '/'}, {"%", '%'}, {"=", '='}, {"<", '<'}, {">", '>'}, {"&", '&'}, {"|", '|'},
	{"||", token.BarBar}, {"<<", token.LessLess}, {"<=", token.LessEqual}, {"<>", token.LessGreater},
	{">>", token.GreaterGreater}, {">=", token.GreaterEqual}, {"==", token.EqualEqual}, {"!=", token.BangEqual},
}

const ntoks = 10

func anyToken(nm string) tok {
	switch pick(nm, ntoks) {
	case 0: // a name
		a := letter(nm + ".a")
		b := sym.Byte(nm + ".b")
		sym.Assume(sym.Or(sym.And(b >= '0', b <= '9'), sym.Or(b == '_', b == '$')))
		return tok{string([]byte{a, b}), kWord, func(sctx *scanner.ScanCtx) bool {
			return sctx.Token == token.Identifier && sym.StrEq(sctx.Identifier.String(), string([]byte{lower(a), b}))
		}}
	case 1: // a one letter name
		a := letter(nm + ".a")
		return tok{string([]byte{a}), kWord, func(sctx *scanner.ScanCtx) bool {
			return sctx.Token == token.Identifier && sym.StrEq(sctx.Identifier.String(), string([]byte{lower(a)}))
		}}
	case 2: // a keyword
		ws := []struct {
			w   string
			id  types.Identifier
			tok rune
		}{{"BY", types.BY, token.Reserved}, {"EXISTS", types.EXISTS, token.Reserved}, {"XOR", id("xor"), token.Identifier}, {"BIGINT", types.BIGINT, token.Identifier}}
		w := ws[pick(nm+".w", len(ws))]
		return tok{anyCase(nm+".case", w.w), kWord, func(sctx *scanner.ScanCtx) bool {
			return sctx.Token == w.tok && sctx.Identifier == w.id
		}}
	case 3: // a number
		a, b := digit(nm+".a"), digit(nm+".b")
		return tok{string([]byte{a, b}), kNumber, func(sctx *scanner.ScanCtx) bool {
			return sctx.Token == token.Integer && sctx.Integer == int64(a-'0')*10+int64(b-'0')
		}}
	case 4: // a constant
		c := char(nm + ".c")
		sym.Assume(c != '\'' && c != '\\')
		t := pick(nm+".prefix", 3)
		return tok{[]string{"'", "E'", "b'"}[t] + string([]byte{c}) + "'", kString, func(sctx *scanner.ScanCtx) bool {
			if t == 2 {
				return sctx.Token == token.Bytes && sym.BytesEq(sctx.Bytes, []byte{c})
			}
			return sctx.Token == token.String && sym.StrEq(sctx.String, string([]byte{c}))
		}}
	case 5: // a quoted name
		c := char(nm + ".c")
		sym.Assume(c != '"')
		return tok{"\"" + string([]byte{c}) + "\"", kQuoted, func(sctx *scanner.ScanCtx) bool {
			return sctx.Token == token.Identifier && sym.StrEq(sctx.Identifier.String(), string([]byte{c}))
		}}
	case 6: // an operator
		o := opTokens[pick(nm+".op", len(opTokens))]
		return tok{o.text, kOp, isToken(o.tok)}
	case 7:
		p := "(),@"[pick(nm+".p", 4)]
		return tok{string([]byte{p}), kPunct, isToken(rune(p))}
	case 8:
		return tok{";", kPunct, isToken(token.EndOfStatement)}
	default:
		return tok{".", kDot, isToken('.')}
	}
}

// separator returns symbolic white space and comments; it may be empty.
func separator(nm string, n int) string {
	s := ""
	for i := 0; i < n; i++ {
		c, d := char(nm+num(i)+".c"), char(nm+num(i)+".d")
		switch pick(nm+num(i), 5) {
		case 1:
			ws := []byte(" \n\t\r\v\f")
			s += string(ws[pick(nm+num(i)+".w", len(ws))])
		case 2:
			sym.Assume(c != '\n' && d != '\n')
			s += "--" + string([]byte{c, d}) + "\n"
		case 3:
			sym.Assume(!(c == '*' && d == '/'))
			s += "/*" + string([]byte{c, d}) + "*/"
		case 4:
			s += "/**/"
		default:
			return s
		}
	}
	return s
}

// apart reports whether two tokens would be read as others when written
// without separator, or with a separator s which begins with a comment.
func apart(a, b tok, s string) bool {
	if a.kind == kString && b.kind == kString && b.text[0] == '\'' {
		return false // constants over several lines are one
	}
	if s != "" {
		return a.text != "-" || s[0] != '-'
	}
	if a.kind == kPunct || b.kind == kPunct {
		return true
	}
	switch a.kind {
	case kWord:
		return b.kind == kOp || b.kind == kQuoted || b.kind == kDot
	case kNumber:
		return b.kind == kOp || b.kind == kQuoted
	case kString, kQuoted:
		return b.kind == kOp || b.kind == kWord || b.kind == kDot || b.kind == kNumber
	case kOp:
		return b.kind == kWord || b.kind == kQuoted || b.kind == kString || b.kind == kNumber && a.text != "-" && a.text != "+"
	case kDot:
		return b.kind != kDot
	}
	return false
}

// Tokens: whatever separates them, tokens are read as they are.
func Tokens() {
	n := sym.Param("n", 2)
	seps := sym.Param("seps", 1)
	edges := sym.Param("edges", seps)
	text := separator("s", edges)
	var ts []tok
	var starts []int
	for i := 0; i < n; i++ {
		t := anyToken("t" + num(i))
		if i > 0 {
			s := separator("s"+num(i), seps)
			if !apart(ts[i-1], t, s) {
				sym.Stop()
			}
			text += s
		}
		ts = append(ts, t)
		starts = append(starts, len(text))
		text += t.text
	}
	s := separator("e", edges)
	if !apart(ts[n-1], tok{kind: kPunct}, s) {
		sym.Stop()
	}
	text += s
	var sc scanner.Scanner
	sc.Init(strings.NewReader(text), "text")
	got := make([]scanner.ScanCtx, n)
	for i := range got {
		sc.Scan(&got[i])
	}
	sym.Reach("scanned")
	for i := range got {
		sym.Assert(ts[i].check(&got[i]), "the tokens are those written")
		if sym.Param("pos", 0) == 1 {
			line, col := position(text, starts[i])
			sym.Assert(got[i].Line == line && got[i].Column == col && got[i].Filename == "text", "a token is where it was written")
		}
	}
	var end scanner.ScanCtx
	sc.Scan(&end)
	sym.Assert(end.Token == token.EOF, "nothing more")
	if sym.Param("pos", 0) == 1 {
		line, col := position(text, len(text))
		sym.Assert(end.Line == line && (end.Column == col || end.Column == col-1), "the end is where the text ends")
	}
}

// position returns the line and column of the character at an offset.
func position(text string, off int) (int, int) {
	line, col := 1, 1
	for i := 0; i < off; i++ {
		if text[i] == '\n' {
			line++
			col = 1
		} else {
			col++
		}
	}
	return line, col
}

// Ends: the characters at the end of the input are not dropped.
func Ends() {
	c, d := char("c"), char("d")
	space := func(b byte) bool { return b == ' ' || b >= 9 && b <= 13 }
	sym.Assume(!space(c))
	sym.Assume(!(c == '-' && d == '-') && !(c == '/' && d == '*'))
	text := string([]byte{c})
	two := sym.Bool("two")
	if two {
		text += string([]byte{d})
	}
	before := ""
	switch pick("before", 5) {
	case 1:
		before = "1 "
	case 2:
		before = "(/* */"
	case 3:
		before = "'a';"
	case 4:
		before = "q\n"
	}
	var sc scanner.Scanner
	sc.Init(strings.NewReader(before+text), "text")
	var s scanner.ScanCtx
	if before != "" {
		sc.Scan(&s)
		sym.Assert(s.Token != token.EOF && s.Token != token.Error, "the token before")
		if before == "'a';" {
			sc.Scan(&s)
			sym.Assert(s.Token == token.EndOfStatement, "the end of the statement before")
		}
	}
	sc.Scan(&s)
	sym.Reach("scanned")
	sym.Assert(s.Token != token.EOF, "the last characters are not dropped")
	single := s.Token > 0
	if two && single && !space(d) {
		sc.Scan(&s)
		sym.Assert(s.Token != token.EOF, "the last character is not dropped")
	}
	if !two && single {
		sym.Assert(s.Token == rune(c), "the character is its token")
	}
}

var statements = []string{
	"SELECT DISTINCT1 , t1 . * , count ( * ) AS c1 FROM d1 . s1 . t1 AS a1 LEFT OUTER JOIN t2 @ i2 ON a1 . x = t2 . y WHERE NOT x1 IS NULL GROUP BY c1 HAVING c1 > 1 ORDER BY c1 DESC , c2",
	"INSERT INTO t1 ( c1 , c2 ) VALUES ( 1 , DEFAULT ) , ( 'abc' , - 2 * x1 )",
	"UPDATE s1 . t1 SET c1 = c1 + 1 , c2 = DEFAULT WHERE c1 NOT IN ( SELECT c2 FROM t2 )",
	"DELETE FROM t1 WHERE c1 = 1.5 OR c2 != $X",
	"CREATE TABLE IF NOT EXISTS t1 ( c1 INT NOT NULL DEFAULT 1 PRIMARY KEY , c2 VARCHAR ( 12 ) , CONSTRAINT k1 UNIQUE ( c2 DESC , c1 ) , FOREIGN KEY ( c1 ) REFERENCES t2 ( x1 ) ON DELETE SET NULL )",
	"CREATE UNIQUE INDEX IF NOT EXISTS i1 ON t1 USING BTREE ( c1 ASC , c2 DESC )",
	"CREATE DATABASE d1 WITH path = 'abc' other 12",
	"ALTER TABLE t1 ADD CONSTRAINT k1 FOREIGN KEY ( c1 ) REFERENCES t2 , ALTER COLUMN c2 DROP NOT NULL",
	"DROP TABLE IF EXISTS t1 , s1 . t2 CASCADE",
	"SET database TO 'abc'",
	"SHOW COLUMNS FROM t1",
	"EXPLAIN VERBOSE SELECT * FROM ( VALUES ( 1 , true ) ) AS v1 ( c1 , c2 ) CROSS JOIN t2",
	"START TRANSACTION",
	"VALUES ( 1 - 2 , a1 -1 )",
}

// Layout: white space, comments and letter case leave a statement the same.
func Layout() {
	i := pick("stmt", len(statements))
	for k := range statements {
		if i == k {
			i = k
			break
		}
	}
	ws := strings.Split(strings.Replace(statements[i], "$X", "2", 1), " ")
	plain := strings.Join(ws, " ")
	want, err := one(plain)
	sym.Assert(err == nil, "the statement is accepted")
	at := pick("at", len(ws)+1)
	for k := 0; k <= len(ws); k++ {
		if at == k {
			at = k
			break
		}
	}
	text := ""
	if sym.Bool("case") {
		if at == len(ws) || len(ws[at]) > sym.Param("maxlen", 6) || strings.ContainsAny(ws[at], "'") {
			sym.Stop()
		}
		for k, w := range ws {
			if k == at {
				w = anyCase("mask", w)
			}
			text += w + " "
		}
	} else {
		sep := separator("sep", sym.Param("seps", 1))
		if sep == "" || at > 0 && (ws[at-1] == "-" && sep[0] == '-') {
			sym.Stop()
		}
		for k, w := range ws {
			switch {
			case k == at:
				text += sep
			case k > 0:
				text += " "
			}
			text += w
		}
		if at == len(ws) {
			text += sep
		}
	}
	stmt, err := one(text)
	sym.Reach("parsed")
	sym.Assert(err == nil && same{}.stmt(stmt, want), "the same statement")
}

// Lower: a whole statement in lower case is the same, and so is one ended by
// a semicolon or by the end of the input.
func Lower() {
	i := pick("stmt", len(statements))
	text := strings.Replace(statements[i], "$X", "2", 1)
	want, err := one(text)
	sym.Assert(err == nil, "the statement is accepted")
	if sym.Bool("lower") {
		text = strings.ToLower(text)
	}
	switch pick("end", 5) {
	case 1:
		text += ";"
	case 2:
		text += " ;\n"
	case 3:
		text += "-- end"
	case 4:
		text += "/* end */;--"
	}
	stmt, err := one(text)
	sym.Reach("parsed")
	sym.Assert(err == nil && same{}.stmt(stmt, want), "the same statement")
}

// Minus: a minus sign between operands subtracts however it is spaced.
func Minus() {
	sgn := "-+"[pick("sign", 2)]
	d, e := digit("d"), digit("e")
	l := pick("left", 5)
	left := []string{"q1", "12", "(q1)", "'a'", "qf()"}[l]
	num := string([]byte{d, e})
	if sym.Bool("decimal") {
		num = string([]byte{d}) + ".5"
	}
	write := func(a, b string) string { return left + a + string([]byte{sgn}) + b + num }
	after := ""
	if sym.Bool("more") {
		after = []string{" * q2", "||q2", " = q2", "-1"}[pick("after", 4)]
	}
	want, err := expr(write(" ", " ") + after)
	sym.Assert(err == nil, "accepted with spaces")
	a, b := separator("a", 1), separator("b", 1)
	if sgn == '-' && b != "" && b[0] == '-' {
		sym.Stop()
	}
	p := parser.NewParser(strings.NewReader(write(a, b)+after), "text")
	got, err := p.ParseExpr()
	sym.Reach("parsed")
	sym.Assert(err == nil && same{}.expr(got, want), "the same expression")
	u, ok := want.(*sql.BinaryExpr)
	sym.Assert(ok, "two operands")
	_ = u
}
