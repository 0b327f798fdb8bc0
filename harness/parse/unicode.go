package parse

import (
	"strings"
	"unicode"

	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/parser/scanner"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/parser/token"
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/sym"
)

// anyRune is any character outside ASCII.
func anyRune(name string) rune {
	r := rune(sym.Uint32(name))
	sym.Assume(sym.And(r >= 0x80, r <= unicode.MaxRune))
	sym.Assume(sym.Or(r < 0xD800, r > 0xDFFF))
	return r
}

// Unicode: any characters inside strings, quoted names and comments.
func Unicode() {
	r, q := anyRune("r"), rune('z')
	if sym.Bool("two") {
		q = anyRune("q")
	}
	body := "a" + string(r) + string(q) + "b"
	text, tok := "", rune(token.EOF)
	lines, width := 0, 4
	kind := choose("kind", 6)
	switch kind {
	case 0:
		text, tok, width = "'"+body+"'", token.String, 6
	case 1:
		text, tok, width = "\""+body+"\"", token.Identifier, 6
	case 2:
		text, tok, width = "e'"+body+"'", token.String, 7
	case 3:
		text, width = "/*"+body+"*/", 8
	case 4:
		text, lines, width = "--"+body+"\n", 1, 0
	case 5:
		text, width = "/*\n"+body+"*/", 6
		lines = 1
	}
	var sc scanner.Scanner
	sc.Init(strings.NewReader(text+" qz"), "text")
	var sctx scanner.ScanCtx
	sc.Scan(&sctx)
	sym.Reach("scanned")
	if tok != token.EOF {
		sym.Assert(sctx.Token == tok && sctx.Line == 1 && sctx.Column == 1, "the token and where it starts")
		if tok == token.String {
			sym.Assert(sym.StrEq(sctx.String, body), "the string")
		} else {
			sym.Assert(sym.StrEq(sctx.Identifier.String(), body), "the name")
		}
		sc.Scan(&sctx)
	}
	sym.Assert(sctx.Token == token.Identifier && sctx.Identifier == id("qz"), "what comes after")
	sym.Assert(sctx.Line == 1+lines && sctx.Column == width+2, "and where, in characters")
}

// UnicodeBetween: a character outside ASCII between two names, one of a range
// with few or of a list of others, is part of a name, white space or an error.
func UnicodeBetween() {
	r := anyRune("r")
	others := []rune{0x1680, 0x2000, 0x200A, 0x200B, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000, 0xFEFF, 0x4E00, 0x661, 0x2160, 0x20AC, 0x1F600, 0xFF41, 0x10400, 0x10FFFF}
	i := choose("other", len(others)+1)
	if i < len(others) {
		sym.Assume(r == others[i])
		r = others[i]
	} else {
		sym.Assume(r < rune(sym.Param("limit", 0x180)))
	}
	space, letter := unicode.IsSpace(r), unicode.IsLetter(r) || unicode.IsDigit(r)
	var sc scanner.Scanner
	sc.Init(strings.NewReader("qa"+string(r)+"qb"), "text")
	var sctx scanner.ScanCtx
	sc.Scan(&sctx)
	sym.Reach("scanned")
	if letter {
		sym.Assert(sctx.Token == token.Identifier && sctx.Identifier == types.ID("qa"+string(r)+"qb", false), "a letter or digit belongs to the name")
	} else {
		sym.Assert(sctx.Token == token.Identifier && sctx.Identifier == id("qa"), "the name ends before it")
		sc.Scan(&sctx)
		if space {
			sym.Assert(sctx.Token == token.Identifier && sctx.Identifier == id("qb"), "white space separates")
			sym.Assert(sctx.Line == 1 && sctx.Column == 4, "and is one character wide")
		} else {
			sym.Assert(sctx.Token != token.EOF && (sctx.Token != token.Identifier || sctx.Identifier != id("qb")), "nothing else is dropped")
		}
	}
	// in a statement
	stmt, err := parser.NewParser(strings.NewReader("SELECT"+string(r)+"qb;"), "text").Parse()
	if space {
		want := &sql.Select{Results: []sql.SelectResult{sql.ExprResult{Expr: ref("qb")}}}
		sym.Assert(err == nil && same{}.stmt(stmt, want), "white space separates")
	} else {
		sym.Assert(err != nil, "anything else is an error there")
	}
}

// UnicodePrint: a string constant of any characters is
// printed as text that parses back to it.
func UnicodePrint() {
	r, q := anyRune("r"), rune('z')
	if sym.Bool("two") {
		q = anyRune("q")
	}
	body := "a" + string(r) + string(q) + "b"
	switch choose("in", 4) {
	case 0:
		againExpr(sql.Literal{types.StringValue(body)})
	case 1:
		e := sql.Literal{types.StringValue(body)}
		again(&sql.Values{Expressions: [][]sql.Expr{{e, ref("qa")}, {ref("qa"), e}}})
	case 2:
		againExpr(&sql.SExpr{Name: id("qf"), Args: []sql.Expr{sql.Literal{types.StringValue("'" + body + "\\\n")}}})
	default:
		e := sql.Literal{types.StringValue(string(r))}
		again(&sql.Select{Results: []sql.SelectResult{sql.ExprResult{Expr: e, Alias: id("qa")}}, Where: e})
	}
}
