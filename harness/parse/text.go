// Package parse checks the scanner and the parser.
package parse

import (
	"io"
	"strings"

	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/sym"
)

// pick returns a symbolic value below n; where it matters the execution
// forks, decided by the solver.
func pick(nm string, n int) int {
	b := sym.Byte(nm)
	sym.Assume(int(b) < n)
	return int(b)
}

func num(i int) string { return string(rune('0' + i)) }

func digit(nm string) byte {
	b := sym.Byte(nm)
	sym.Assume(b >= '0')
	sym.Assume(b <= '9')
	return b
}

// letter returns a symbolic letter of either case.
func letter(nm string) byte {
	b := sym.Byte(nm)
	sym.Assume(sym.Or(sym.And(b >= 'a', b <= 'z'), sym.And(b >= 'A', b <= 'Z')))
	return b
}

// one parses a text which is one statement.
func one(text string) (sql.Stmt, error) {
	p := parser.NewParser(strings.NewReader(text), "text")
	stmt, err := p.Parse()
	if err == nil {
		_, end := p.Parse()
		sym.Assert(end == io.EOF, "the whole statement is consumed")
	}
	return stmt, err
}

func expr(text string) (sql.Expr, error) {
	return parser.NewParser(strings.NewReader(text), "text").ParseExpr()
}

// toText joins tokens by single spaces.
func toText(tokens []string) string { return strings.Join(tokens, " ") }

func id(s string) types.Identifier { return types.ID(s, false) }
