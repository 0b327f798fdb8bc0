package parse

import (
	"strings"

	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/parser/scanner"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/parser/token"
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/sym"
)

// literal is a text and what it denotes.
type literal struct {
	text  []byte
	bad   bool // malformed, the rest is unused
	tok   rune
	str   string
	bytes []byte
	num   int64
	float float64
	name  string // quoted identifier
}

func char(nm string) byte {
	b := sym.Byte(nm)
	sym.Assume(b < 0x80)
	return b
}

// utf8 appends the encoding of a rune below 0x110000 which is not a surrogate.
func utf8(b []byte, r uint32) []byte {
	switch {
	case r < 0x80:
		return append(b, byte(r))
	case r < 0x800:
		return append(b, 0xC0|byte(r>>6), 0x80|byte(r&0x3F))
	case r < 0x10000:
		return append(b, 0xE0|byte(r>>12), 0x80|byte(r>>6&0x3F), 0x80|byte(r&0x3F))
	}
	return append(b, 0xF0|byte(r>>18), 0x80|byte(r>>12&0x3F), 0x80|byte(r>>6&0x3F), 0x80|byte(r&0x3F))
}

// hexDigit returns a symbolic hexadecimal digit and its value.
func hexDigit(nm string) (byte, uint32) {
	b := char(nm)
	d := sym.And(b >= '0', b <= '9')
	u := sym.And(b >= 'A', b <= 'F')
	l := sym.And(b >= 'a', b <= 'f')
	sym.Assume(sym.Or(d, sym.Or(u, l)))
	v := sym.IteInt64(d, int64(b)-'0', sym.IteInt64(u, int64(b)-'A'+10, int64(b)-'a'+10))
	return b, uint32(v)
}

// piece appends one piece of a quoted constant to text and value.
func piece(nm string, text, val []byte, esc, raw bool) ([]byte, []byte, bool) {
	n := 3
	if esc {
		n = 8
	}
	switch pick(nm, n) {
	case 0: // any plain character
		c := char(nm + ".c")
		sym.Assume(c != '\'')
		if esc {
			sym.Assume(c != '\\')
		}
		return append(text, c), append(val, c), true
	case 1: // a quote
		return append(text, '\'', '\''), append(val, '\''), true
	case 2: // a two byte character
		h, l := sym.Byte(nm+".h"), sym.Byte(nm+".l")
		sym.Assume(h >= 0xC2)
		sym.Assume(h <= 0xDF)
		sym.Assume(l >= 0x80)
		sym.Assume(l <= 0xBF)
		return append(text, h, l), append(val, h, l), true
	case 3: // an escaped character
		c := char(nm + ".e")
		sym.Assume(c < '0' || c > '7')
		for _, x := range []byte("xuU") {
			sym.Assume(c != x)
		}
		v := c
		for i, x := range []byte("abtnvfr") {
			v = byte(sym.IteInt64(c == x, int64([]byte{7, 8, 9, 10, 11, 12, 13}[i]), int64(v)))
		}
		return append(text, '\\', c), append(val, v), true
	case 4: // \xhh
		a, x := hexDigit(nm + ".1")
		b, y := hexDigit(nm + ".2")
		text = append(text, '\\', 'x', a, b)
		if raw {
			return text, append(val, byte(x*16+y)), true
		}
		return text, utf8(val, x*16+y), true
	case 5: // \ooo
		r := uint32(0)
		text = append(text, '\\')
		for i := 0; i < 3; i++ {
			o := char(nm + ".o" + num(i))
			sym.Assume(o >= '0')
			sym.Assume(o <= '7')
			text = append(text, o)
			r = r*8 + uint32(o-'0')
		}
		if r > 255 {
			return text, val, false
		}
		if raw {
			return text, append(val, byte(r)), true
		}
		return text, utf8(val, r), true
	case 6, 7: // \uhhhh, \Uhhhhhhhh
		k := 4
		text = append(text, '\\')
		if sym.Bool(nm + ".U") {
			text = append(text, 'U')
			k = 8
		} else {
			text = append(text, 'u')
		}
		r := uint32(0)
		for i := 0; i < k; i++ {
			var c byte
			var v uint32
			if at := i - (k - 4); at == 0 || at == 1 || sym.Param("hex", 0) == 1 {
				c, v = hexDigit(nm + ".u" + num(i))
			} else {
				c = digit(nm + ".u" + num(i))
				v = uint32(c - '0')
			}
			text = append(text, c)
			r = r<<4 | v
		}
		if r >= 0x110000 || r >= 0xD800 && r < 0xE000 {
			return text, val, false
		}
		return text, utf8(val, r), true
	}
	return nil, nil, false
}

const nliterals = 8

// makeLiteral builds a symbolic literal of the kind with up to n pieces.
func makeLiteral(nm string, kind, n int) (l literal) {
	k := n
	if n > 1 {
		k = pick(nm+".n", n+1)
	}
	var val []byte
	ok := true
	switch kind {
	case 0, 1, 2: // '...', E'...', b'...'
		l.text = append(l.text, []string{"'", "e'", "b'"}[kind]...)
		if kind == 1 && sym.Bool(nm+".E") {
			l.text[0] = 'E'
		}
		for i := 0; i < k; i++ {
			var good bool
			l.text, val, good = piece(nm+num(i), l.text, val, kind > 0, kind == 2)
			ok = ok && good
		}
		l.text = append(l.text, '\'')
		l.tok, l.str = token.String, string(val)
		if kind == 2 {
			l.tok, l.bytes = token.Bytes, val
		}
	case 3: // x'...'
		x := byte('x')
		if sym.Bool(nm + ".X") {
			x = 'X'
		}
		l.text = append(l.text, x, '\'')
		for i := 0; i < k; i++ {
			a, x := hexDigit(nm + num(i) + ".1")
			b, y := hexDigit(nm + num(i) + ".2")
			l.text = append(l.text, a, b)
			val = append(val, byte(x*16+y))
		}
		l.text = append(l.text, '\'')
		l.tok, l.bytes = token.Bytes, val
	case 4: // integer
		l.tok = token.Integer
		switch pick(nm+".sign", 3) {
		case 1:
			l.text = append(l.text, '-')
		case 2:
			l.text = append(l.text, '+')
		}
		neg := len(l.text) > 0 && l.text[0] == '-'
		u := uint64(0)
		if sym.Param("large", 0) == 1 && sym.Bool(nm+".large") { // around the limits
			l.text = append(l.text, "92233720368547758"...)
			u = 92233720368547758
			k = 2 + pick(nm+".digits", 2)
		} else {
			k = k + 1
		}
		for i := 0; i < k; i++ {
			d := digit(nm + num(i))
			l.text = append(l.text, d)
			if u > (1<<64-10)/10 {
				ok = false
				continue
			}
			u = u*10 + uint64(d-'0')
		}
		if neg {
			ok = ok && u <= 1<<63
			l.num = -int64(u)
		} else {
			ok = ok && u < 1<<63
			l.num = int64(u)
		}
	case 5: // decimal
		l.tok = token.Float
		if sym.Bool(nm + ".minus") {
			l.text = append(l.text, '-')
		}
		neg := len(l.text) > 0
		m := uint64(0)
		next := func(nm string) {
			d := digit(nm)
			l.text = append(l.text, d)
			m = m*10 + uint64(d-'0')
		}
		for i := 0; i < 2; i++ {
			next(nm + num(i))
		}
		l.text = append(l.text, '.')
		pow := uint64(1)
		for i := 0; i < k; i++ {
			next(nm + ".f" + num(i))
			pow *= 10
		}
		f := float64(m) / float64(pow)
		if neg {
			f = -f
		}
		l.float = f
	case 6: // parameter
		l.tok = token.Parameter
		l.text = append(l.text, '$')
		v := int64(0)
		for i := 0; i <= k; i++ {
			d := digit(nm + num(i))
			l.text = append(l.text, d)
			v = v*10 + int64(d-'0')
		}
		l.num = v
		ok = v > 0
	case 7: // quoted identifier
		l.tok = token.Identifier
		open, close := byte('"'), byte('"')
		switch pick(nm+".quote", 3) {
		case 1:
			open, close = '`', '`'
		case 2:
			open, close = '[', ']'
		}
		l.text = append(l.text, open)
		for i := 0; i < k; i++ {
			c := char(nm + num(i))
			sym.Assume(c != close)
			l.text = append(l.text, c)
			val = append(val, c)
		}
		l.text = append(l.text, close)
		l.name = string(val)
	}
	l.bad = !ok
	return
}

func (l literal) checkToken(sctx *scanner.ScanCtx) {
	if l.bad {
		sym.Assert(sctx.Token == token.Error && sctx.Error != nil, "a malformed literal is an error")
		return
	}
	sym.Assert(sctx.Token == l.tok, "the literal is scanned as what it is")
	if sctx.Token != l.tok {
		return
	}
	switch l.tok {
	case token.String:
		sym.Assert(sym.StrEq(sctx.String, l.str), "a string literal denotes its text")
	case token.Bytes:
		sym.Assert(sym.BytesEq(sctx.Bytes, l.bytes), "a bytes literal denotes its bytes")
	case token.Integer, token.Parameter:
		sym.Assert(sctx.Integer == l.num, "a number denotes its value")
	case token.Float:
		sym.Assert(sctx.Float == l.float, "a decimal denotes its value")
	case token.Identifier:
		sym.Assert(sym.StrEq(sctx.Identifier.String(), l.name), "a quoted identifier denotes its text")
	}
}

// Literals: several literals in a row, each in its own token; the first is
// looked at after the last was scanned.
func Literals() {
	n := sym.Param("n", 1)
	first := sym.Param("kind", -1)
	var ls []literal
	var text []byte
	for i := 0; i < n; i++ {
		kind := first
		if i > 0 || first < 0 {
			kind = pick("kind"+num(i), nliterals)
			for k := 0; k < nliterals; k++ {
				if kind == k {
					kind = k
					break
				}
			}
		}
		l := makeLiteral("l"+num(i), kind, sym.Param("len", 2))
		ls = append(ls, l)
		text = append(text, l.text...)
		text = append(text, []string{" ", ",", "", " "}[i&1+sym.Param("tight", 0)*2]...)
		if l.bad {
			break
		}
	}
	var s scanner.Scanner
	s.Init(strings.NewReader(string(text)), "text")
	got := make([]scanner.ScanCtx, 2*n+1)
	at := make([]int, n)
	j := 0
	for i, l := range ls {
		s.Scan(&got[j])
		at[i] = j
		j++
		if l.bad {
			break
		}
		if i&1 == 1 && sym.Param("tight", 0) == 0 {
			s.Scan(&got[j])
			sym.Assert(got[j].Token == ',', "the comma after a literal")
			j++
		}
	}
	last := ls[len(ls)-1]
	if !last.bad {
		s.Scan(&got[j])
		sym.Assert(got[j].Token == token.EOF, "nothing is left after the literals")
	}
	sym.Reach("scanned")
	for i, l := range ls {
		l.checkToken(&got[at[i]])
	}
}

// Row: literals of one VALUES statement keep their values.
func Row() {
	n := sym.Param("n", 2)
	var ls []literal
	text := []byte("VALUES (")
	bad := false
	for i := 0; i < n; i++ {
		kind := pick("kind"+num(i), 6)
		for k := 0; k < 6; k++ {
			if kind == k {
				kind = k
				break
			}
		}
		l := makeLiteral("l"+num(i), kind, 1)
		ls = append(ls, l)
		if i > 0 {
			text = append(text, ',')
		}
		text = append(text, l.text...)
		bad = bad || l.bad
	}
	stmt, err := one(string(text) + ")")
	sym.Reach("parsed")
	sym.Assert((err == nil) == !bad, "accepted unless a literal is malformed")
	if err != nil {
		return
	}
	v, ok := stmt.(*sql.Values)
	sym.Assert(ok && len(v.Expressions) == 1 && len(v.Expressions[0]) == n, "one value for each literal")
	for i, l := range ls {
		var want types.Value
		switch l.tok {
		case token.String:
			want = types.StringValue(l.str)
		case token.Bytes:
			want = types.BytesValue(l.bytes)
		case token.Integer:
			want = types.Int64Value(l.num)
		case token.Float:
			want = types.Float64Value(l.float)
		}
		sym.Assert(same{}.expr(v.Expressions[0][i], sql.Literal{want}), "the value of each literal")
	}
}

// Malformed: what is no literal is an error.
func Malformed() {
	c, d := char("c"), char("d")
	hex := func(b byte) bool {
		return b >= '0' && b <= '9' || b >= 'a' && b <= 'f' || b >= 'A' && b <= 'F'
	}
	var text string
	cd := string([]byte{c, d})
	switch pick("form", 10) {
	case 0: // not terminated
		sym.Assume(c != '\'' && d != '\'')
		text = "'" + cd
	case 1:
		sym.Assume(c != '\'' && d != '\'' && c != '\\' && d != '\\')
		text = []string{"e'", "E'", "b'"}[pick("prefix", 3)] + cd
	case 2: // hex bytes
		sym.Assume(!hex(c) && c != '\'' || !hex(d))
		sym.Assume(c != '\'' || d != ' ')
		sym.Assume(!(c == '\''))
		text = "x'" + cd + "'"
	case 3: // hex escape
		sym.Assume(!hex(c) || !hex(d))
		text = "e'\\x" + cd + "'"
	case 4: // octal escape
		sym.Assume(c < '0' || c > '7' || d < '0' || d > '7')
		text = "b'\\1" + cd + "'"
	case 5:
		sym.Assume(!hex(c) || !hex(d))
		text = "e'\\u00" + cd + "'"
	case 6:
		sym.Assume(!hex(c) || !hex(d))
		text = "b'\\U000000" + cd + "'"
	case 7: // parameter
		sym.Assume(c < '0' || c > '9')
		text = "$" + cd
	case 8:
		sym.Assume(c != '"' && d != '"')
		text = "\"" + cd
	case 9:
		sym.Assume(c != ']' && d != ']')
		text = "[" + cd
	}
	var s scanner.Scanner
	s.Init(strings.NewReader(text), "text")
	var sctx scanner.ScanCtx
	s.Scan(&sctx)
	sym.Reach("scanned")
	sym.Assert(sctx.Token == token.Error && sctx.Error != nil, "a malformed literal is an error")
	_, err := parser.NewParser(strings.NewReader("VALUES (1, "+text+")"), "text").Parse()
	sym.Assert(err != nil, "a statement with a malformed literal is an error")
}

// Continued: string constants separated by white space with a newline are one
// constant; without a newline they are two.
func Continued() {
	n := sym.Param("parts", 3)
	ws := []byte(" \n\t\r\v\f")
	text := []byte([]string{"", "e"}[pick("prefix", 2)])
	var want [][]byte
	var v []byte
	for i := 0; i < n; i++ {
		if i > 0 {
			nl := false
			k := 1 + pick("spaces"+num(i), sym.Param("spaces", 2))
			for j := 0; j < k; j++ {
				w := ws[pick("w"+num(i)+num(j), len(ws))]
				text = append(text, w)
				nl = nl || w == '\n' || w == '\r'
			}
			if !nl {
				want = append(want, v)
				v = nil
			}
		}
		x := char("c" + num(i))
		sym.Assume(x != '\'')
		sym.Assume(x != '\\')
		text = append(text, '\'', x, '\'')
		v = append(v, x)
	}
	want = append(want, v)
	var s scanner.Scanner
	s.Init(strings.NewReader(string(text)), "text")
	sym.Reach("scanned")
	for _, v := range want {
		var x scanner.ScanCtx
		s.Scan(&x)
		sym.Assert(x.Token == token.String && sym.StrEq(x.String, string(v)), "a string for those without a newline between them")
	}
	var x scanner.ScanCtx
	s.Scan(&x)
	sym.Assert(x.Token == token.EOF, "and no more")
}
