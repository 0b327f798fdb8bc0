package parse

import (
	"errors"
	"io"
	"strings"

	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/zzverif/sym"
)

var errRead = errors.New("the line is dead")

// badReader fails at a symbolic position, once or from there on.
type badReader struct {
	text  string
	pos   int
	at    int
	once  bool
	fired bool
}

func (r *badReader) ReadRune() (rune, int, error) {
	if r.fired && !r.once || !r.fired && r.pos == r.at {
		r.fired = true
		return 0, 0, errRead
	}
	if r.pos >= len(r.text) {
		return 0, 0, io.EOF
	}
	r.pos++
	return rune(r.text[r.pos-1]), 1, nil
}

var faultTexts = []string{
	"BEGIN",
	"SELECT a.b, 'it''s', e'\\n\\101\\x41\\u0041', b'\\xff', x'00ff' FROM \"q\"\"r\" AS s WHERE a <= -1.5e3",
	"SELECT c /* com*ment */ -- line\n + $12 FROM t AS u",
	"INSERT INTO t (a, b) VALUES (1, DEFAULT), (- 2, NULL)",
	"UPDATE t SET a = a || b WHERE NOT c IS NULL",
	"CREATE TABLE t (a INT PRIMARY KEY, b CHAR(12) NOT NULL)",
	"SET database TO 'x'",
	"SELECT a >> 2 = 3 == 4 <> 5",
	"VALUES (1.5, 'x'\n'y')",
	"DROP TABLE IF EXISTS a.b.c",
	"SELECT",
	"SELECT 'abc' 1",
	"SELECT (SELECT * FROM t), count(*)",
}

// ReadFaults: statements from a reader which fails somewhere.
func ReadFaults() {
	n := sym.Param("n", 1)
	var texts []string
	for i := 0; i < n; i++ {
		texts = append(texts, faultTexts[pick("stmt"+num(i), len(faultTexts))])
	}
	texts = append(texts, "COMMIT")
	text := strings.Join(texts, ";") + ";"
	r := &badReader{text: text, at: int(sym.Byte("at")), once: sym.Bool("once")}
	sym.Assume(r.at <= len(text))
	for _, t := range texts {
		// After a failure inside quotes or a comment what follows is not what
		// it was.
		if strings.ContainsAny(t, "'\"") || strings.Contains(t, "*/") {
			sym.Assume(!r.once)
		}
	}
	p := parser.NewParser(r, "text")
	end := 0
	lost := false // a statement was lost to the failure
	for _, t := range texts {
		end += len(t) + 1
		start := end - len(t) - 1
		if r.at >= start && r.at < end {
			stmt, err := p.Parse()
			if err != nil && !r.fired {
				// the statement was wrong anyway
				sym.Assert(stmt == nil, "an error and no statement")
				_, ok := outcome(t)
				sym.Assert(!ok, "accepted or rejected as if it stood alone")
				stmt, err = p.Parse()
				sym.Assert(stmt == nil && err != nil, "the failure is reported")
			}
			sym.Assert(stmt == nil && err != nil && err != io.EOF, "the failure is reported")
			if _, ok := outcome(t); ok {
				sym.Assert(strings.Contains(err.Error(), errRead.Error()), "as what it is")
			}
			lost = true
			sym.Reach("failed")
			if !r.once {
				break
			}
			continue
		}
		want, ok := outcome(t)
		got, err := p.Parse()
		sym.Assert((err == nil) == ok, "accepted or rejected as if it stood alone")
		if ok {
			sym.Assert(same{}.stmt(got, want), "the same statement as if it stood alone")
		}
		if lost {
			sym.Reach("recovered")
		}
	}
	var last sql.Stmt
	var err error
	for i := 0; i < 2; i++ {
		if r.at == len(text) && (i == 0 || !r.once) || lost && !r.once {
			last, err = p.Parse()
			sym.Assert(last == nil && err != nil && strings.Contains(err.Error(), errRead.Error()), "the failure is reported, again and again if it stays")
		}
	}
	if r.once {
		last, err = p.Parse()
		sym.Assert(last == nil && err == io.EOF, "then the text ends")
	}
}

// ReadFaultsCopy: the rows after COPY come from the same failing reader.
func ReadFaultsCopy() {
	head := []string{"COPY t (a, b) FROM STDIN;", "COPY t FROM STDIN DELIMITER ',';", "BEGIN; COPY t FROM STDIN;"}[pick("stmt", 3)]
	rows := "ab,\tc\nd\n\\.\n"
	head2 := head + " x" // the rest of the line is no row
	text := head2 + "\n" + rows
	r := &badReader{text: text, at: int(sym.Byte("at")), once: sym.Bool("once")}
	sym.Assume(r.at <= len(text))
	p := parser.NewParser(r, "text")
	if head[0] == 'B' {
		got, err := p.Parse()
		sym.Assert((err == nil) == (r.at >= len("BEGIN;")), "the failure is reported")
		if err == nil {
			_, ok := got.(*sql.Begin)
			sym.Assert(ok, "the statement before")
		}
	}
	over := r.once && r.fired // the failure is over
	got, err := p.Parse()
	if r.at < len(head) && !over {
		sym.Reach("failed")
		sym.Assert(got == nil && err != nil && strings.Contains(err.Error(), errRead.Error()), "the failure is reported")
		return
	}
	if err != nil {
		// found while looking for the end of the line
		sym.Assert(!over && r.at <= len(head2) && strings.Contains(err.Error(), errRead.Error()), "the failure is reported")
		return
	}
	sym.Reach("rows")
	from := got.(*sql.Copy).From
	for k := 0; k < len(rows); k++ {
		c, _, err := from.ReadRune()
		if len(head2)+1+k >= r.at && !over {
			sym.Assert(err == errRead, "the failure is reported")
			return
		}
		sym.Assert(err == nil && c == rune(rows[k]), "the rows up to the failure")
	}
	_, _, err = from.ReadRune()
	if over {
		sym.Assert(err == io.EOF, "then the text ends")
	} else {
		sym.Assert(err == errRead, "the failure is reported")
	}
}

// ReadFaultsLong: a failure anywhere in long tokens and separators.
func ReadFaultsLong() {
	n := sym.Param("len", 120)
	long := func(c string) string { return strings.Repeat(c, n) }
	var text string
	quoted := true
	switch pick("token", 8) {
	case 0:
		text, quoted = "SELECT "+long("ab"), false
	case 1:
		text = "SELECT '" + long("ab") + "'"
	case 2:
		text = "SELECT \"" + long("ab") + "\""
	case 3:
		text = "SELECT x'" + long("00") + "'"
	case 4:
		text = "SELECT e'" + long("\\n") + "'"
	case 5:
		text = "SELECT /*" + long(" *") + "*/ 1"
	case 6:
		text, quoted = "SELECT "+long(" \n")+" 1", false
	case 7:
		text, quoted = "SELECT 1."+long("0")+long("0"), false
	}
	all := text + "; COMMIT;"
	at := int(sym.Uint32("at") & 0xFFF)
	sym.Assume(at < len(all))
	r := &badReader{text: all, at: at, once: sym.Bool("once")}
	if quoted {
		sym.Assume(!r.once)
	}
	p := parser.NewParser(r, "text")
	got, err := p.Parse()
	if at > len(text) {
		want, ok := outcome(text)
		sym.Assert(ok && err == nil && same{}.stmt(got, want), "the same statement as if it stood alone")
		got, err = p.Parse()
	}
	sym.Reach("failed")
	sym.Assert(got == nil && err != nil && strings.Contains(err.Error(), errRead.Error()), "the failure is reported")
	if r.once {
		if at <= len(text) {
			got, err = p.Parse()
			_, ok := got.(*sql.Commit)
			sym.Assert(ok && err == nil, "the next statement is read")
		}
		got, err = p.Parse()
		sym.Assert(got == nil && err == io.EOF, "then the text ends")
	} else {
		got, err = p.Parse()
		sym.Assert(got == nil && err != nil && strings.Contains(err.Error(), errRead.Error()), "again and again if it stays")
	}
}
