package parse

import (
	"strings"

	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/sym"
)

// Statements with something of every kind in them; ~ and # stand for a part of
// a name and a digit which differ from one use to the other.
var keptMenu = []string{
	"SELECT qa~, # AS qb~, qt~.* FROM qt~ AS qu~, qs~.qv~ WHERE qa~ = # GROUP BY qa~, qb~ HAVING qa~ > # ORDER BY qa~ DESC, qb~",
	"SELECT * FROM qt~ JOIN qu~ USING (qa~, qb~) LEFT JOIN qv~ ON qa~ = #",
	"SELECT (SELECT qa~ FROM qt~), qf~(qa~, #, x'0#'), EXISTS (SELECT #), qa~ IN (SELECT qb~), -qa~ || 's#' || b'y#'",
	"INSERT INTO qs~.qt~ (qa~, qb~) VALUES (#, DEFAULT), (qa~, 's#'), (b'#', NULL)",
	"UPDATE qs~.qt~ SET qa~ = #, qb~ = DEFAULT WHERE qa~ = 's#'",
	"DELETE FROM qt~ WHERE qa~ = # AND qb~ = x'1#'",
	"VALUES (#, qa~, 's#'), (qb~, #, TRUE)",
	"CREATE TABLE qs~.qt~ (qa~ INT DEFAULT # NOT NULL, qb~ VARCHAR(1#), qc~ BYTES REFERENCES qr~ (qa~) ON DELETE CASCADE, PRIMARY KEY (qa~ DESC, qb~), CONSTRAINT qk~ UNIQUE (qb~), CHECK (qa~ > #), FOREIGN KEY (qa~, qb~) REFERENCES qr~ (qb~, qc~))",
	"CREATE TABLE IF NOT EXISTS qt~ (qb~ BIGINT UNIQUE, qc~ CHAR(#) CHECK (qc~ = 's#'))",
	"CREATE UNIQUE INDEX qi~ ON qt~ USING BTREE (qa~, qb~ DESC, qc~)",
	"CREATE INDEX qi~ ON qt~ (qc~)",
	"ALTER TABLE qt~ ADD CONSTRAINT qk~ FOREIGN KEY (qa~, qb~) REFERENCES qr~ (qc~, qd~), DROP CONSTRAINT qk2~",
	"DROP TABLE qa~, qb~.qc~, qd~ CASCADE",
	"DROP INDEX qi~ ON qt~",
	"CREATE DATABASE qd~ WITH PATH = 's#' qo~ = #",
	"CREATE SCHEMA qd~.qs~",
	"DROP SCHEMA IF EXISTS qs~",
	"SET qv~ = 's#'",
	"SHOW TABLES FROM qs~",
	"SHOW COLUMNS FROM qt~",
	"EXPLAIN SELECT qa~, #",
	"BEGIN", "COMMIT",
}

// Kept: statements keep what was read for them while others are parsed after
// them, of the same and of other kinds.
func Kept() {
	n := len(keptMenu)
	i, j := choose("i", n), choose("j", n)
	order := [][]int{{i, j, i}, {j, i, i}}[choose("order", 2)]
	var texts []string
	for k, m := range order {
		t := strings.Replace(keptMenu[m], "~", string(rune('x'+k)), -1)
		d := string(rune('1' + k))
		if m == i && k == 0 {
			d = string([]byte{digit("d")})
			if d == "0" {
				sym.Stop() // a length of nothing
			}
		}
		texts = append(texts, strings.Replace(t, "#", d, -1))
	}
	p := parser.NewParser(strings.NewReader(strings.Join(texts, ";\n")+";"), "text")
	var gots, wants []sql.Stmt
	for _, t := range texts {
		want, ok := outcome(t)
		got, err := p.Parse()
		sym.Assert(ok && err == nil, "accepted")
		sym.Assert(same{}.stmt(got, want), "the same statement as if it stood alone")
		gots, wants = append(gots, got), append(wants, want)
	}
	sym.Reach("parsed")
	for k := range gots {
		sym.Assert(same{}.stmt(gots[k], wants[k]), "still the same statement when the rest is parsed")
	}
}

// Copies: several COPY statements, each with rows after it, and others between.
func Copies() {
	n := sym.Param("copies", 3)
	type copied struct {
		want sql.Copy
		got  *sql.Copy
		line int
		rows string
	}
	var list []copied
	text := ""
	between := []string{"", "SELECT 1, 'a\nb';\n", "INSERT INTO qt (qa) VALUES (1);"}
	var bet []int
	for i := 0; i < n; i++ {
		k := choose("between"+num(i), len(between))
		bet = append(bet, k)
		text += between[k]
		var c copied
		nm := "q" + string(rune('a'+i))
		c.want = sql.Copy{Table: types.TableName{Table: id(nm)}, Delimiter: '\t'}
		text += "COPY " + nm
		if cols := choose("cols"+num(i), 3); cols > 0 {
			text += " ("
			for j := 0; j < cols; j++ {
				col := nm + string(rune('x'+j))
				c.want.Columns = append(c.want.Columns, id(col))
				if j > 0 {
					text += ", "
				}
				text += col
			}
			text += ")"
		}
		text += " FROM STDIN DELIMITER ',';\n"
		c.want.Delimiter = ','
		c.line, _ = position(text, len(text))
		for j := choose("rows"+num(i), 2); j > 0; j-- {
			ch := sym.Byte("ch" + num(i))
			sym.Assume(sym.And(ch < 0x80, ch != '\n'))
			c.rows += "1," + string([]byte{ch}) + "\n"
		}
		text += c.rows
		list = append(list, c)
	}
	p := parser.NewParser(strings.NewReader(text+"COMMIT;"), "text")
	for i := range list {
		c := &list[i]
		if bet[i] > 0 {
			stmt, err := p.Parse()
			_, ok := stmt.(*sql.Copy)
			sym.Assert(err == nil && stmt != nil && !ok, "the statement between")
		}
		stmt, err := p.Parse()
		sym.Assert(err == nil, "accepted")
		got, ok := stmt.(*sql.Copy)
		sym.Assert(ok && same{}.stmt(got, &c.want), "the statement as written")
		sym.Assert(got.FromLine == c.line, "the line at which the rows start")
		c.got = got
		for _, want := range c.rows {
			r, _, err := got.From.ReadRune()
			sym.Assert(err == nil && r == want, "the rows follow the statement")
		}
	}
	stmt, err := p.Parse()
	_, ok := stmt.(*sql.Commit)
	sym.Assert(err == nil && ok, "the statement after the rows")
	sym.Reach("copied")
	for i := range list {
		sym.Assert(same{}.stmt(list[i].got, &list[i].want), "still the same statement when the rest is parsed")
	}
}
