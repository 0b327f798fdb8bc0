package parse

import (
	"strings"

	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/sym"
)

// TypePrint: a column type prints as the SQL which declares it.
func TypePrint() {
	var ct types.ColumnType
	switch choose("kind", 4) {
	case 0:
		ct = types.ColumnType{Type: types.BoolType, Size: 1}
	case 1:
		ct = types.ColumnType{Type: types.Float64Type, Size: 8}
	case 2:
		ct = types.ColumnType{Type: types.Int64Type, Size: []uint32{2, 4, 8}[choose("int", 3)]}
	case 3:
		ct = types.ColumnType{Type: types.StringType, Fixed: sym.Bool("fixed")}
		if sym.Bool("bytes") {
			ct.Type = types.BytesType
		}
		// Any size of up to three digits, and sizes near the limits.
		ct.Size = []uint32{0, 65500, 42949672 * 100}[choose("about", 3)]
		ct.Size += uint32(sym.Byte("size"))
		sym.Assume(ct.Size > 0 && ct.Size <= types.MaxColumnSize)
	}
	ct.NotNull = sym.Bool("notnull")
	s := ct.String()
	text := "CREATE TABLE t (a " + s
	if ct.NotNull {
		text += " NOT NULL"
	}
	stmt, err := parser.NewParser(strings.NewReader(text+")"), "text").Parse()
	sym.Assert(err == nil, "the printed type is accepted")
	got := stmt.(*sql.CreateTable).ColumnTypes[0]
	sym.Reach("printed")
	sym.Assert(got.Type == ct.Type && got.Size == ct.Size && got.Fixed == ct.Fixed && got.NotNull == ct.NotNull, "and declares the same type")
}
