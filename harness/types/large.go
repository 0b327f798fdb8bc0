package types

import (
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/lib"
	"github.com/leftmike/maho/zzverif/sym"
)

var lengths = []int{7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 1000, 4096}

func repeat(b byte, n int) []byte {
	out := make([]byte, n)
	for i := range out {
		out[i] = b
	}
	return out
}

// CompareLong: strings and bytes which share a long start.
func CompareLong() {
	n := lengths[sym.Choose("length", len(lengths))]
	start := repeat([]byte{0, 'a', 0xFF}[sym.Choose("fill", 3)], n)
	kind := lib.String + sym.Choose("kind", 2)
	val := func(nm string) types.Value {
		s := append([]byte(nil), start...)
		s = append(s, sym.Bytes(nm, sym.Choose(nm+".len", 3))...)
		if kind == lib.String {
			return types.StringValue(s)
		}
		return types.BytesValue(s)
	}
	a, b := val("a"), val("b")
	c := types.Compare(a, b)
	sym.Reach("compared")
	sym.Observe("c", int64(c))
	sym.Assert(sym.And(sym.Iff(c < 0, less(a, b)), sym.Iff(c > 0, less(b, a))), "the comparison is the order of the values")
}

// ConvertLong: text of any length against columns of any size.
func ConvertLong() {
	n := append([]int{0}, lengths...)[sym.Choose("length", len(lengths)+1)]
	s := append(repeat('x', n), sym.Bytes("tail", 1)...)
	sym.Assume(s[n] != '\\')
	ct := types.ColumnType{Type: types.StringType, Size: sym.Uint32("size"), Fixed: sym.Bool("fixed")}
	var v types.Value = types.StringValue(s)
	if sym.Choose("bytes", 2) == 1 {
		ct.Type, v = types.BytesType, types.BytesValue(s)
	}
	sym.Assume(ct.Size > 0)
	r, err := types.ConvertValue(ct, v)
	sym.Reach("converted")
	sym.Assert((err == nil) == (uint64(n+1) <= uint64(ct.Size)), "a value is refused exactly when it is longer than its column")
	if err != nil {
		return
	}
	var got []byte
	switch r := r.(type) {
	case types.StringValue:
		sym.Assert(ct.Type == types.StringType, "a string")
		got = []byte(r)
	case types.BytesValue:
		sym.Assert(ct.Type == types.BytesType, "bytes")
		got = r
	default:
		sym.Fail("the kind of the column")
	}
	sym.Assert(sym.BytesEq(got, s), "the value is kept")
}

// ConvertWide: rows of many columns, one of them with any value.
func ConvertWide() {
	cols := sym.Param("cols", 12)
	at := sym.Choose("at", cols)
	n := at + 1 + sym.Choose("more", cols-at)
	var cts []types.ColumnType
	var row types.Row
	kinds := []int{lib.Int, lib.String, lib.Bool, lib.Float, lib.Bytes}
	notNull := sym.Choose("notnull", 2) == 1
	for i := 0; i < cols; i++ {
		ct := types.ColumnType{NotNull: notNull && i == at}
		switch kinds[i%5] {
		case lib.Int:
			ct.Type, ct.Size = types.Int64Type, []uint32{2, 4, 8}[i%3]
		case lib.String:
			ct.Type, ct.Size = types.StringType, 1
		case lib.Bytes:
			ct.Type, ct.Size = types.BytesType, 1
		case lib.Float:
			ct.Type, ct.Size = types.Float64Type, 8
		default:
			ct.Type = types.BoolType
		}
		cts = append(cts, ct)
		if i < n {
			if i == at {
				row = append(row, lib.Value("v", []int{lib.Null, lib.Int, lib.Bool, lib.Bytes}[sym.Choose("kind", 4)], 2))
				if _, ok := row[i].(types.Int64Value); ok && ct.Type == types.StringType {
					sym.Stop()
				}
			} else {
				row = append(row, nil)
			}
		}
	}
	r, err := types.ConvertRow(cts, row)
	sym.Reach("converted")
	want, e := types.ConvertValue(cts[at], row[at])
	sym.Assert((err == nil) == (e == nil), "rows are refused exactly when a value is")
	if err != nil {
		return
	}
	sym.Assert(len(r) == cols, "a value for every column")
	for i := range r {
		if i == at {
			sym.Assert(lib.Same(r[i], want), "each value is converted for its column")
		} else {
			sym.Assert(r[i] == nil, "the others are NULL")
		}
	}
}

// ManyNames: many names are in use before the one which any other is compared
// with.
func ManyNames() {
	n := sym.Param("names", 60)
	// The names differ in two places at the start, inside or at the end.
	place := [][2]string{{"q", ""}, {"", "_remains"}, {"the_same", "as_all"}, {"_begins_", ""}}[sym.Choose("place", 4)]
	name := func(i int) string {
		return place[0] + string([]byte{byte('a' + i/26), byte('a' + i%26)}) + place[1]
	}
	fill := sym.Param("fill", 1000)
	for i := 0; i < fill; i++ {
		nm := "a_name_to_be_forgotten_" + string([]byte{byte('a' + i/676), byte('a' + i/26%26), byte('a' + i%26)})
		sym.Assert(types.ID(nm, true).String() == nm, "a name prints as itself")
	}
	ids := make([]types.Identifier, n)
	for i := range ids {
		ids[i] = types.ID(name(i), i%3 == 0)
	}
	s := sym.String("s", 2)
	sym.Assume(sym.And(sym.And(s[0] >= 'A', s[0] < 0x80), sym.And(s[1] >= 'A', s[1] < 0x80)))
	s = place[0] + s + place[1]
	quoted := sym.Bool("quoted")
	id := types.ID(s, quoted)
	kw, text := ref(s, quoted)
	sym.Assume(kw < 0)
	sym.Reach("named")
	got := id.String()
	sym.Assert(sym.StrEq(got, text), "a name prints as its folded text")
	eq := true
	for i := range ids {
		eq = sym.And(eq, (id == ids[i]) == sym.StrEq(text, name(i)))
	}
	sym.Assert(eq, "two names are the same identifier exactly when they are the same name")
	for i := range ids {
		sym.Assert(ids[i].String() == name(i), "every name still prints as itself")
		sym.Assert(types.ID(name(i), true) == ids[i], "every name is still the same identifier")
	}
}
