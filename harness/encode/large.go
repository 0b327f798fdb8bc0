package encode

import (
	"github.com/leftmike/maho/encode"
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/sym"
)

var lengths = []int{7, 8, 9, 15, 16, 31, 32, 63, 64, 127, 128, 254, 255, 256, 1000}

func repeat(b byte, n int) []byte {
	out := make([]byte, n)
	for i := range out {
		out[i] = b
	}
	return out
}

// agree: the order of the keys of two rows is as given.
func agree(key []types.ColumnKey, a, b types.Row, less, eq bool) {
	ka := encode.MakeKey(key, a)
	kb := encode.MakeKey(key, b)
	sym.Reach("keys")
	sym.Observe("lena", int64(len(ka)))
	ok := sym.And(sym.Iff(sym.BytesEq(ka, kb), eq), sym.Iff(sym.BytesLess(ka, kb), less))
	if len(ka) < len(kb) {
		ok = sym.And(ok, !sym.BytesEq(ka, kb[:len(ka)]))
	}
	sym.Assert(ok, "key order is row order, equal keys mean equal columns, no prefixes")
}

// KeyLong: strings and bytes which share a long start.
func KeyLong() {
	n := lengths[sym.Choose("length", len(lengths))]
	start := repeat([]byte{0, 1, 'a', 0xFF}[sym.Choose("fill", 4)], n)
	kind := kString + sym.Choose("kind", 2)
	max := sym.Param("len", 1)
	val := func(nm string) types.Value {
		s := append([]byte(nil), start...)
		s = append(s, sym.Bytes(nm, sym.Choose(nm+".len", max+1))...)
		if kind == kString {
			return types.StringValue(s)
		}
		return types.BytesValue(s)
	}
	a, b := types.Row{types.BoolValue(true), val("a")}, types.Row{types.BoolValue(false), val("b")}
	rev := sym.Choose("rev", 2) == 1
	l, e := refLess(kind, a[1], b[1]), refEq(kind, a[1], b[1])
	if rev {
		l = refLess(kind, b[1], a[1])
	}
	// The second key column decides between equal ones; b is less.
	key := []types.ColumnKey{types.MakeColumnKey(1, rev), types.MakeColumnKey(0, false)}
	_ = e
	agree(key, a, b, l, false)
	agree(key[:1], a, b, l, e)
}

// KeyWide: keys of many columns: equal before one column, different after it.
func KeyWide() {
	cols := sym.Param("cols", 9)
	at := sym.Choose("at", cols)
	perm := sym.Choose("perm", 3)
	revs := sym.Choose("revs", 3)
	kinds := make([]int, cols)
	a, b := make(types.Row, cols), make(types.Row, cols)
	key := make([]types.ColumnKey, cols)
	plain := func(kind, i int) types.Value {
		switch kind {
		case kBool:
			return types.BoolValue(i > 0)
		case kInt:
			return types.Int64Value(i)
		case kFloat:
			return types.Float64Value(i)
		case kString:
			return types.StringValue(string(rune('A' + i)))
		}
		return types.BytesValue([]byte{byte(i)})
	}
	less, eq := false, true
	for i := 0; i < cols; i++ {
		c := i
		switch perm {
		case 1:
			c = cols - 1 - i
		case 2:
			c = (i + cols/2) % cols
		}
		kinds[c] = (c + i) % nKinds
		rev := revs == 1 || revs == 2 && i%2 == 1
		key[i] = types.MakeColumnKey(types.ColumnNum(c), rev)
		switch {
		case i < at:
			if i%4 != 3 {
				a[c] = plain(kinds[c], 1)
			}
			b[c] = a[c]
		case i == at:
			a[c], b[c] = symValue("a", kinds[c], 1), symValue("b", kinds[c], 1)
			less, eq = refLess(kinds[c], a[c], b[c]), refEq(kinds[c], a[c], b[c])
			if rev && a[c] != nil && b[c] != nil {
				less = refLess(kinds[c], b[c], a[c])
			}
		default:
			// Every later column says that a is less.
			a[c], b[c] = plain(kinds[c], 0), plain(kinds[c], 1)
			if rev {
				a[c], b[c] = b[c], a[c]
			}
		}
	}
	last := at == cols-1
	agree(key, a, b, sym.Or(less, sym.And(eq, !last)), sym.And(eq, last))
}
