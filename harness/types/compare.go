package types

import (
	"github.com/leftmike/maho/encode"
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/lib"
	"github.com/leftmike/maho/zzverif/sym"
)

func rank(kind int) int {
	switch kind {
	case lib.Null:
		return 0
	case lib.Bool:
		return 1
	case lib.Int, lib.Float:
		return 2
	case lib.String:
		return 3
	}
	return 4
}

// intLessFloat and floatLessInt compare exactly: NaN is below every integer.
func intLessFloat(i types.Int64Value, f types.Float64Value) bool {
	t := types.Int64Value(f)
	return sym.Or(f >= 9223372036854775808.0,
		sym.And(sym.And(f >= -9223372036854775808.0, f < 9223372036854775808.0),
			sym.Or(i < t, sym.And(i == t, types.Float64Value(t) < f))))
}

func floatLessInt(f types.Float64Value, i types.Int64Value) bool {
	t := types.Int64Value(f)
	return sym.Or(sym.Or(f != f, f < -9223372036854775808.0),
		sym.And(sym.And(f >= -9223372036854775808.0, f < 9223372036854775808.0),
			sym.Or(t < i, sym.And(i == t, f < types.Float64Value(t)))))
}

func less(a, b types.Value) bool {
	ka, kb := lib.Kind(a), lib.Kind(b)
	if rank(ka) != rank(kb) {
		return rank(ka) < rank(kb)
	}
	if ka == lib.Int && kb == lib.Float {
		return intLessFloat(a.(types.Int64Value), b.(types.Float64Value))
	}
	if ka == lib.Float && kb == lib.Int {
		return floatLessInt(a.(types.Float64Value), b.(types.Int64Value))
	}
	return lib.Less(ka, a, b)
}

// Compare: the comparison of every pair of values is the reference order.
func Compare() {
	maxLen := sym.Param("len", 3)
	a := lib.Value("a", sym.Choose("ka", lib.NKinds), maxLen)
	b := lib.Value("b", sym.Choose("kb", lib.NKinds), maxLen)
	c := types.Compare(a, b)
	sym.Reach("compared")
	lt, gt := less(a, b), less(b, a)
	ok := sym.And(sym.Iff(c < 0, lt), sym.Iff(c > 0, gt))
	sym.Assert(ok, "comparison is the total order of values")
}

// CompareKey: within one column type comparison and key order agree.
func CompareKey() {
	maxLen := sym.Param("len", 3)
	k := 1 + sym.Choose("kind", lib.NKinds-1)
	a := lib.NullOr("a", k, maxLen)
	b := lib.NullOr("b", k, maxLen)
	key := []types.ColumnKey{1}
	ka, kb := encode.MakeKey(key, types.Row{a}), encode.MakeKey(key, types.Row{b})
	c := types.Compare(a, b)
	sym.Reach("compared")
	sym.Assert(sym.And(sym.Iff(c < 0, sym.BytesLess(ka, kb)), sym.Iff(c == 0, sym.BytesEq(ka, kb))), "comparison agrees with key order")
}
