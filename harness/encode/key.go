package encode

import (
	"github.com/leftmike/maho/encode"
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/sym"
)

// Column kinds.
const (
	kBool = iota
	kInt
	kFloat
	kString
	kBytes
	nKinds
)

// symValue returns a symbolic value of the kind, or nil for NULL.
func symValue(name string, kind, maxLen int) types.Value {
	if sym.Choose(name+".null", 2) == 1 {
		return nil
	}
	switch kind {
	case kBool:
		return types.BoolValue(sym.Bool(name))
	case kInt:
		return types.Int64Value(sym.Int64(name))
	case kFloat:
		return types.Float64Value(sym.Float64(name))
	case kString:
		return types.StringValue(sym.String(name, sym.Choose(name+".len", maxLen+1)))
	}
	return types.BytesValue(sym.Bytes(name, sym.Choose(name+".len", maxLen+1)))
}

// refLess and refEq state the intended order of two values of one kind:
// NULL first; false < true; numeric; NaN below every other float and equal to
// itself, both zeros equal; strings and bytes lexicographic.
func refLess(kind int, a, b types.Value) bool {
	if a == nil || b == nil {
		return a == nil && b != nil
	}
	switch kind {
	case kBool:
		return sym.And(!bool(a.(types.BoolValue)), bool(b.(types.BoolValue)))
	case kInt:
		return a.(types.Int64Value) < b.(types.Int64Value)
	case kFloat:
		x, y := a.(types.Float64Value), b.(types.Float64Value)
		return sym.Or(x < y, sym.And(x != x, y == y))
	case kString:
		return a.(types.StringValue) < b.(types.StringValue)
	}
	return sym.BytesLess(a.(types.BytesValue), b.(types.BytesValue))
}

func refEq(kind int, a, b types.Value) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	switch kind {
	case kBool:
		return a.(types.BoolValue) == b.(types.BoolValue)
	case kInt:
		return a.(types.Int64Value) == b.(types.Int64Value)
	case kFloat:
		x, y := a.(types.Float64Value), b.(types.Float64Value)
		return sym.Or(x == y, sym.And(x != x, y != y))
	case kString:
		return sym.StrEq(string(a.(types.StringValue)), string(b.(types.StringValue)))
	}
	return sym.BytesEq(a.(types.BytesValue), b.(types.BytesValue))
}

// KeyOrder: for two rows over the same key columns, the bytewise order of the
// encoded keys is the declared row order, and equal keys mean equal columns.
func KeyOrder() {
	ncols := sym.Param("cols", 1)
	maxLen := sym.Param("len", 3)
	var key []types.ColumnKey
	var a, b types.Row
	less, eq := false, true
	perm := 0
	if ncols == 2 {
		perm = sym.Choose("perm", 2)
	}
	kinds := make([]int, ncols)
	for i := 0; i < ncols; i++ {
		n := string(rune('a' + i))
		kinds[i] = sym.Choose("kind"+n, nKinds)
		a = append(a, symValue("a"+n, kinds[i], maxLen))
		b = append(b, symValue("b"+n, kinds[i], maxLen))
	}
	for i := 0; i < ncols; i++ {
		c := i
		if perm == 1 {
			c = ncols - 1 - i
		}
		n := string(rune('a' + i))
		rev := sym.Choose("rev"+n, 2) == 1
		key = append(key, types.MakeColumnKey(types.ColumnNum(c), rev))
		l, e := refLess(kinds[c], a[c], b[c]), refEq(kinds[c], a[c], b[c])
		if rev && a[c] != nil && b[c] != nil {
			l = refLess(kinds[c], b[c], a[c])
		}
		less = sym.Or(less, sym.And(eq, l))
		eq = sym.And(eq, e)
	}
	ka := encode.MakeKey(key, a)
	kb := encode.MakeKey(key, b)
	sym.Reach("keys")
	sym.Observe("lena", int64(len(ka)))
	sym.ObserveStr("ka", string(ka))
	ok := sym.And(sym.Iff(sym.BytesEq(ka, kb), eq), sym.Iff(sym.BytesLess(ka, kb), less))
	if len(ka) < len(kb) {
		ok = sym.And(ok, !sym.BytesEq(ka, kb[:len(ka)]))
	}
	sym.Assert(ok, "key order is row order, equal keys mean equal columns, no prefixes")
}
