// Package lib holds reference definitions shared by the harnesses. Nothing
// here calls the code under test.
package lib

import (
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/sym"
)

// Value kinds, in the order of types.Compare.
const (
	Null = iota
	Bool
	Int
	Float
	String
	Bytes
	NKinds
)

// Kind returns the kind of a value.
func Kind(v types.Value) int {
	switch v.(type) {
	case nil:
		return Null
	case types.BoolValue:
		return Bool
	case types.Int64Value:
		return Int
	case types.Float64Value:
		return Float
	case types.StringValue:
		return String
	case types.BytesValue:
		return Bytes
	}
	return -1
}

// Value returns a symbolic value of the kind; strings and bytes have up to
// maxLen bytes.
func Value(name string, kind, maxLen int) types.Value {
	switch kind {
	case Null:
		return nil
	case Bool:
		return types.BoolValue(sym.Bool(name))
	case Int:
		return types.Int64Value(sym.Int64(name))
	case Float:
		return types.Float64Value(sym.Float64(name))
	case String:
		return types.StringValue(sym.String(name, sym.Choose(name+".len", maxLen+1)))
	}
	return types.BytesValue(sym.Bytes(name, sym.Choose(name+".len", maxLen+1)))
}

// NullOr returns NULL or a symbolic value of the kind.
func NullOr(name string, kind, maxLen int) types.Value {
	if sym.Choose(name+".null", 2) == 1 {
		return nil
	}
	return Value(name, kind, maxLen)
}

// Less and Eq state the order of two values of one kind (or NULL): NULL
// first; false < true; numeric; NaN below every other float and equal to
// itself, both zeros equal; strings and bytes lexicographic.
func Less(kind int, a, b types.Value) bool {
	if a == nil || b == nil {
		return a == nil && b != nil
	}
	switch kind {
	case Bool:
		return sym.And(!bool(a.(types.BoolValue)), bool(b.(types.BoolValue)))
	case Int:
		return a.(types.Int64Value) < b.(types.Int64Value)
	case Float:
		x, y := a.(types.Float64Value), b.(types.Float64Value)
		return sym.Or(x < y, sym.And(x != x, y == y))
	case String:
		return a.(types.StringValue) < b.(types.StringValue)
	}
	return sym.BytesLess(a.(types.BytesValue), b.(types.BytesValue))
}

func Eq(kind int, a, b types.Value) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	switch kind {
	case Bool:
		return a.(types.BoolValue) == b.(types.BoolValue)
	case Int:
		return a.(types.Int64Value) == b.(types.Int64Value)
	case Float:
		x, y := a.(types.Float64Value), b.(types.Float64Value)
		return sym.Or(x == y, sym.And(x != x, y != y))
	case String:
		return sym.StrEq(string(a.(types.StringValue)), string(b.(types.StringValue)))
	}
	return sym.BytesEq(a.(types.BytesValue), b.(types.BytesValue))
}

// Same: the two values are of one kind and identical in content (for floats:
// the same number, or both NaN).
func Same(a, b types.Value) bool {
	k := Kind(a)
	if k != Kind(b) {
		return false
	}
	return Eq(k, a, b)
}

// SameRow: same length and the same values.
func SameRow(a, b types.Row) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = sym.And(r, Same(a[i], b[i]))
	}
	return r
}

// KeyLess and KeyEq compare two rows by a key: ascending or descending per
// column, NULL first in both directions.
func KeyLess(kinds []int, key []types.ColumnKey, a, b types.Row) bool {
	less, eq := false, true
	for _, ck := range key {
		c := KeyCol(ck)
		l := Less(kinds[c], a[c], b[c])
		if ck < 0 && a[c] != nil && b[c] != nil {
			l = Less(kinds[c], b[c], a[c])
		}
		less = sym.Or(less, sym.And(eq, l))
		eq = sym.And(eq, Eq(kinds[c], a[c], b[c]))
	}
	return less
}

func KeyEq(kinds []int, key []types.ColumnKey, a, b types.Row) bool {
	eq := true
	for _, ck := range key {
		c := KeyCol(ck)
		eq = sym.And(eq, Eq(kinds[c], a[c], b[c]))
	}
	return eq
}

// KeyCol is the column of a key, independent of types.ColumnKey's methods.
func KeyCol(ck types.ColumnKey) int {
	if ck < 0 {
		return int(-ck) - 1
	}
	return int(ck) - 1
}

// KeyOf builds a column key, independent of types.MakeColumnKey.
func KeyOf(col int, reverse bool) types.ColumnKey {
	if reverse {
		return types.ColumnKey(-(col + 1))
	}
	return types.ColumnKey(col + 1)
}

// CopyRow copies a row.
func CopyRow(r types.Row) types.Row {
	return append(types.Row{}, r...)
}

// Panics runs f and returns whether it panicked. Runtime errors (nil
// dereference, index out of range and the like) are not a deliberate refusal
// and are reported.
func Panics(f func()) (refused bool) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(interface{ RuntimeError() }); ok {
				_ = e
				sym.Fail("runtime error")
			}
			refused = true
		}
	}()
	f()
	return false
}
