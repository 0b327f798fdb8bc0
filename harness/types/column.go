package types

import (
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/sym"
)

// KeyColumns: a key column is the column and the direction it was made of.
func KeyColumns() {
	n := sym.Param("n", 3)
	var keys []types.ColumnKey
	var nums []types.ColumnNum
	for i := 0; i < n; i++ {
		num := types.ColumnNum(sym.Uint32("num" + string(rune('0'+i))))
		sym.Assume(num < 1<<31-1)
		rev := sym.Bool("rev" + string(rune('0'+i)))
		k := types.MakeColumnKey(num, rev)
		sym.Assert(k.Column() == num && k.Reverse() == rev, "the column and the direction")
		for j, o := range keys {
			sym.Assert((k == o) == (num == nums[j] && rev == o.Reverse()), "equal exactly when both are")
		}
		keys = append(keys, k)
		nums = append(nums, num)
	}
	sym.Reach("made")
	var cols []types.ColumnNum
	want := false
	m := sym.Choose("cols", 3)
	l := sym.Choose("keys", n+1)
	for i := 0; i < m; i++ {
		c := types.ColumnNum(sym.Uint32("col" + string(rune('0'+i))))
		cols = append(cols, c)
		for _, k := range nums[:l] {
			want = want || k == c
		}
	}
	sym.Assert(types.ColumnKeyUpdated(keys[:l], cols) == want, "updated exactly when it has one of the columns")
}
