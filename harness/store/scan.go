package store

import (
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/lib"
	"github.com/leftmike/maho/zzverif/sym"
)

// neighbours creates tables with adjacent identities and one row each.
func neighbours(s int) (lo, hi *Tbl) {
	lo, hi = table(99, s), table(101, s)
	return lo, hi
}

// Scan: bounds, predicate and projection against the reference.
func Scan() {
	s := chooseShape()
	t := table(100, s)
	tx := newStore().Begin()
	lo, hi := neighbours(s)
	for _, n := range []*Tbl{lo, t, hi} {
		sym.Assert(n.create(tx) == nil, "create")
	}
	side := types.Row{}
	for _, k := range t.kinds {
		side = append(side, plain(k, 7))
	}
	sym.Assert(lo.open(tx).Insert(ctx, []types.Row{side}) == nil, "insert below")
	sym.Assert(hi.open(tx).Insert(ctx, []types.Row{side}) == nil, "insert above")
	tbl := t.open(tx)
	n := sym.Param("rows", 2)
	mode := sym.Param("mode", 0) // 0 bounds, 1 predicate and projection, 2 all
	rows := t.fill(tbl, sym.Choose("nrows", n+1), "r", mode == 0)

	var min, max types.Row
	if mode != 1 {
		if sym.Choose("min?", 2) == 1 {
			min = t.keyRow("min", 3)
		}
		if sym.Choose("max?", 2) == 1 {
			max = t.keyRow("max", 3)
		}
	}
	var p *pred
	if mode != 0 {
		c := sym.Choose("predcol", len(t.kinds)+1)
		if c < len(t.kinds) {
			p = &pred{col: c, kind: t.kinds[c], op: sym.Choose("predop", 3)}
			if p.op != 2 {
				p.c = lib.Value("pred", p.kind, t.slen)
			}
		}
	}
	var cols []types.ColumnNum
	if mode != 0 {
		switch sym.Choose("cols", 5) {
		case 1:
			cols = []types.ColumnNum{types.ColumnNum(len(t.kinds) - 1)}
		case 2:
			for i := len(t.kinds) - 1; i >= 0; i-- {
				cols = append(cols, types.ColumnNum(i))
			}
		case 3:
			cols = []types.ColumnNum{}
		case 4:
			cols = []types.ColumnNum{1, 1, 0}
		}
	}

	var want []types.Row
	for _, r := range rows {
		if min != nil && lib.KeyLess(t.kinds, t.key, r, min) {
			continue
		}
		if max != nil && lib.KeyLess(t.kinds, t.key, max, r) {
			continue
		}
		if p != nil && (r[p.col] == nil || !p.eval(r[p.col])) {
			continue
		}
		if cols != nil {
			pr := types.Row{}
			for _, c := range cols {
				pr = append(pr, r[c])
			}
			r = pr
		}
		want = append(want, r)
	}
	var sp storage.Predicate
	if p != nil {
		sp = p.typed()
	}
	rr, e := tbl.Rows(ctx, cols, min, max, sp)
	sym.Assert(e == nil, "scan opens")
	got := drain(rr)
	sym.Assert(rr.Close(ctx) == nil, "scan closes")
	sym.Reach("scanned")
	sym.Observe("rows", int64(len(got)))
	sym.Assert(sameRows(got, want), "a scan returns exactly the matching rows in key order")
	early(tbl, len(rows))
	sym.Assert(tx.Commit(ctx) == nil, "a transaction commits when its scans are closed")
}

// early closes scans before their end.
func early(tbl storage.Table, n int) {
	for i := 0; i <= n && i < 2; i++ {
		rr, e := tbl.Rows(ctx, nil, nil, nil, nil)
		sym.Assert(e == nil, "scan opens")
		for j := 0; j < i; j++ {
			_, e := rr.Next(ctx)
			sym.Assert(e == nil, "read")
		}
		sym.Assert(rr.Close(ctx) == nil, "scan closes")
	}
}
