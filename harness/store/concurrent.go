package store

import (
	"sync"

	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/lib"
	"github.com/leftmike/maho/zzverif/sym"
)

// plan is what one thread's transaction does.
type plan struct {
	row    types.Row // inserted
	del    bool      // delete the first row
	upd    int64     // otherwise: what is written into the first row
	commit bool
	twice  bool
}

type seen struct {
	before, after []types.Row
	ok            bool
}

func (t *Tbl) plan(nm string) plan {
	p := plan{row: types.Row{types.Int64Value(sym.Int8(nm)), types.StringValue(nm)}}
	switch sym.Choose(nm+".first", 2) {
	case 0:
		p.del = true
	case 1:
		p.upd = int64(sym.Int8(nm + ".upd"))
	}
	p.commit = sym.Choose(nm+".commit", 2) == 0
	return p
}

// run applies the plan to the reference.
func (t *Tbl) run(rows []types.Row, p plan) (after []types.Row, s seen) {
	s.before = rows
	if len(rows) > 0 {
		if p.del {
			rows = remove(rows, 0)
		} else {
			r := lib.CopyRow(rows[0])
			r[1] = types.StringValue(string(rune(p.upd & 0x7f)))
			rest := remove(rows, 0)
			rows, _ = t.add(rest, r)
		}
	}
	rows, s.ok = t.add(rows, p.row)
	s.after = rows
	return rows, s
}

func (t *Tbl) real(tx storage.Transaction, p plan) (s seen) {
	tbl := t.open(tx)
	s.before = scan(tbl)
	if len(s.before) > 0 {
		rr := current(tbl, 0)
		if p.del {
			sym.Assert(rr.Delete(ctx) == nil, "delete")
		} else {
			sym.Assert(rr.Update(ctx, []types.ColumnNum{1}, []types.Value{types.StringValue(string(rune(p.upd & 0x7f)))}) == nil, "update")
		}
	}
	s.ok = tbl.Insert(ctx, []types.Row{p.row}) == nil
	s.after = scan(tbl)
	return s
}

func sameSeen(a, b seen) bool {
	return a.ok == b.ok && sameRows(a.before, b.before) && sameRows(a.after, b.after)
}

// Concurrent: threads run one transaction each (the first one may run two) on
// one store, under every interleaving with a bounded number of preemptions.
func Concurrent() {
	n := sym.Param("threads", 2)
	sym.Preempt(sym.Param("preempt", 2))
	t := table(100, 0)
	st := newStore()
	tx := st.Begin()
	sym.Assert(t.create(tx) == nil, "create")
	base := []types.Row{{types.Int64Value(0), types.StringValue("b")}}
	sym.Assert(t.open(tx).Insert(ctx, base) == nil, "insert")
	sym.Assert(tx.Commit(ctx) == nil, "commit")

	plans := make([]plan, n)
	res := make([]seen, n)
	for i := range plans {
		plans[i] = t.plan("t" + string(rune('0'+i)))
	}
	var wg sync.WaitGroup
	for i := range plans {
		i := i
		wg.Add(1)
		sym.Go(func() {
			defer wg.Done()
			tx := st.Begin()
			res[i] = t.real(tx, plans[i])
			if plans[i].commit {
				sym.Assert(tx.Commit(ctx) == nil, "commit")
			} else {
				sym.Assert(tx.Rollback() == nil, "rollback")
			}
		})
	}
	wg.Wait()
	sym.Reach("joined")
	tx = st.Begin()
	final := scan(t.open(tx))
	sym.Assert(tx.Rollback() == nil, "rollback")

	// some serial order explains everything
	explained := false
	for _, order := range orders(n) {
		rows := base
		same := true
		for _, i := range order {
			after, s := t.run(rows, plans[i])
			if !sameSeen(s, res[i]) {
				same = false
				break
			}
			if plans[i].commit {
				rows = after
			}
		}
		if same && sameRows(rows, final) {
			explained = true
			break
		}
	}
	sym.Assert(explained, "the outcome is that of some serial order")
}

func orders(n int) [][]int {
	if n == 1 {
		return [][]int{{0}}
	}
	var out [][]int
	for _, o := range orders(n - 1) {
		for i := 0; i <= len(o); i++ {
			p := append([]int{}, o[:i]...)
			p = append(p, n-1)
			out = append(out, append(p, o[i:]...))
		}
	}
	return out
}
