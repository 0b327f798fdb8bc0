package types

import (
	"sync"

	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/sym"
)

// Concurrent: threads creating and printing identifiers under every
// interleaving (bounded preemptions).
func Concurrent() {
	n := sym.Param("threads", 2)
	sym.Preempt(sym.Param("preempt", 2))
	length := sym.Param("len", 1)
	ids := make([]types.Identifier, n)
	strs := make([]string, n)
	names := make([]string, n)
	quoted := make([]bool, n)
	gob := make([]bool, n)
	for i := 0; i < n; i++ {
		nm := "t" + string(rune('0'+i))
		names[i] = sym.String(nm, length)
		for j := 0; j < length; j++ {
			sym.Assume(names[i][j] < 0x80)
		}
		quoted[i] = sym.Choose(nm+".quoted", 2) == 1
		gob[i] = sym.Choose(nm+".gob", 2) == 1
	}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		i := i
		wg.Add(1)
		sym.Go(func() {
			defer wg.Done()
			id := types.ID(names[i], quoted[i])
			if gob[i] {
				b, err := id.GobEncode()
				if err == nil {
					err = id.GobDecode(b)
				}
				if err != nil {
					id = 0
				}
			}
			ids[i] = id
			strs[i] = id.String()
		})
	}
	wg.Wait()
	sym.Reach("joined")
	for i := 0; i < n; i++ {
		_, ti := ref(names[i], quoted[i])
		sym.Assert(sym.StrEq(strs[i], ti), "prints as its name")
		for j := 0; j < i; j++ {
			ki, ti := ref(names[i], quoted[i])
			kj, tj := ref(names[j], quoted[j])
			sym.Assert(sym.Iff(ids[i] == ids[j], sym.And(ki == kj, sym.StrEq(ti, tj))), "same name, same identifier")
		}
		sym.Assert(types.ID(names[i], quoted[i]) == ids[i], "the same identifier later")
	}
}

// ConcurrentMany: one thread prints and compares an identifier made before
// while others create new ones.
func ConcurrentMany() {
	sym.Preempt(sym.Param("preempt", 2))
	old := types.ID("zzold", true)
	x := sym.String("x", 1)
	y := sym.String("y", 1)
	sym.Assume(sym.And(x[0] < 0x80, y[0] < 0x80))
	var wg sync.WaitGroup
	wg.Add(3)
	var a, b types.Identifier
	sym.Go(func() { defer wg.Done(); a = types.ID(x, true) })
	sym.Go(func() { defer wg.Done(); b = types.ID(y, false) })
	s := ""
	again := types.Identifier(0)
	sym.Go(func() {
		defer wg.Done()
		s = old.String()
		again = types.ID("ZZOLD", false)
	})
	wg.Wait()
	sym.Reach("joined")
	_, ty := ref(y, false)
	sym.Assert(sym.Iff(a == b, sym.StrEq(x, ty)), "new identifiers")
	sym.Assert(a != old && b != old, "new identifiers differ from an old one")
	sym.Assert(s == "zzold" && again == old, "old identifier")
	sym.Assert(sym.And(sym.StrEq(a.String(), x), sym.StrEq(b.String(), ty)), "prints as its name")
}
