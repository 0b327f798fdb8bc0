package session

import (
	"sync"

	"github.com/leftmike/maho/evaluate"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/sym"
)

// Concurrent: sessions created by different threads are distinct.
func Concurrent() {
	n := sym.Param("threads", 3)
	sym.Preempt(sym.Param("preempt", 2))
	eng := &fakeEngine{}
	texts := make([]string, 2*n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		i := i
		wg.Add(1)
		sym.Go(func() {
			defer wg.Done()
			for j := 0; j < 2; j++ {
				err := evaluate.NewSession(eng, types.MAHO, types.PUBLIC).Evaluate(ctx, &sql.Commit{})
				texts[2*i+j] = err.Error()
			}
		})
	}
	wg.Wait()
	sym.Reach("joined")
	for i := range texts {
		for j := 0; j < i; j++ {
			sym.Assert(texts[i] != texts[j], "sessions are distinct")
		}
	}
}
