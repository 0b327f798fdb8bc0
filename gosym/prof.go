package main

import (
	"os"
	"runtime/metrics"
	"runtime/pprof"
	"sync/atomic"
	"time"
)

func init() {
	if f := os.Getenv("GOSYM_MEMPROF"); f != "" {
		go func() {
			time.Sleep(25 * time.Second)
			w, _ := os.Create(f)
			pprof.Lookup("heap").WriteTo(w, 0)
			w.Close()
		}()
	}
}

// memoryFull is set when the exploration should stop for lack of memory.
var memoryFull atomic.Bool

func watchMemory() {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(500 * time.Millisecond)
		metrics.Read(s)
		memoryFull.Store(s[0].Value.Uint64() > 16<<30)
	}
}
