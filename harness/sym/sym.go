// Package sym is the harness interface. The symbolic interpreter intercepts
// these functions; compiled natively they read the values of one
// counterexample (or sampled path) from a replay file.
package sym

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"strconv"
	"sync"
)

type replay struct {
	Harness string            `json:"harness"`
	Label   string            `json:"label"`
	Kind    string            `json:"kind"`
	Params  map[string]int64  `json:"params"`
	Values  map[string]string `json:"values"`
}

var (
	cur  replay
	nth  = map[string]int{}
	lock sync.Mutex
)

type stopped struct{ why string }

// Main replays one case.
func Main(hs map[string]func()) {
	b, err := os.ReadFile(os.Args[1])
	if err == nil {
		err = json.Unmarshal(b, &cur)
	}
	if err != nil {
		fmt.Println("OUTCOME error")
		fmt.Println(err)
		os.Exit(2)
	}
	h := hs[cur.Harness]
	func() {
		defer func() {
			r := recover()
			if s, ok := r.(stopped); ok {
				fmt.Println("OUTCOME " + s.why)
				return
			}
			if r != nil {
				fmt.Printf("OUTCOME panic:%v\n", r)
				os.Exit(2)
			}
			fmt.Println("OUTCOME ok")
		}()
		h()
	}()
}

func value(name string, w int) uint64 {
	lock.Lock()
	defer lock.Unlock()
	k := nth[name]
	nth[name] = k + 1
	full := name
	if k > 0 {
		full = fmt.Sprintf("%s#%d", name, k)
	}
	s, ok := cur.Values[fmt.Sprintf("%s:%d", full, w)]
	if !ok {
		return 0
	}
	u, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		panic(err)
	}
	return u
}

func Int64(name string) int64     { return int64(value(name, 64)) }
func Uint64(name string) uint64   { return value(name, 64) }
func Uint32(name string) uint32   { return uint32(value(name, 32)) }
func Int32(name string) int32     { return int32(value(name, 32)) }
func Int16(name string) int16     { return int16(value(name, 16)) }
func Int8(name string) int8       { return int8(value(name, 8)) }
func Byte(name string) byte       { return byte(value(name, 8)) }
func Float64(name string) float64 { return math.Float64frombits(value(name, 64)) }
func Float32(name string) float32 { return math.Float32frombits(uint32(value(name, 32))) }
func Bool(name string) bool       { return value(name, 8)&1 == 1 }

// Bytes returns n symbolic bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(value(name, 8))
	}
	return b
}

// String returns a string of n symbolic bytes.
func String(name string, n int) string { return string(Bytes(name, n)) }

// Choose returns a value in [0,n), explored exhaustively.
func Choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(value(name, 8)) % n
}

// Param is a bound from the check configuration.
func Param(name string, def int) int {
	if v, ok := cur.Params[name]; ok {
		return int(v)
	}
	return def
}

func Assume(b bool) {
	if !b {
		panic(stopped{"assume"})
	}
}

func Stop() { panic(stopped{"assume"}) }

func Cut(what string) { panic(stopped{"assume"}) }

func fail(label string) {
	fmt.Println("OUTCOME assert:" + label)
	os.Exit(1)
}

func Assert(b bool, label string) {
	if !b {
		fail(label)
	}
}

func Fail(label string) { fail(label) }

// AssertKnown: a failure with region true belongs to the listed finding.
func AssertKnown(b bool, label, finding string, region bool) {
	if !b {
		fail(label)
	}
}

func Reach(label string) {}

func Observe(label string, v int64) { fmt.Printf("OBS %s=%d\n", label, v) }

func ObserveStr(label string, s string) { fmt.Printf("OBS %s=%q\n", label, s) }

// GoHook and YieldHook are set by the scheduled replay (package nsync).
var (
	GoHook     func(func())
	YieldHook  func()
	PreemptMax = 2
)

// Go starts a thread.
func Go(f func()) {
	if GoHook != nil {
		GoHook(f)
		return
	}
	go f()
}

func Yield() {
	if YieldHook != nil {
		YieldHook()
	}
}

func Symbolic() bool { return false }

func MapOrders(bool) {}

func Preempt(n int) { PreemptMax = n }

func Concrete(v int64) int64 { return v }

func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }

func IteInt64(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}

func BytesEq(a, b []byte) bool   { return string(a) == string(b) }
func BytesLess(a, b []byte) bool { return string(a) < string(b) }
func StrEq(a, b string) bool     { return a == b }
