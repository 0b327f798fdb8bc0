package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// HarnessCfg names one harness function and its bounds per tier.
type HarnessCfg struct {
	Fn       string           `json:"fn"` // pkg.Func below zzverif
	Quick    map[string]int64 `json:"quick"`
	Thorough map[string]int64 `json:"thorough"`
	Reach    []string         `json:"reach"`
	Bounds   string           `json:"bounds"`
	QuickS   float64          `json:"quick_s"`    // time budget, seconds
	ThoroS   float64          `json:"thorough_s"` // time budget, seconds
	Only     string           `json:"only"`       // "thorough": skipped in quick
	NoTrace  bool             `json:"no_trace"`
}

type CheckCfg struct {
	Property    string       `json:"property"`
	Harnesses   []HarnessCfg `json:"harnesses"`
	Assumptions []string     `json:"assumptions"`
	Outside     string       `json:"outside"`
}

type Known struct {
	Property string
	ID       string
	What     string
	Fixed    bool
}

func skipInit(path string) bool {
	if strings.HasPrefix(path, "internal/") || strings.HasPrefix(path, "vendor/") || strings.HasPrefix(path, "runtime") ||
		strings.HasPrefix(path, "encoding/") || strings.HasSuffix(path, "/zzverif/sym") {
		return true
	}
	switch path {
	case "errors", "reflect", "sync", "sync/atomic", "os", "syscall", "time", "unsafe", "fmt", "encoding/gob", "log", "context",
		"io/fs", "path", "os/signal", "os/exec", "testing", "flag", "encoding", "unicode", "math/rand", "iter", "unique", "weak", "hash/maphash", "hash", "path/filepath":
		return true
	}
	return false
}

func (in *Interp) runInit(pkg *ssa.Package) (err any) {
	defer func() {
		if r := recover(); r != nil {
			if gp, ok := r.(*goPanic); ok {
				err = "panic during init: " + in.panicString(gp.v)
				return
			}
			err = fmt.Sprintf("%v at %s in %s", r, firstFrames(), in.where())
		}
	}()
	in.stepLimit = 1 << 60
	in.callFn(nil, pkg.Func("init"), nil, nil)
	return nil
}

func parseKnown(path string) []Known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []Known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		var k Known
		if strings.HasPrefix(l, "fixed:") {
			k.Fixed = true
			l = strings.TrimSpace(strings.TrimPrefix(l, "fixed:"))
		} else if strings.HasPrefix(l, "finding:") {
			l = strings.TrimSpace(strings.TrimPrefix(l, "finding:"))
		} else {
			continue
		}
		f := strings.SplitN(l, " ", 3)
		if len(f) < 3 || !strings.HasPrefix(f[0], "property=") {
			continue
		}
		k.Property = strings.TrimPrefix(f[0], "property=")
		k.ID = f[1]
		k.What = f[2]
		out = append(out, k)
	}
	return out
}

func main() {
	repo := flag.String("repo", "/repo", "repository under test")
	verif := flag.String("verif", "/verif", "verification root")
	prop := flag.String("property", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	one := flag.String("harness", "", "run one harness function (pkg.Func) and print details")
	params := flag.String("params", "", "k=v,k=v for -harness")
	nw := flag.Int("workers", runtime.NumCPU(), "parallel workers")
	budget := flag.Float64("budget", 0, "time budget in seconds for -harness")
	solver := flag.String("solver", "", "SMT solver binary")
	noMerge := flag.Bool("nomerge", false, "disable if-conversion")
	flag.Parse()
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(10 << 30)
	go watchMemory()
	debug.SetMaxStack(1 << 30)
	if *solver == "" {
		*solver = findSolver()
	}
	t0 := time.Now()
	if *one != "" {
		pr := map[string]int64{}
		for _, kv := range strings.Split(*params, ",") {
			if kv == "" {
				continue
			}
			var k string
			var v int64
			p := strings.SplitN(kv, "=", 2)
			k = p[0]
			fmt.Sscan(p[1], &v)
			pr[k] = v
		}
		cfg := CheckCfg{Property: "X00", Harnesses: []HarnessCfg{{Fn: *one, Quick: pr, QuickS: *budget}}}
		r := newRunner(*repo, *verif, cfg, "quick", *nw, *solver)
		r.noMerge = *noMerge
		r.verbose = true
		os.Exit(r.run(t0))
	}
	cfgs, err := loadChecks(filepath.Join(*verif, "checks"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	cfg, ok := cfgs[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	r := newRunner(*repo, *verif, cfg, *tier, *nw, *solver)
	os.Exit(r.run(t0))
}

func findSolver() string {
	for _, s := range []string{"z3-new", "z3"} {
		for _, d := range filepath.SplitList(os.Getenv("PATH")) {
			p := filepath.Join(d, s)
			if fi, err := os.Stat(p); err == nil && !fi.IsDir() {
				return p
			}
		}
	}
	return "z3"
}

func loadChecks(dir string) (map[string]CheckCfg, error) {
	out := map[string]CheckCfg{}
	fs, err := filepath.Glob(filepath.Join(dir, "*.json"))
	if err != nil {
		return nil, err
	}
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		var c CheckCfg
		if err := json.Unmarshal(b, &c); err != nil {
			return nil, fmt.Errorf("%s: %v", f, err)
		}
		out[c.Property] = c
	}
	return out, nil
}

type runner struct {
	repo, verif string
	cfg         CheckCfg
	tier        string
	nw          int
	solver      string
	verbose     bool
	noMerge     bool
	P           *Program
	loadS       float64
}

func newRunner(repo, verif string, cfg CheckCfg, tier string, nw int, solver string) *runner {
	return &runner{repo: repo, verif: verif, cfg: cfg, tier: tier, nw: nw, solver: solver}
}

type hres struct {
	cfg    HarnessCfg
	ex     *Explorer
	fn     string
	params map[string]int64
}

func (r *runner) run(t0 time.Time) int {
	hdir := filepath.Join(r.verif, "harness")
	pkgset := map[string]bool{}
	for _, h := range r.cfg.Harnesses {
		pkgset[strings.SplitN(h.Fn, ".", 2)[0]] = true
	}
	var pats []string
	for p := range pkgset {
		pats = append(pats, modPath+"/zzverif/"+p)
	}
	sort.Strings(pats)
	P, err := loadProgram(r.repo, hdir, pats)
	if err != nil {
		fmt.Fprintln(os.Stderr, "gosym: cannot load:", err)
		return 2
	}
	r.P = P
	r.loadS = time.Since(t0).Seconds()
	if r.verbose {
		fmt.Printf("loaded %d packages in %.1fs\n", len(P.pkgs), r.loadS)
	}
	// one interpreter per worker, initialised in parallel
	pool := make([]*Interp, r.nw)
	var wg sync.WaitGroup
	errs := make([]any, r.nw)
	for i := range pool {
		wg.Add(1)
		go func() {
			defer wg.Done()
			in := newInterp(P)
			in.noMerge = r.noMerge
			in.inInit = true
			for _, p := range pats {
				if e := in.runInit(P.pkgs[p]); e != nil {
					errs[i] = e
				}
			}
			in.inInit = false
			pool[i] = in
		}()
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			fmt.Fprintln(os.Stderr, "gosym: initialisation:", e)
			return 2
		}
	}
	if r.verbose {
		fmt.Printf("initialised in %.1fs (%d steps)\n", time.Since(t0).Seconds()-r.loadS, pool[0].steps)
	}
	var res []*hres
	for hi, h := range r.cfg.Harnesses {
		if h.Only == "thorough" && r.tier != "thorough" {
			continue
		}
		parts := strings.SplitN(h.Fn, ".", 2)
		pkg := P.pkgs[modPath+"/zzverif/"+parts[0]]
		fn := pkg.Func(parts[1])
		if fn == nil {
			fmt.Fprintln(os.Stderr, "gosym: no harness", h.Fn)
			return 2
		}
		params := map[string]int64{}
		for k, v := range h.Quick {
			params[k] = v
		}
		limit := h.QuickS
		if limit == 0 {
			limit = 120
		}
		if r.tier == "thorough" {
			for k, v := range h.Thorough {
				params[k] = v
			}
			limit = h.ThoroS
			if limit == 0 {
				limit = 240
			}
		}
		// leave a little for each harness that follows
		total := 560.0
		if r.tier == "thorough" {
			total = 3000
		}
		left := total - time.Since(t0).Seconds() - 3*float64(len(r.cfg.Harnesses)-1-hi)
		limit = max(2, min(limit, left))
		ex := newExplorer(P, fn, h.Fn, params, r.nw, r.solver)
		if h.NoTrace {
			ex.maxTraces = 0
		}
		ex.end = time.Now().Add(time.Duration(limit * float64(time.Second)))
		for _, in := range pool {
			in.steps = 0
			in.fnSeen = map[*fnCode]bool{}
			for _, c := range in.codes {
				c.calls = 0
			}
		}
		ex.run(pool)
		res = append(res, &hres{cfg: h, ex: ex, fn: h.Fn, params: params})
		if r.verbose {
			ex.print()
		}
	}
	for _, in := range pool {
		if in.sol != nil {
			in.sol.close()
		}
	}
	return r.report(res, t0)
}

func (ex *Explorer) print() {
	fmt.Printf("harness %s: paths=%d complete=%d assume-killed=%d forks=%d asserts=%d (symbolic %d) queries=%d (sat %d unsat %d unknown %d) table=%d (certified %d) cached=%d solver=%.1fs max=%.2fs steps=%d merges=%d wall=%.1fs timeout=%v pending=%d inputs<=%d\n",
		ex.hname, ex.paths, ex.done, ex.killedAssume, ex.forks, ex.asserts, ex.assertTerms, ex.st.Queries, ex.st.Sat, ex.st.Unsat, ex.st.Unknown, ex.tableQ, ex.certQ, ex.cacheQ,
		ex.st.Time.Seconds(), ex.st.MaxQuery.Seconds(), ex.steps, ex.merges, ex.wall.Seconds(), ex.timedOut, ex.pendingLeft, ex.symInputs)
	for k, v := range ex.reach {
		fmt.Printf("  reach %s: %d\n", k, v)
	}
	for k, v := range ex.cuts {
		fmt.Printf("  cut %s: %d\n", k, v)
	}
	for k, v := range ex.errs {
		fmt.Printf("  ERROR %s: %d\n", k, v)
	}
	for _, k := range ex.violOrder {
		v := ex.viol[k]
		fmt.Printf("  VIOL %s kind=%s known=%q msg=%q model=%v\n", v.Label, v.Kind, v.Known, v.Msg, fmtModel(v))
	}
}

func fmtModel(v *Violation) string {
	var sb strings.Builder
	for _, i := range v.Inputs {
		fmt.Fprintf(&sb, "%s=%d ", i.Name, sext(v.Model[i.Name], i.w))
	}
	return sb.String()
}
