package main

import (
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

type replayFile struct {
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Label    string            `json:"label"`
	Kind     string            `json:"kind"`
	Msg      string            `json:"msg"`
	Params   map[string]int64  `json:"params"`
	Values   map[string]string `json:"values"`
	Order    []string          `json:"order"`
}

func mkReplay(prop string, h *hres, label, kind, msg string, inputs []inputVar, m Model) *replayFile {
	f := &replayFile{Property: prop, Harness: h.fn, Label: label, Kind: kind, Msg: msg, Params: h.params, Values: map[string]string{}}
	for _, i := range inputs {
		f.Values[i.Name] = fmt.Sprint(m[i.Name] & mask(i.w))
		f.Order = append(f.Order, i.Name)
	}
	return f
}

// native builds the replay binary from the current source with the harness
// overlay.
type native struct {
	r    *runner
	dir  string
	bins map[string]string
	err  error
	mu   sync.Mutex
}

func (n *native) build(mode string) (string, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if b, ok := n.bins[mode]; ok {
		return b, n.err
	}
	if n.bins == nil {
		n.bins = map[string]string{}
	}
	if n.dir == "" {
		d, err := os.MkdirTemp("", "gosym-native-")
		if err != nil {
			return "", err
		}
		n.dir = d
	}
	ov, err := overlayFiles(n.r.repo, filepath.Join(n.r.verif, "harness"), true)
	if err != nil {
		return "", err
	}
	// keep only what this check needs: sym and the harness packages used
	shared := map[string]bool{"sym": true, "lib": true, "fault": true}
	use := map[string]bool{"sym": true, "lib": true, "fault": true}
	var hs []string
	seen := map[string]bool{}
	for _, h := range n.r.cfg.Harnesses {
		use[strings.SplitN(h.Fn, ".", 2)[0]] = true
		if !seen[h.Fn] {
			seen[h.Fn] = true
			hs = append(hs, h.Fn)
		}
	}
	repl := map[string]string{}
	for dst, src := range ov {
		rel, _ := filepath.Rel(filepath.Join(n.r.repo, "zzverif"), dst)
		if use[strings.SplitN(rel, "/", 2)[0]] {
			repl[dst] = src
		}
	}
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"" + modPath + "/zzverif/sym\"\n")
	var pk []string
	for p := range use {
		if !shared[p] {
			pk = append(pk, p)
		}
	}
	sort.Strings(pk)
	for _, p := range pk {
		sb.WriteString("\t\"" + modPath + "/zzverif/" + p + "\"\n")
	}
	sb.WriteString(")\n\nfunc main() {\n\tsym.Main(map[string]func(){\n")
	for _, h := range hs {
		fmt.Fprintf(&sb, "\t\t%q: %s,\n", h, h)
	}
	sb.WriteString("\t})\n}\n")
	mainSrc := filepath.Join(n.dir, "main_gen.go")
	if err := os.WriteFile(mainSrc, []byte(sb.String()), 0644); err != nil {
		return "", err
	}
	repl[filepath.Join(n.r.repo, "zzverif", "zzreplay", "main.go")] = mainSrc
	if mode == "sched" {
		if err := n.scheduled(repl); err != nil {
			n.err = err
			n.bins[mode] = ""
			return "", err
		}
	}
	ovf := filepath.Join(n.dir, "overlay-"+mode+".json")
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	if err := os.WriteFile(ovf, b, 0644); err != nil {
		return "", err
	}
	bin := filepath.Join(n.dir, "replay"+mode)
	args := []string{"build", "-overlay", ovf, "-o", bin}
	if mode == "race" {
		args = []string{"build", "-race", "-overlay", ovf, "-o", bin}
	}
	args = append(args, modPath+"/zzverif/zzreplay")
	cmd := exec.Command("go", args...)
	cmd.Dir = n.r.repo
	cmd.Env = goEnv()
	if mode == "race" {
		for i, e := range cmd.Env {
			if strings.HasPrefix(e, "CGO_ENABLED") {
				cmd.Env[i] = "CGO_ENABLED=1"
			}
		}
	}
	out, err := cmd.CombinedOutput()
	if err != nil {
		n.err = fmt.Errorf("native build: %v\n%s", err, out)
		n.bins[mode] = ""
		return "", n.err
	}
	n.bins[mode] = bin
	return bin, nil
}

// mode tells how the case is replayed: cases with scheduling decisions follow
// them under a cooperative scheduler.
func (f *replayFile) mode() string {
	for _, o := range f.Order {
		if strings.HasPrefix(o, "sched:") || strings.HasPrefix(o, "sched#") {
			return "sched"
		}
	}
	return "plain"
}

// scheduled replaces sync and sync/atomic by the scheduled stand-ins in copies
// of the repository's and the harnesses' source files.
func (n *native) scheduled(repl map[string]string) error {
	sub := map[string]string{"sync": "nsync", "sync/atomic": "natomic"}
	count := 0
	rewrite := func(dst, src string) error {
		b, err := os.ReadFile(src)
		if err != nil {
			return err
		}
		fs := token.NewFileSet()
		file, err := parser.ParseFile(fs, src, b, parser.ImportsOnly)
		if err != nil {
			return err
		}
		type edit struct {
			at, end int
			s       string
		}
		var edits []edit
		for _, im := range file.Imports {
			path := strings.Trim(im.Path.Value, "\"")
			to, ok := sub[path]
			if !ok {
				continue
			}
			name := filepath.Base(path) + " "
			if im.Name != nil {
				name = ""
			}
			edits = append(edits, edit{fs.Position(im.Path.Pos()).Offset, fs.Position(im.Path.End()).Offset,
				name + "\"" + modPath + "/zzverif/" + to + "\""})
		}
		if len(edits) == 0 {
			return nil
		}
		for i := len(edits) - 1; i >= 0; i-- {
			e := edits[i]
			b = append(b[:e.at:e.at], append([]byte(e.s), b[e.end:]...)...)
		}
		out := filepath.Join(n.dir, fmt.Sprintf("s%d_%s", count, filepath.Base(dst)))
		count++
		repl[dst] = out
		return os.WriteFile(out, b, 0644)
	}
	hd := filepath.Join(n.r.verif, "harness")
	for _, d := range []string{"nsync", "natomic"} {
		repl[filepath.Join(n.r.repo, "zzverif", d, d+".go")] = filepath.Join(hd, d, d+".go")
	}
	var dsts []string
	for d := range repl {
		dsts = append(dsts, d)
	}
	for _, d := range dsts {
		rel, _ := filepath.Rel(filepath.Join(n.r.repo, "zzverif"), d)
		switch strings.SplitN(filepath.ToSlash(rel), "/", 2)[0] {
		case "sym", "nsync", "natomic", "zzreplay":
			continue
		}
		if err := rewrite(d, repl[d]); err != nil {
			return err
		}
	}
	return filepath.Walk(n.r.repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() && (strings.HasPrefix(fi.Name(), ".") || fi.Name() == "testdata") && p != n.r.repo {
			return filepath.SkipDir
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		return rewrite(p, p)
	})
}

func (n *native) cleanup() {
	if n.dir != "" {
		os.RemoveAll(n.dir)
	}
}

type nativeOut struct {
	outcome string // ok, assert:<label>, panic:<msg>, hang, assume, race, error
	obs     []string
	text    string
}

func (n *native) run(f *replayFile, mode string, timeout time.Duration) nativeOut {
	bin, err := n.build(mode)
	if err != nil {
		return nativeOut{outcome: "error", text: err.Error()}
	}
	tf, err := os.CreateTemp(n.dir, "case-*.json")
	if err != nil {
		return nativeOut{outcome: "error", text: err.Error()}
	}
	defer os.Remove(tf.Name())
	b, _ := json.Marshal(f)
	tf.Write(b)
	tf.Close()
	// memory and time are limited: the replayed input may make the code hang
	cmd := exec.Command("bash", "-c", "ulimit -v 16000000; exec \"$0\" \"$1\"", bin, tf.Name())
	if mode == "race" {
		cmd = exec.Command(bin, tf.Name())
	}
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=2GiB", "GOTRACEBACK=single")
	done := make(chan struct{})
	var out []byte
	go func() {
		out, err = cmd.CombinedOutput()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(timeout):
		if cmd.Process != nil {
			cmd.Process.Kill()
		}
		<-done
		return nativeOut{outcome: "hang", text: string(out)}
	}
	res := nativeOut{outcome: "", text: string(out)}
	for _, l := range strings.Split(string(out), "\n") {
		switch {
		case strings.HasPrefix(l, "OBS "):
			res.obs = append(res.obs, strings.TrimPrefix(l, "OBS "))
		case strings.HasPrefix(l, "OUTCOME "):
			res.outcome = strings.TrimPrefix(l, "OUTCOME ")
		}
	}
	if strings.Contains(string(out), "WARNING: DATA RACE") {
		res.outcome = "race"
	} else if strings.Contains(string(out), "all goroutines are asleep - deadlock") {
		res.outcome = "deadlock"
	} else if res.outcome == "" {
		if strings.Contains(string(out), "panic: ") || strings.Contains(string(out), "fatal error: ") {
			res.outcome = "panic:"
		} else {
			res.outcome = "error"
		}
	}
	return res
}

// confirms replays a violation on the real code.
func (n *native) confirms(v *Violation, f *replayFile) (bool, string) {
	switch v.Kind {
	case "race":
		for i := 0; i < 60; i++ {
			o := n.run(f, "race", 60*time.Second)
			if o.outcome == "race" || o.outcome == "panic:" {
				return true, o.text
			}
			if o.outcome == "error" {
				return false, o.text
			}
		}
		return false, "race detector silent"
	}
	var last nativeOut
	for i := 0; i < 1; i++ {
		last = n.run(f, f.mode(), 20*time.Second)
		switch v.Kind {
		case "assert":
			if last.outcome == "assert:"+v.Label || strings.HasPrefix(last.outcome, "panic:") {
				return true, last.text
			}
		case "panic", "fatal":
			if strings.HasPrefix(last.outcome, "panic:") || strings.HasPrefix(last.outcome, "assert:") {
				return true, last.text
			}
		case "hang", "deadlock":
			if last.outcome == "hang" || last.outcome == "deadlock" || strings.HasPrefix(last.outcome, "panic:") {
				return true, last.text
			}
		}
	}
	return false, last.outcome + "\n" + last.text
}

func (r *runner) report(res []*hres, t0 time.Time) int {
	prop := r.cfg.Property
	nat := &native{r: r}
	defer nat.cleanup()
	known := parseKnown(filepath.Join(r.verif, "known-findings.txt"))
	listed := map[string]Known{}
	for _, k := range known {
		if k.Property == prop && !k.Fixed {
			listed[k.ID] = k
		}
	}
	knownHit := map[string]bool{}
	exit := 0
	violations := 0
	var spurious []string
	repDir := filepath.Join(r.verif, "replays")
	var lines []string
	for _, h := range res {
		for _, k := range h.ex.violOrder {
			v := h.ex.viol[k]
			f := mkReplay(prop, h, v.Label, v.Kind, v.Msg, v.Inputs, v.Model)
			ok, txt := nat.confirms(v, f)
			if !ok {
				spurious = append(spurious, fmt.Sprintf("%s/%s: not reproduced natively: %s; inputs %s", h.fn, v.Label, firstLines(txt, 6), fmtModel(v)))
				continue
			}
			if v.Known != "" {
				if kf, ok := listed[v.Known]; ok {
					if !knownHit[v.Known] {
						knownHit[v.Known] = true
						lines = append(lines, fmt.Sprintf("KNOWN-FINDING: property=%s %s %s", prop, kf.ID, kf.What))
					}
					continue
				}
			}
			violations++
			os.MkdirAll(repDir, 0755)
			p := filepath.Join(repDir, fmt.Sprintf("%s-%s-%d.json", prop, sanitize(v.Label), violations))
			b, _ := json.MarshalIndent(f, "", " ")
			os.WriteFile(p, append(b, '\n'), 0644)
			lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", prop, p))
			lines = append(lines, fmt.Sprintf("  harness=%s assertion=%s kind=%s %s inputs: %s", h.fn, v.Label, v.Kind, v.Msg, fmtModel(v)))
			exit = 1
		}
	}
	// validate sampled traces against the implementation
	validated, mismatched := 0, 0
	var mismatches []string
	if exit == 0 || r.verbose {
		type job struct {
			h *hres
			t *Trace
		}
		var jobs []job
		for _, h := range res {
			for _, t := range h.ex.traces {
				jobs = append(jobs, job{h, t})
			}
		}
		var mu sync.Mutex
		var wg sync.WaitGroup
		sem := make(chan struct{}, 8)
		for _, j := range jobs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				f := mkReplay(prop, j.h, "", "trace", "", j.t.Inputs, j.t.Model)
				o := nat.run(f, f.mode(), 30*time.Second)
				mu.Lock()
				defer mu.Unlock()
				if o.outcome != "ok" {
					mismatched++
					mismatches = append(mismatches, fmt.Sprintf("%s: native outcome %s (%s) for %v", j.h.fn, o.outcome, firstLines(o.text, 4), f.Values))
					return
				}
				if strings.Join(o.obs, "\n") != strings.Join(j.t.Obs, "\n") {
					mismatched++
					mismatches = append(mismatches, fmt.Sprintf("%s: observations differ: engine %v native %v for %v", j.h.fn, j.t.Obs, o.obs, f.Values))
					return
				}
				validated++
			}()
		}
		wg.Wait()
	}
	sort.Strings(mismatches)
	if len(mismatches) > 5 {
		mismatches = mismatches[:5]
	}
	// evidence
	var paths, complete, forks, queries, sat, unsat, unknown, asserts, asym, tables, confirmed int64
	var solverS float64
	funcs := map[string]bool{}
	var hev []map[string]any
	var samples []any
	allExh := true
	var vacuous []string
	for _, h := range res {
		e := h.ex
		paths += e.paths
		complete += e.done
		forks += e.forks
		queries += e.st.Queries
		sat += e.st.Sat
		unsat += e.st.Unsat
		unknown += e.st.Unknown
		asserts += e.asserts
		asym += e.assertTerms
		tables += e.tableQ
		confirmed += e.certQ
		solverS += e.st.Time.Seconds()
		for f := range e.funcs {
			funcs[f] = true
		}
		exh := !e.timedOut && len(e.cuts) == 0 && len(e.errs) == 0 && e.st.Unknown == 0
		if !exh {
			allExh = false
		}
		for _, want := range h.cfg.Reach {
			if e.reach[want] == 0 {
				vacuous = append(vacuous, h.fn+":"+want)
			}
		}
		hv := map[string]any{"harness": h.fn, "params": h.params, "bounds": h.cfg.Bounds, "paths": e.paths, "complete_paths": e.done,
			"assume_killed": e.killedAssume, "forks": e.forks, "merged_regions": e.merges, "assertions_checked": e.asserts,
			"assertions_symbolic": e.assertTerms, "queries": e.st.Queries, "unsat": e.st.Unsat, "sat": e.st.Sat, "unknown": e.st.Unknown,
			"solver_s": round3(e.st.Time.Seconds()), "wall_s": round3(e.wall.Seconds()), "exhausted_within_bounds": exh,
			"max_symbolic_inputs": e.symInputs, "instructions": e.steps, "reached": e.reach}
		if len(e.cuts) > 0 {
			hv["cuts"] = e.cuts
		}
		if len(e.errs) > 0 {
			hv["engine_limits"] = e.errs
		}
		if e.timedOut {
			hv["time_limit_hit"] = true
			hv["frontier_left"] = e.pendingLeft
		}
		hev = append(hev, hv)
		if len(e.traces) > 0 {
			t := e.traces[len(e.traces)-1]
			vals := map[string]string{}
			for _, i := range t.Inputs {
				vals[i.Name] = fmt.Sprint(sext(t.Model[i.Name], i.w))
			}
			samples = append(samples, map[string]any{"harness": h.fn, "one_path_witness": vals, "observed": t.Obs})
		}
	}
	if samples == nil {
		samples = append(samples, map[string]any{"harnesses": len(res)})
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, strings.ReplaceAll(f, modPath+"/", ""))
	}
	sort.Strings(fl)
	cov := map[string]any{
		"states": max(forks+paths, 1), "transitions": max(queries, 1), "traces_validated_against_impl": validated,
		"samples":           samples,
		"explanation":       "states = symbolic path prefixes (fork points plus path ends) over symbolic inputs; transitions = solver queries deciding branch feasibility and assertions; an assertion whose condition still depends on symbolic inputs is decided by a solver query over all values on its path (assertions_decided_by_solver); one whose condition the path already fixes is evaluated, the path itself standing for all values its solver-decided branches admit. A branch over a single 8-bit input is first decided from the table of its values; the solver confirms every distinct such decision once (table_decisions, table_decisions_confirmed)",
		"functions_encoded": fl, "symbolic_paths": paths, "complete_paths": complete, "forks": forks,
		"queries_discharged": queries, "queries_unsat": unsat, "queries_sat": sat, "queries_unknown": unknown,
		"assertions_checked": asserts, "assertions_decided_by_solver": asym,
		"table_decisions": tables, "table_decisions_confirmed": confirmed,
		"solver": filepath.Base(r.solver), "solver_s": round3(solverS), "harnesses": hev, "exhaustive": allExh,
		"traces_mismatched": mismatched, "load_s": round3(r.loadS),
	}
	if r.cfg.Outside != "" {
		cov["outside_the_claim"] = r.cfg.Outside
	}
	if len(mismatches) > 0 {
		cov["trace_mismatches"] = mismatches
	}
	if len(spurious) > 0 {
		cov["counterexamples_not_reproduced"] = spurious
	}
	if len(vacuous) > 0 {
		cov["unreached_witnesses"] = vacuous
	}
	var kh []string
	for k := range knownHit {
		kh = append(kh, k)
	}
	sort.Strings(kh)
	if len(kh) > 0 {
		cov["known_findings_seen"] = kh
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	tier := r.tier
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"wall_s": round3(time.Since(t0).Seconds()), "violations": violations,
		"assumptions": append([]string{}, r.cfg.Assumptions...)}
	b, _ := json.MarshalIndent(ev, "", " ")
	if prop != "X00" {
		os.MkdirAll(filepath.Join(r.verif, "evidence"), 0755)
		if err := os.WriteFile(filepath.Join(r.verif, "evidence", prop+".json"), append(b, '\n'), 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	if nat.err != nil {
		fmt.Fprintln(os.Stderr, nat.err)
		return 2
	}
	for _, l := range lines {
		fmt.Println(l)
	}
	for _, s := range spurious {
		fmt.Println("NOTE inconclusive:", s)
	}
	for _, s := range mismatches {
		fmt.Println("NOTE trace mismatch:", s)
	}
	for _, s := range vacuous {
		fmt.Println("NOTE witness not reached:", s)
	}
	for _, h := range res {
		for k, n := range h.ex.errs {
			fmt.Printf("NOTE %s: engine limit: %s (%d paths)\n", h.fn, k, n)
		}
		for k, n := range h.ex.cuts {
			fmt.Printf("NOTE %s: cut: %s (%d paths)\n", h.fn, k, n)
		}
		if h.ex.timedOut {
			fmt.Printf("NOTE %s: time limit hit, %d prefixes left\n", h.fn, h.ex.pendingLeft)
		}
	}
	fmt.Printf("%s %s: paths=%d assertions=%d queries=%d (unsat %d, unknown %d) solver=%.1fs traces validated=%d mismatched=%d exhaustive=%v wall=%.1fs\n",
		prop, tier, paths, asserts, queries, unsat, unknown, solverS, validated, mismatched, allExh, time.Since(t0).Seconds())
	return exit
}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' {
			return r
		}
		return '-'
	}, s)
}

func round3(f float64) float64 { return float64(int64(f*1000)) / 1000 }
