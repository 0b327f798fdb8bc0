package main

// One long-lived SMT solver process per worker, driven over SMT-LIB2 pipes.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

type SolverStats struct {
	Queries  int64
	Sat      int64
	Unsat    int64
	Unknown  int64
	Time     time.Duration
	MaxQuery time.Duration
}

type Solver struct {
	bin     string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inc     io.WriteCloser
	out     *bufio.Reader
	stack   []*Term // asserted, one push each
	emitted []*Term
	declVar []*Term
	timeout int // ms
	st      SolverStats
	nterms  int
	log     *os.File
}

func newSolver(bin string, timeoutMS int) *Solver {
	s := &Solver{bin: bin, timeout: timeoutMS}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("gosym: cannot start solver %s: %v", s.bin, err))
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.send("(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout))
}

func (s *Solver) send(t string) {
	if s.log != nil {
		s.log.WriteString(t)
	}
	s.in.WriteString(t)
}

func (s *Solver) close() {
	if s.cmd == nil {
		return
	}
	s.in.Flush()
	s.inc.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.cmd = nil
}

// reset restarts the process and forgets which terms were sent.
func (s *Solver) reset() {
	s.close()
	for _, t := range s.emitted {
		t.emitted = false
	}
	s.emitted = nil
	s.declVar = nil
	s.stack = nil
	s.nterms = 0
	s.start()
}

func (s *Solver) emit(t *Term) {
	if t.emitted || t.op == OConst {
		return
	}
	// iterative post-order to avoid deep native recursion
	type it struct {
		t *Term
		d bool
	}
	st := []it{{t, false}}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x.t == nil || x.t.emitted || x.t.op == OConst {
			continue
		}
		if !x.d {
			st = append(st, it{x.t, true}, it{x.t.a, false}, it{x.t.b, false}, it{x.t.c, false})
			continue
		}
		x.t.emitted = true
		s.emitted = append(s.emitted, x.t)
		s.nterms++
		if x.t.op == OVar {
			s.declVar = append(s.declVar, x.t)
			s.send("(declare-const " + x.t.ref() + " " + sortOf(x.t.w) + ")\n")
		} else {
			s.send("(define-fun " + x.t.ref() + " () " + sortOf(x.t.w) + " " + x.t.body() + ")\n")
		}
	}
}

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		return "(error \"solver died: " + err.Error() + "\")"
	}
	return strings.TrimSpace(l)
}

// sync makes the asserted stack equal to pc.
func (s *Solver) sync(pc []*Term) {
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if d := len(s.stack) - n; d > 0 {
		s.send("(pop " + strconv.Itoa(d) + ")\n")
		s.stack = s.stack[:n]
	}
	for ; n < len(pc); n++ {
		s.emit(pc[n])
		s.send("(push 1)\n(assert " + pc[n].ref() + ")\n")
		s.stack = append(s.stack, pc[n])
	}
}

// Check decides pc && extra. If sat and wantModel, returns a model of all
// declared variables that occur.
func (s *Solver) Check(pc []*Term, extra *Term, wantModel bool) (SatRes, Model) {
	t0 := time.Now()
	s.sync(pc)
	s.emit(extra)
	s.send("(push 1)\n(assert " + extra.ref() + ")\n(check-sat)\n")
	s.in.Flush()
	r := s.readLine()
	var res SatRes
	var m Model
	switch r {
	case "sat":
		res = Sat
		s.st.Sat++
		if wantModel {
			m = s.model(pc, extra)
			if m == nil {
				res = Unknown
			}
		}
	case "unsat":
		res = Unsat
		s.st.Unsat++
	default:
		res = Unknown
		s.st.Unknown++
		if strings.HasPrefix(r, "(error") {
			fmt.Fprintln(os.Stderr, "gosym: solver:", r)
			s.st.Queries++
			s.reset()
			return Unknown, nil
		}
	}
	s.send("(pop 1)\n")
	d := time.Since(t0)
	s.st.Queries++
	s.st.Time += d
	if d > s.st.MaxQuery {
		s.st.MaxQuery = d
	}
	return res, m
}

func (s *Solver) model(pc []*Term, extra *Term) Model {
	m := Model{}
	if len(s.declVar) == 0 {
		return m
	}
	// restrict to variables of this query
	seen := map[*Term]bool{}
	var vs []*Term
	for _, t := range pc {
		collectVars(t, seen, &vs)
	}
	collectVars(extra, seen, &vs)
	if len(vs) == 0 {
		return m
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range vs {
		sb.WriteString(v.ref())
		sb.WriteByte(' ')
	}
	sb.WriteString("))\n")
	s.send(sb.String())
	s.in.Flush()
	// read balanced s-expression
	depth := 0
	var txt strings.Builder
	for {
		l := s.readLine()
		if strings.HasPrefix(l, "(error") {
			fmt.Fprintln(os.Stderr, "gosym: solver:", l)
			return nil
		}
		txt.WriteString(l)
		txt.WriteByte(' ')
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if depth <= 0 {
			break
		}
	}
	toks := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(txt.String()))
	byRef := map[string]*Term{}
	for _, v := range vs {
		byRef[v.ref()] = v
	}
	for i := 0; i+1 < len(toks); i++ {
		v, ok := byRef[toks[i]]
		if !ok {
			continue
		}
		x := toks[i+1]
		switch {
		case x == "true":
			m[v.name] = 1
		case x == "false":
			m[v.name] = 0
		case strings.HasPrefix(x, "#x"):
			u, _ := strconv.ParseUint(x[2:], 16, 64)
			m[v.name] = u
		case strings.HasPrefix(x, "#b"):
			u, _ := strconv.ParseUint(x[2:], 2, 64)
			m[v.name] = u
		}
	}
	return m
}
