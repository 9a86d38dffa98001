package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

var (
	statQueries, statSat, statUnsat, statUnknown int64
	statSolverNs, statSecond                     int64
)

// Solver is one persistent SMT solver process with an assertion stack mirrored in asserted.
type Solver struct {
	path      string
	args      []string
	cmd       *exec.Cmd
	in        *bufio.Writer
	inc       io.WriteCloser
	out       *bufio.Reader
	defined   map[uint32]bool
	asserted  []*Term
	timeoutMs int
	dead      bool
	log       io.Writer
}

func NewSolver(path string, timeoutMs int) *Solver {
	s := &Solver{path: path, timeoutMs: timeoutMs}
	s.start()
	return s
}

func (s *Solver) start() {
	args := []string{"-in"}
	s.cmd = exec.Command(s.path, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = map[uint32]bool{}
	s.asserted = nil
	s.dead = false
	s.put("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	s.put(fmt.Sprintf("(set-option :timeout %d)\n(set-logic QF_BV)\n", s.timeoutMs))
}

func (s *Solver) put(x string) {
	if s.log != nil {
		io.WriteString(s.log, x)
	}
	s.in.WriteString(x)
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

func (s *Solver) Close() {
	s.inc.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

// define emits definitions for t and everything below it (iteratively, bottom up).
func (s *Solver) define(t *Term) {
	if t.op == OConst || s.defined[t.id] {
		return
	}
	stack := []*Term{t}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		if x.op == OConst || s.defined[x.id] {
			stack = stack[:len(stack)-1]
			continue
		}
		if x.op == OVar {
			s.put(fmt.Sprintf("(declare-const v%d %s)\n", x.id, sortName(x.w)))
			s.defined[x.id] = true
			stack = stack[:len(stack)-1]
			continue
		}
		ready := true
		for _, y := range []*Term{x.a, x.b, x.c} {
			if y != nil && y.op != OConst && !s.defined[y.id] {
				stack = append(stack, y)
				ready = false
			}
		}
		if ready {
			s.put(fmt.Sprintf("(define-fun t%d () %s %s)\n", x.id, sortName(x.w), smtBody(x)))
			s.defined[x.id] = true
			stack = stack[:len(stack)-1]
		}
	}
}

// sync makes the solver's assertion stack equal to pc.
func (s *Solver) sync(pc []*Term) {
	n := 0
	for n < len(pc) && n < len(s.asserted) && pc[n] == s.asserted[n] {
		n++
	}
	if k := len(s.asserted) - n; k > 0 {
		s.put(fmt.Sprintf("(pop %d)\n", k))
		s.asserted = s.asserted[:n]
	}
	for _, t := range pc[n:] {
		s.define(t)
		s.put("(push 1)\n(assert " + smtRef(t) + ")\n")
		s.asserted = append(s.asserted, t)
	}
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// Check decides pc && extra; when sat it returns values for vars.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term) (Result, map[*Term]uint64) {
	if extra == False {
		return Unsat, nil
	}
	if len(s.defined) > 400000 {
		s.restart()
	}
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		atomic.AddInt64(&statSolverNs, int64(d))
		if dir := os.Getenv("VF_SLOW"); dir != "" && d > 2*time.Second {
			s.dump(filepath.Join(dir, fmt.Sprintf("q%d-%ds.smt2", atomic.LoadInt64(&statQueries), int(d.Seconds()))), pc, extra)
		}
	}()
	atomic.AddInt64(&statQueries, 1)
	s.sync(pc)
	if extra != nil && extra != True {
		s.define(extra)
		s.put("(push 1)\n(assert " + smtRef(extra) + ")\n")
	}
	for _, v := range vars {
		s.define(v)
	}
	s.put("(check-sat)\n")
	s.in.Flush()
	done := time.AfterFunc(time.Duration(s.timeoutMs)*time.Millisecond*3+5*time.Second, func() { s.cmd.Process.Kill() })
	l, err := s.readLine()
	done.Stop()
	res := Unknown
	var model map[*Term]uint64
	if err == nil {
		switch {
		case l == "sat":
			res = Sat
		case l == "unsat":
			res = Unsat
		case l == "unknown" || strings.Contains(l, "timeout"):
		default:
			if strings.HasPrefix(l, "(error") {
				panic("solver error: " + l)
			}
		}
		if res == Sat {
			model, err = s.values(vars)
		}
	}
	if err != nil {
		s.restart()
		res = Unknown
	} else if extra != nil && extra != True {
		s.put("(pop 1)\n")
	}
	if res == Unknown {
		res, model = s.second(pc, extra, vars)
	}
	switch res {
	case Sat:
		atomic.AddInt64(&statSat, 1)
	case Unsat:
		atomic.AddInt64(&statUnsat, 1)
	default:
		atomic.AddInt64(&statUnknown, 1)
	}
	return res, model
}

func (s *Solver) values(vars []*Term) (map[*Term]uint64, error) {
	m := make(map[*Term]uint64, len(vars))
	if len(vars) == 0 {
		return m, nil
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range vars {
		sb.WriteString(smtRef(v))
		sb.WriteByte(' ')
	}
	sb.WriteString("))\n")
	s.put(sb.String())
	s.in.Flush()
	return readValues(s.out, vars)
}

// second asks cvc5, which turns the bit vectors into integers.
func (s *Solver) second(pc []*Term, extra *Term, vars []*Term) (Result, map[*Term]uint64) {
	f, err := os.CreateTemp("", "vfq")
	if err != nil {
		return Unknown, nil
	}
	f.Close()
	defer os.Remove(f.Name())
	s.dump(f.Name(), pc, extra)
	q, err := os.ReadFile(f.Name())
	if err != nil || len(q) > 2<<20 {
		return Unknown, nil
	}
	body := string(q)
	known := map[*Term]bool{}
	var ask []*Term
	var sb strings.Builder
	for _, v := range vars {
		if v.op == OVar && strings.Contains(body, "(declare-const "+smtRef(v)+" ") && !known[v] {
			known[v] = true
			ask = append(ask, v)
			sb.WriteString(smtRef(v) + " ")
		}
	}
	if len(ask) > 0 {
		body += "(get-value (" + sb.String() + "))\n"
	}
	if os.WriteFile(f.Name(), []byte(body), 0o600) != nil {
		return Unknown, nil
	}
	out, _ := exec.Command("cvc5", "--solve-bv-as-int=sum", "--produce-models", "--tlimit=5000", f.Name()).Output()
	r := bufio.NewReader(strings.NewReader(string(out)))
	l, _ := r.ReadString('\n')
	switch strings.TrimSpace(l) {
	case "unsat":
		atomic.AddInt64(&statSecond, 1)
		return Unsat, nil
	case "sat":
		if len(ask) == 0 {
			return Sat, map[*Term]uint64{}
		}
		m, err := readValues(r, ask)
		if err != nil {
			return Unknown, nil
		}
		atomic.AddInt64(&statSecond, 1)
		return Sat, m
	}
	return Unknown, nil
}

func readValues(out *bufio.Reader, vars []*Term) (map[*Term]uint64, error) {
	m := make(map[*Term]uint64, len(vars))
	depth, started := 0, false
	var text strings.Builder
	for !started || depth > 0 {
		l, err := out.ReadString('\n')
		if err != nil {
			return nil, err
		}
		for _, c := range l {
			if c == '(' {
				depth++
				started = true
			} else if c == ')' {
				depth--
			}
		}
		text.WriteString(l)
	}
	toks := strings.FieldsFunc(text.String(), func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' })
	byRef := make(map[string]*Term, len(vars))
	for _, v := range vars {
		byRef[smtRef(v)] = v
	}
	for i := 0; i+1 < len(toks); i++ {
		v, ok := byRef[toks[i]]
		if !ok {
			continue
		}
		i++
		x := toks[i]
		switch {
		case x == "true":
			m[v] = 1
		case x == "false":
			m[v] = 0
		case strings.HasPrefix(x, "#x"):
			m[v], _ = strconv.ParseUint(x[2:], 16, 64)
		case strings.HasPrefix(x, "#b"):
			m[v], _ = strconv.ParseUint(x[2:], 2, 64)
		case x == "_" && i+1 < len(toks) && strings.HasPrefix(toks[i+1], "bv"):
			m[v], _ = strconv.ParseUint(toks[i+1][2:], 10, 64)
			i += 2
		}
	}
	return m, nil
}

// dump writes a query as a file of its own.
func (s *Solver) dump(path string, pc []*Term, extra *Term) {
	var sb strings.Builder
	seen := map[uint32]bool{}
	var def func(t *Term)
	def = func(t *Term) {
		if t == nil || t.op == OConst || seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == OVar {
			fmt.Fprintf(&sb, "(declare-const v%d %s)\n", t.id, sortName(t.w))
			return
		}
		def(t.a)
		def(t.b)
		def(t.c)
		fmt.Fprintf(&sb, "(define-fun t%d () %s %s)\n", t.id, sortName(t.w), smtBody(t))
	}
	sb.WriteString("(set-logic QF_BV)\n")
	for _, t := range append(append([]*Term{}, pc...), extra) {
		if t == nil || t == True {
			continue
		}
		def(t)
		fmt.Fprintf(&sb, "(assert %s)\n", smtRef(t))
	}
	sb.WriteString("(check-sat)\n")
	os.WriteFile(path, []byte(sb.String()), 0644)
}
