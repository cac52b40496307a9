package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Res int

const (
	rUnsat Res = iota
	rSat
	rUnknown
)

// SolverStats are accumulated per worker and summed for the evidence.
type SolverStats struct {
	Queries, Sat, Unsat, Unknown, Errors int64
	Time                                 time.Duration
	MaxTime                              time.Duration
}

func (s *SolverStats) add(o *SolverStats) {
	s.Queries += o.Queries
	s.Sat += o.Sat
	s.Unsat += o.Unsat
	s.Unknown += o.Unknown
	s.Errors += o.Errors
	s.Time += o.Time
	if o.MaxTime > s.MaxTime {
		s.MaxTime = o.MaxTime
	}
}

// Solver drives one z3 process with an assertion stack mirrored to the current path condition.
type Solver struct {
	bin     string
	timeout int // ms per query
	cmd     *exec.Cmd
	in      *bufio.Writer
	inc     io.Closer
	out     *bufio.Reader
	defined map[int32]bool
	stack   []*Term
	st      *SolverStats
	ndef    int
	log     io.Writer
}

func newSolver(bin string, timeoutMs int, st *SolverStats) *Solver {
	s := &Solver{bin: bin, timeout: timeoutMs, st: st}
	s.start()
	return s
}

func (s *Solver) start() {
	args := []string{"-in", "-smt2"}
	cvc := strings.HasPrefix(s.bin, "cvc5")
	if cvc {
		args = []string{"--incremental", "--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit-per=%d", s.timeout)}
	}
	s.cmd = exec.Command(s.bin, args...)
	w, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	if d := os.Getenv("GOSYM_LOG"); d != "" {
		f, _ := os.CreateTemp(d, "q*.smt2")
		s.log = f
	}
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.inc = w
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.defined = map[int32]bool{}
	s.stack = nil
	s.ndef = 0
	s.put("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	if cvc {
		s.put("(set-logic QF_BVFP)\n")
		return
	}
	s.put(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout))
}

func (s *Solver) close() {
	if s.cmd == nil {
		return
	}
	s.inc.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.cmd = nil
}

func (s *Solver) put(x string) {
	if s.log != nil {
		io.WriteString(s.log, x)
	}
	s.in.WriteString(x)
}

func (s *Solver) define(t *Term) {
	if t.op == oConst || s.defined[t.id] {
		return
	}
	// iterative post-order to avoid deep recursion
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.t.op == oConst || s.defined[f.t.id] {
			st = st[:len(st)-1]
			continue
		}
		pushed := false
		for f.i < 3 {
			c := f.t.a[f.i]
			f.i++
			if c != nil && c.op != oConst && !s.defined[c.id] {
				st = append(st, fr{c, 0})
				pushed = true
				break
			}
		}
		if pushed {
			continue
		}
		x := f.t
		if x.op == oVar {
			s.put("(declare-const |" + x.name + "| " + x.sort.smt() + ")\n")
		} else {
			s.put("(define-fun t" + strconv.Itoa(int(x.id)) + " () " + x.sort.smt() + " " + smtBody(x) + ")\n")
		}
		s.defined[x.id] = true
		s.ndef++
		st = st[:len(st)-1]
	}
}

// sync makes the solver's assertion stack equal to pc.
func (s *Solver) sync(pc []*Term) {
	if s.ndef > 60000 {
		s.close()
		s.start()
	}
	k := 0
	for k < len(s.stack) && k < len(pc) && s.stack[k] == pc[k] {
		k++
	}
	if n := len(s.stack) - k; n > 0 {
		s.put("(pop " + strconv.Itoa(n) + ")\n")
		s.stack = s.stack[:k]
	}
	for ; k < len(pc); k++ {
		s.define(pc[k])
		s.put("(push 1)\n(assert " + smtRef(pc[k]) + ")\n")
		s.stack = append(s.stack, pc[k])
	}
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// check decides pc ∧ extra. On sat it returns values of vars.
func (s *Solver) check(pc []*Term, extra *Term, vars []*Term) (Res, Model) {
	t0 := time.Now()
	s.sync(pc)
	if extra != nil {
		s.define(extra)
		s.put("(push 1)\n(assert " + smtRef(extra) + ")\n")
	}
	for _, v := range vars {
		s.define(v)
	}
	s.put("(check-sat)\n")
	s.in.Flush()
	s.st.Queries++
	line, err := s.readLine()
	for err == nil && line == "" {
		line, err = s.readLine()
	}
	res := rUnknown
	var m Model
	switch {
	case err != nil:
		s.st.Errors++
		s.close()
		s.start()
		s.st.Unknown++
		return rUnknown, nil
	case line == "sat":
		res = rSat
		s.st.Sat++
		m = s.values(vars)
	case line == "unsat":
		res = rUnsat
		s.st.Unsat++
	case strings.HasPrefix(line, "(error"):
		s.st.Errors++
		s.st.Unknown++
		fmt.Println("SOLVER ERROR:", line)
		// resynchronise by restarting
		s.close()
		s.start()
		return rUnknown, nil
	default:
		s.st.Unknown++
	}
	if extra != nil && s.cmd != nil {
		s.put("(pop 1)\n")
	}
	d := time.Since(t0)
	s.st.Time += d
	if d > s.st.MaxTime {
		s.st.MaxTime = d
	}
	return res, m
}

func (s *Solver) values(vars []*Term) Model {
	m := Model{}
	if len(vars) == 0 {
		return m
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range vars {
		sb.WriteString(smtRef(v))
		sb.WriteByte(' ')
	}
	sb.WriteString("))\n")
	s.put(sb.String())
	s.in.Flush()
	// read balanced s-expression
	depth := 0
	var out []byte
	inbar := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return m
		}
		out = append(out, c)
		if c == '|' {
			inbar = !inbar
		}
		if inbar {
			continue
		}
		if c == '(' {
			depth++
		} else if c == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	// consume the newline
	s.out.ReadString('\n')
	txt := string(out)
	// pairs appear in order: (|name| value) or (name value)
	i := 1
	for _, v := range vars {
		j := strings.IndexByte(txt[i:], '(')
		if j < 0 {
			break
		}
		i += j + 1
		// skip symbol
		if txt[i] == '|' {
			i += strings.IndexByte(txt[i+1:], '|') + 2
		} else {
			i += strings.IndexByte(txt[i:], ' ')
		}
		for txt[i] == ' ' || txt[i] == '\n' {
			i++
		}
		k := strings.IndexByte(txt[i:], ')')
		val := txt[i : i+k]
		i += k + 1
		switch {
		case val == "true":
			m[v.name] = 1
		case val == "false":
			m[v.name] = 0
		case strings.HasPrefix(val, "#x"):
			u, _ := strconv.ParseUint(val[2:], 16, 64)
			m[v.name] = u
		case strings.HasPrefix(val, "#b"):
			u, _ := strconv.ParseUint(val[2:], 2, 64)
			m[v.name] = u
		default:
			panic("value? " + val)
		}
	}
	return m
}
