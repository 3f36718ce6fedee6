package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type satResult int

const (
	resUnsat satResult = iota
	resSat
	resUnknown
)

// solver drives one SMT solver process over SMT-LIB 2 with push/pop.
type solver struct {
	argv    []string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	buf     strings.Builder // pending output to the solver
	epoch   int32
	vars    []*Term
	asserts []*Term // path-level assertions, for the cross-check solver
	queries int64
	sat     int64
	unsat   int64
	unknown int64
	elapsed time.Duration
	dead    bool
}

func newSolver(argv ...string) *solver {
	s := &solver{argv: argv}
	s.start()
	return s
}

func (s *solver) start() {
	s.cmd = exec.Command(s.argv[0], s.argv[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.buf.Reset()
	if strings.Contains(s.argv[0], "z3") {
		s.buf.WriteString("(set-option :timeout 20000)\n")
	}
	s.buf.WriteString("(set-option :produce-models true)\n(set-logic QF_BV)\n")
	s.dead = false
}

func (s *solver) close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *solver) restart() {
	s.close()
	s.start()
}

// beginPath opens the assertion frame of a new path.
func (s *solver) beginPath() {
	s.epoch++
	s.vars = s.vars[:0]
	s.asserts = s.asserts[:0]
	s.buf.WriteString("(push 1)\n")
}

func (s *solver) endPath() {
	s.buf.WriteString("(pop 1)\n")
	if s.buf.Len() > 1<<20 {
		s.flush()
	}
}

func (s *solver) flush() {
	if s.buf.Len() == 0 {
		return
	}
	if _, err := io.WriteString(s.in, s.buf.String()); err != nil {
		s.dead = true
	}
	s.buf.Reset()
}

func (s *solver) define(t *Term) {
	if t.defined == s.epoch || t.op == tConst {
		return
	}
	t.defined = s.epoch
	if t.op == tVar {
		fmt.Fprintf(&s.buf, "(declare-const |%s| %s)\n", t.name, sortName(t.w))
		s.vars = append(s.vars, t)
		return
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s.define(x)
		}
	}
	fmt.Fprintf(&s.buf, "(define-fun t%d () %s %s)\n", t.id, sortName(t.w), t.body())
}

func (s *solver) assert(t *Term) {
	if t.isTrue() {
		return
	}
	s.define(t)
	s.asserts = append(s.asserts, t)
	fmt.Fprintf(&s.buf, "(assert %s)\n", t.ref())
}

// check decides the satisfiability of the path's assertions together with extra;
// when satisfiable it returns a model of all variables of the path.
func (s *solver) check(extra *Term) (satResult, map[string]uint64) {
	if extra != nil && extra.isFalse() {
		return resUnsat, nil
	}
	start := time.Now()
	defer func() { s.elapsed += time.Since(start) }()
	s.queries++
	if extra != nil {
		s.define(extra)
		fmt.Fprintf(&s.buf, "(push 1)\n(assert %s)\n", extra.ref())
	}
	s.buf.WriteString("(check-sat)\n")
	s.flush()
	line := s.readLine()
	var res satResult
	var model map[string]uint64
	switch line {
	case "sat":
		res = resSat
		s.sat++
		model = s.getModel()
		if model == nil {
			res = resUnknown
		}
	case "unsat":
		res = resUnsat
		s.unsat++
	default:
		res = resUnknown
		s.unknown++
		if strings.HasPrefix(line, "(error") || line == "" {
			s.dead = true
		}
	}
	if extra != nil {
		s.buf.WriteString("(pop 1)\n")
	}
	return res, model
}

func (s *solver) readLine() string {
	if s.dead {
		return ""
	}
	line, err := s.out.ReadString('\n')
	if err != nil {
		s.dead = true
		return ""
	}
	return strings.TrimSpace(line)
}

func (s *solver) getModel() map[string]uint64 {
	m := map[string]uint64{}
	if len(s.vars) == 0 {
		return m
	}
	s.buf.WriteString("(get-value (")
	for _, v := range s.vars {
		s.buf.WriteString(v.ref())
		s.buf.WriteByte(' ')
	}
	s.buf.WriteString("))\n")
	s.flush()
	// read a balanced s-expression
	depth := 0
	started := false
	var sb strings.Builder
	inBar := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			s.dead = true
			return nil
		}
		sb.WriteByte(c)
		if c == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if c == '(' {
			depth++
			started = true
		} else if c == ')' {
			depth--
			if started && depth == 0 {
				break
			}
		}
	}
	s.readLine()
	txt := sb.String()
	if strings.HasPrefix(strings.TrimSpace(txt), "(error") {
		return nil
	}
	for _, v := range s.vars {
		key := "(|" + v.name + "| "
		i := strings.Index(txt, key)
		if i < 0 {
			key = "(" + v.name + " "
			i = strings.Index(txt, key)
			if i < 0 {
				return nil
			}
		}
		rest := txt[i+len(key):]
		j := strings.IndexByte(rest, ')')
		lit := strings.TrimSpace(rest[:j])
		switch {
		case lit == "true":
			m[v.name] = 1
		case lit == "false":
			m[v.name] = 0
		case strings.HasPrefix(lit, "#x"):
			u, _ := strconv.ParseUint(lit[2:], 16, 64)
			m[v.name] = u
		case strings.HasPrefix(lit, "#b"):
			u, _ := strconv.ParseUint(lit[2:], 2, 64)
			m[v.name] = u
		default:
			return nil
		}
	}
	return m
}
