package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"time"
)

// Solver drives one z3 process with an assertion stack kept in step with the
// current path condition.
type Solver struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	inc     io.WriteCloser
	out     *bufio.Reader
	stack   []*Term          // asserted path terms
	defs    []map[*Term]bool // defined terms, by level (defs[0] = base)
	queries int64
	dur     time.Duration
	unknown int64
	n       int
	timeout int
	binary  string
}

func NewSolver(binary string, timeoutMs int) *Solver {
	s := &Solver{binary: binary, timeout: timeoutMs}
	s.start()
	return s
}

func (s *Solver) start() {
	args := []string{"-in", fmt.Sprintf("-t:%d", s.timeout)}
	if strings.Contains(s.binary, "cvc5") {
		args = []string{"--incremental", "--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit-per=%d", s.timeout)}
	}
	s.cmd = exec.Command(s.binary, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.stack = nil
	s.defs = []map[*Term]bool{{}}
	s.n = 0
	if strings.Contains(s.binary, "cvc5") {
		fmt.Fprintf(s.in, "(set-logic QF_BV)\n")
	} else {
		fmt.Fprintf(s.in, "(set-option :produce-models true)\n")
	}
}

func (s *Solver) Close() {
	s.inc.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *Solver) defined(t *Term) bool {
	for _, m := range s.defs {
		if m[t] {
			return true
		}
	}
	return false
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		return smtConst(t.w, t.val)
	case OVar:
		return smtName(t.name)
	}
	return fmt.Sprintf("t%d", t.id)
}

func (s *Solver) define(t *Term) {
	if t.op == OConst || s.defined(t) {
		return
	}
	top := s.defs[len(s.defs)-1]
	if t.op == OVar {
		fmt.Fprintf(s.in, "(declare-const %s %s)\n", smtName(t.name), smtSort(t.w))
		top[t] = true
		return
	}
	for _, a := range t.args {
		s.define(a)
	}
	fmt.Fprintf(s.in, "(define-fun t%d () %s (%s", t.id, smtSort(t.w), t.head())
	for _, a := range t.args {
		s.in.WriteByte(' ')
		s.in.WriteString(s.ref(a))
	}
	s.in.WriteString("))\n")
	top[t] = true
}

func (s *Solver) push() {
	s.in.WriteString("(push 1)\n")
	s.defs = append(s.defs, map[*Term]bool{})
}
func (s *Solver) pop(n int) {
	if n == 0 {
		return
	}
	fmt.Fprintf(s.in, "(pop %d)\n", n)
	s.defs = s.defs[:len(s.defs)-n]
}

func (s *Solver) sync(path []*Term) {
	i := 0
	for i < len(path) && i < len(s.stack) && path[i] == s.stack[i] {
		i++
	}
	s.pop(len(s.stack) - i)
	s.stack = s.stack[:i]
	for ; i < len(path); i++ {
		s.push()
		s.define(path[i])
		fmt.Fprintf(s.in, "(assert %s)\n", s.ref(path[i]))
		s.stack = append(s.stack, path[i])
	}
}

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

// Check decides path ∧ extra. On Sat the model of all the variables of path and
// extra is returned.
func (s *Solver) Check(path []*Term, extra *Term) (Res, map[string]uint64) {
	t0 := time.Now()
	defer func() { s.dur += time.Since(t0) }()
	s.queries++
	s.n++
	if s.n > 20000 {
		s.Close()
		s.start()
	}
	s.sync(path)
	s.push()
	s.define(extra)
	fmt.Fprintf(s.in, "(assert %s)\n(check-sat)\n", s.ref(extra))
	line := s.readLine()
	switch line {
	case "unsat":
		s.pop(1)
		return Unsat, nil
	case "sat":
	default:
		if strings.HasPrefix(line, "(error") {
			fmt.Fprintln(os.Stderr, "SOLVER:", line)
		}
		s.unknown++
		s.Close()
		s.start()
		return Unknown, nil
	}
	vars := map[*Term]bool{}
	for _, v := range extra.Vars() {
		vars[v] = true
	}
	for _, p := range path {
		for _, v := range p.Vars() {
			vars[v] = true
		}
	}
	m := map[string]uint64{}
	if len(vars) > 0 {
		s.in.WriteString("(get-value (")
		byName := map[string]*Term{}
		for v := range vars {
			byName[smtName(v.name)] = v
			s.in.WriteString(smtName(v.name))
			s.in.WriteByte(' ')
		}
		s.in.WriteString("))\n")
		txt := s.readSexp()
		parseModel(txt, byName, m)
	}
	s.pop(1)
	return Sat, m
}

func (s *Solver) readLine() string {
	s.in.Flush()
	l, err := s.out.ReadString('\n')
	if err != nil {
		return "(error \"" + err.Error() + "\")"
	}
	return strings.TrimSpace(l)
}

func (s *Solver) readSexp() string {
	s.in.Flush()
	var sb strings.Builder
	depth := 0
	quoted := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return sb.String()
		}
		if c == '|' {
			quoted = !quoted
		}
		if !quoted {
			if c == '(' {
				depth++
			} else if c == ')' {
				depth--
			}
		}
		sb.WriteByte(c)
		if depth == 0 && c == ')' {
			s.out.ReadString('\n')
			return sb.String()
		}
	}
}

func parseModel(txt string, byName map[string]*Term, m map[string]uint64) {
	// ((|a| #x00) (|b| true) ...)
	i := 0
	next := func() string {
		for i < len(txt) && (txt[i] == ' ' || txt[i] == '\n' || txt[i] == '\r') {
			i++
		}
		if i >= len(txt) {
			return ""
		}
		switch txt[i] {
		case '(', ')':
			i++
			return txt[i-1 : i]
		case '|':
			j := strings.IndexByte(txt[i+1:], '|') + i + 2
			t := txt[i:j]
			i = j
			return t
		}
		j := i
		for j < len(txt) && !strings.ContainsRune(" \n()", rune(txt[j])) {
			j++
		}
		t := txt[i:j]
		i = j
		return t
	}
	for {
		t := next()
		if t == "" {
			return
		}
		if t == "(" || t == ")" {
			continue
		}
		name := t
		if !strings.HasPrefix(name, "|") {
			name = "|" + name + "|"
		}
		v := byName[name]
		val := next()
		if v == nil {
			continue
		}
		var x uint64
		switch {
		case val == "true":
			x = 1
		case val == "false":
			x = 0
		case strings.HasPrefix(val, "#x"):
			fmt.Sscanf(val[2:], "%x", &x)
		case strings.HasPrefix(val, "#b"):
			fmt.Sscanf(val[2:], "%b", &x)
		}
		m[v.name] = x
	}
}
