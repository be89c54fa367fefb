package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strings"
	"time"
)

// Solver is one live SMT-LIB2 process (z3 by default).
type Solver struct {
	c         *Ctx
	name      string
	cmd       *exec.Cmd
	in        io.WriteCloser
	out       *bufio.Reader
	defined   map[*Expr]bool
	timeoutMS int

	Queries  int
	Sat      int
	Unsat    int
	Unknown  int
	Time     time.Duration
	MaxQuery time.Duration
	log      io.Writer
}

func newSolver(c *Ctx, name string, timeoutMS int) (*Solver, error) {
	s := &Solver{c: c, name: name, timeoutMS: timeoutMS}
	return s, s.start()
}

func (s *Solver) start() error {
	var cmd *exec.Cmd
	switch s.name {
	case "cvc5":
		cmd = exec.Command("cvc5", "--incremental", "--produce-models", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", s.timeoutMS))
	default:
		cmd = exec.Command(s.name, "-in", "-smt2")
	}
	in, err := cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := cmd.Start(); err != nil {
		return err
	}
	s.cmd, s.in, s.out = cmd, in, bufio.NewReaderSize(out, 1<<16)
	s.defined = map[*Expr]bool{}
	for _, e := range s.c.tab {
		e.emitted = false
	}
	if s.name != "cvc5" {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.timeoutMS)
	}
	fmt.Fprintf(s.in, "(set-option :produce-models true)\n(set-logic QF_BV)\n")
	return nil
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) ref(e *Expr) string {
	switch e.op {
	case OConst:
		if e.w == 0 {
			if e.val == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", e.val, e.w)
	case OVar:
		return "|" + e.name + "|"
	}
	return fmt.Sprintf("e%d", e.id)
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (s *Solver) emit(sb *strings.Builder, e *Expr) {
	if e.emitted || e.op == OConst {
		return
	}
	e.emitted = true
	if e.op == OVar {
		fmt.Fprintf(sb, "(declare-const |%s| %s)\n", e.name, sortOf(e.w))
		return
	}
	for _, a := range e.args {
		s.emit(sb, a)
	}
	fmt.Fprintf(sb, "(define-fun e%d () %s ", e.id, sortOf(e.w))
	switch e.op {
	case OZExt:
		fmt.Fprintf(sb, "((_ zero_extend %d) %s)", e.w-e.args[0].w, s.ref(e.args[0]))
	case OSExt:
		fmt.Fprintf(sb, "((_ sign_extend %d) %s)", e.w-e.args[0].w, s.ref(e.args[0]))
	case OTrunc:
		fmt.Fprintf(sb, "((_ extract %d 0) %s)", e.w-1, s.ref(e.args[0]))
	default:
		sb.WriteString("(" + opNames[e.op])
		for _, a := range e.args {
			sb.WriteString(" " + s.ref(a))
		}
		sb.WriteString(")")
	}
	sb.WriteString(")\n")
}

func collectVars(es []*Expr) []*Expr {
	seen := map[*Expr]bool{}
	var vars []*Expr
	var walk func(e *Expr)
	walk = func(e *Expr) {
		if !e.hasVars || seen[e] {
			return
		}
		seen[e] = true
		if e.op == OVar {
			vars = append(vars, e)
			return
		}
		for _, a := range e.args {
			walk(a)
		}
	}
	for _, e := range es {
		walk(e)
	}
	return vars
}

type Sat int

const (
	SatNo Sat = iota
	SatYes
	SatUnknown
)

// check decides the conjunction of cs; on SatYes it returns values for the variables of cs.
func (s *Solver) check(cs []*Expr) (Sat, map[*Expr]uint64, error) {
	t0 := time.Now()
	s.Queries++
	var sb strings.Builder
	for _, e := range cs {
		s.emit(&sb, e)
	}
	sb.WriteString("(push 1)\n")
	for _, e := range cs {
		fmt.Fprintf(&sb, "(assert %s)\n", s.ref(e))
	}
	vars := collectVars(cs)
	sb.WriteString("(check-sat)\n(echo \"--eoc--\")\n")
	if s.log != nil {
		io.WriteString(s.log, sb.String())
	}
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		return SatUnknown, nil, err
	}
	res := SatUnknown
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			return SatUnknown, nil, fmt.Errorf("solver died: %v", err)
		}
		line = strings.TrimSpace(line)
		if strings.HasPrefix(line, "(error") {
			return SatUnknown, nil, fmt.Errorf("solver error: %s", line)
		}
		if strings.Trim(line, "\"") == "--eoc--" {
			break
		}
		switch line {
		case "sat":
			res = SatYes
		case "unsat":
			res = SatNo
		}
	}
	var model map[*Expr]uint64
	if res == SatYes {
		s.Sat++
		model = map[*Expr]uint64{}
		if len(vars) > 0 {
			var q strings.Builder
			q.WriteString("(get-value (")
			for _, v := range vars {
				q.WriteString(" " + s.ref(v))
			}
			q.WriteString("))\n(echo \"--eov--\")\n")
			if s.log != nil {
				io.WriteString(s.log, q.String())
			}
			io.WriteString(s.in, q.String())
			var txt strings.Builder
			for {
				line, err := s.out.ReadString('\n')
				if err != nil {
					return SatUnknown, nil, fmt.Errorf("solver died: %v", err)
				}
				if strings.Trim(strings.TrimSpace(line), "\"") == "--eov--" {
					break
				}
				if strings.HasPrefix(line, "(error") {
					return SatUnknown, nil, fmt.Errorf("solver error: %s", line)
				}
				txt.WriteString(line)
			}
			if err := parseValues(txt.String(), s.c, model); err != nil {
				return SatUnknown, nil, err
			}
		}
	} else if res == SatNo {
		s.Unsat++
	} else {
		s.Unknown++
	}
	io.WriteString(s.in, "(pop 1)\n")
	if s.log != nil {
		io.WriteString(s.log, "(pop 1)\n")
	}
	d := time.Since(t0)
	s.Time += d
	if d > s.MaxQuery {
		s.MaxQuery = d
	}
	return res, model, nil
}

func parseValues(txt string, c *Ctx, m map[*Expr]uint64) error {
	// ((|x| #x00) (y true) (|z w| (_ bv3 8)))
	i := 0
	skip := func() {
		for i < len(txt) && (txt[i] == ' ' || txt[i] == '\n' || txt[i] == '\r' || txt[i] == '\t') {
			i++
		}
	}
	skip()
	if i >= len(txt) || txt[i] != '(' {
		return fmt.Errorf("bad get-value answer %q", txt)
	}
	i++
	for {
		skip()
		if i >= len(txt) {
			return fmt.Errorf("truncated get-value answer")
		}
		if txt[i] == ')' {
			return nil
		}
		if txt[i] != '(' {
			return fmt.Errorf("bad get-value answer %q", txt[i:])
		}
		i++
		skip()
		var name string
		if txt[i] == '|' {
			j := strings.IndexByte(txt[i+1:], '|')
			name = txt[i+1 : i+1+j]
			i += j + 2
		} else {
			j := i
			for txt[i] != ' ' && txt[i] != '\n' {
				i++
			}
			name = txt[j:i]
		}
		skip()
		j := i
		depth := 0
		for ; ; i++ {
			if txt[i] == '(' {
				depth++
			} else if txt[i] == ')' {
				if depth == 0 {
					break
				}
				depth--
			}
		}
		val := strings.TrimSpace(txt[j:i])
		i++
		v := c.byNm[name]
		if v == nil {
			return fmt.Errorf("unknown variable %q in model", name)
		}
		var x uint64
		switch {
		case val == "true":
			x = 1
		case val == "false":
			x = 0
		case strings.HasPrefix(val, "#x"):
			fmt.Sscanf(val[2:], "%x", &x)
		case strings.HasPrefix(val, "#b"):
			fmt.Sscanf(val[2:], "%b", &x)
		case strings.HasPrefix(val, "(_ bv"):
			fmt.Sscanf(val[5:], "%d", &x)
		default:
			return fmt.Errorf("bad value %q", val)
		}
		m[v] = x
	}
}
