package engine

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver is one live SMT solver process.
type Solver struct {
	bin     string
	args    []string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	Queries int
	Sat     int
	Unsat   int
	Unknown int
	Time    time.Duration
	Errors  []string
}

// NewSolver prepares a solver; the process starts with the first query.
func NewSolver(bin string, args ...string) *Solver { return &Solver{bin: bin, args: args} }

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin, s.args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in, s.out = in, bufio.NewReader(out)
	_, err = io.WriteString(s.in, "(set-option :print-success false)\n(set-option :produce-models true)\n(set-logic QF_BV)\n")
	if err == nil && strings.Contains(s.bin, "z3") {
		_, err = io.WriteString(s.in, "(set-option :timeout 10000)\n")
	}
	return err
}

// Close ends the process.
func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// Result of a query.
type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

// Check decides the conjunction of ts. With want non-nil and a sat answer it
// returns values for those variables.
func (s *Solver) Check(ts []*Term, want []*Term) (Result, map[*Term]uint64) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	if s.cmd == nil {
		if err := s.start(); err != nil {
			s.Errors = append(s.Errors, err.Error())
			s.Unknown++
			return Unknown, nil
		}
	}
	var sb strings.Builder
	sb.WriteString("(push 1)\n")
	all := ts
	ex := smtEmit(&sb, append(append([]*Term(nil), all...), want...))
	for i := range ts {
		fmt.Fprintf(&sb, "(assert %s)\n", ex[i])
	}
	sb.WriteString("(check-sat)\n(echo \"done\")\n")
	lines, err := s.talk(sb.String())
	if err != nil {
		s.fail(err)
		return Unknown, nil
	}
	res := Unknown
	for _, l := range lines {
		switch {
		case l == "sat":
			res = Sat
		case l == "unsat":
			res = Unsat
		case strings.HasPrefix(l, "(error"):
			s.Errors = append(s.Errors, l)
			s.fail(nil)
			return Unknown, nil
		}
	}
	var m map[*Term]uint64
	if res == Sat && len(want) > 0 {
		m = map[*Term]uint64{}
		var q strings.Builder
		q.WriteString("(get-value (")
		for _, v := range want {
			q.WriteString(v.name + " ")
		}
		q.WriteString("))\n(echo \"done\")\n")
		lines, err := s.talk(q.String())
		if err != nil {
			s.fail(err)
			return Unknown, nil
		}
		toks := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(strings.Join(lines, " ")))
		byName := map[string]*Term{}
		for _, v := range want {
			byName[v.name] = v
		}
		for i := 0; i+1 < len(toks); i++ {
			v, ok := byName[toks[i]]
			if !ok {
				continue
			}
			x := toks[i+1]
			var n uint64
			switch {
			case strings.HasPrefix(x, "#x"):
				n, _ = strconv.ParseUint(x[2:], 16, 64)
			case strings.HasPrefix(x, "#b"):
				n, _ = strconv.ParseUint(x[2:], 2, 64)
			case x == "true":
				n = 1
			}
			m[v] = n
			i++
		}
	}
	if _, err := io.WriteString(s.in, "(pop 1)\n"); err != nil {
		s.fail(err)
	}
	switch res {
	case Sat:
		s.Sat++
	case Unsat:
		s.Unsat++
	default:
		s.Unknown++
	}
	return res, m
}

// Certify decides, for each certificate, whether the path is feasible and whether
// it is infeasible together with the negated assertions: Unsat when both are so,
// Sat when the solver contradicts one of them.
func (s *Solver) Certify(cs []certificate) []Result {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	out := make([]Result, len(cs))
	if s.cmd == nil {
		if err := s.start(); err != nil {
			s.Errors = append(s.Errors, err.Error())
			return out
		}
	}
	var text strings.Builder
	for _, c := range cs {
		s.Queries++
		text.WriteString("(push 1)\n" + c.q + "(check-sat)\n")
		if c.neg != "" {
			s.Queries++
			text.WriteString("(assert " + c.neg + ")\n(check-sat)\n")
		}
		text.WriteString("(pop 1)\n")
	}
	text.WriteString("(echo \"done\")\n")
	errc := make(chan error, 1)
	in := s.in
	go func() { _, err := io.WriteString(in, text.String()); errc <- err }()
	lines, err := s.talk("")
	if e := <-errc; err == nil {
		err = e
	}
	if err != nil {
		s.fail(err)
		return out
	}
	for _, l := range lines {
		switch l {
		case "sat":
			s.Sat++
		case "unsat":
			s.Unsat++
		case "unknown":
			s.Unknown++
		default:
			s.Errors = append(s.Errors, l)
			s.fail(nil)
			return out
		}
	}
	i := 0
	next := func() string {
		if i < len(lines) {
			i++
			return lines[i-1]
		}
		return "unknown"
	}
	for j, c := range cs {
		feas, closed := next(), "unsat"
		if c.neg != "" {
			closed = next()
		}
		switch {
		case feas == "unsat" || closed == "sat":
			out[j] = Sat
		case feas == "sat" && closed == "unsat":
			out[j] = Unsat
		}
	}
	return out
}

func (s *Solver) fail(err error) {
	if err != nil {
		s.Errors = append(s.Errors, err.Error())
	}
	s.Unknown++
	s.Close()
}

func (s *Solver) talk(q string) ([]string, error) {
	if _, err := io.WriteString(s.in, q); err != nil {
		return nil, err
	}
	var lines []string
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return nil, err
		}
		l = strings.TrimSpace(l)
		if l == "done" || l == "\"done\"" {
			return lines, nil
		}
		if l != "" {
			lines = append(lines, l)
		}
	}
}
