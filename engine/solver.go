package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver: one z3 process kept alive, push/pop incremental.
type Solver struct {
	cmd      *exec.Cmd
	in       *bufio.Writer
	out      *bufio.Reader
	declared map[string]uint8
	names    []string
	level    int
	Queries  int
	Sat      int
	Unsat    int
	Unknown  int
	Time     time.Duration
	MaxQ     time.Duration
	bin      string
	timeout  int
	log      io.Writer
}

func NewSolver(bin string, timeoutMS int) (*Solver, error) {
	s := &Solver{bin: bin, timeout: timeoutMS}
	return s, s.start()
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin, "-in")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.declared = map[string]uint8{}
	s.names = nil
	s.level = 0
	s.w("(set-option :global-declarations true)")
	s.w("(set-option :produce-models true)")
	s.w(fmt.Sprintf("(set-option :timeout %d)", s.timeout))
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) w(x string) {
	s.in.WriteString(x)
	s.in.WriteByte('\n')
	if s.log != nil {
		fmt.Fprintln(s.log, x)
	}
}

func (s *Solver) declare(t *Term) {
	if _, ok := s.declared[t.name]; ok {
		return
	}
	s.declared[t.name] = t.w
	s.names = append(s.names, t.name)
	if t.w == 0 {
		s.w("(declare-const " + t.name + " Bool)")
	} else {
		s.w(fmt.Sprintf("(declare-const %s (_ BitVec %d))", t.name, t.w))
	}
}

func (s *Solver) Push(t *Term) {
	str := t.SMT(s.declare)
	s.w("(push 1)")
	s.w("(assert " + str + ")")
	s.level++
}

func (s *Solver) Pop(n int) {
	if n > 0 {
		s.w("(pop " + strconv.Itoa(n) + ")")
		s.level -= n
	}
}

// Check asks whether the current stack plus extra is satisfiable; vars lists
// the variables whose values are wanted when it is.
func (s *Solver) Check(extra *Term, vars []*Term) (string, Model, error) {
	t0 := time.Now()
	pushed := false
	if extra != nil {
		s.Push(extra)
		pushed = true
	}
	s.w("(check-sat)")
	if err := s.in.Flush(); err != nil {
		return "", nil, err
	}
	line, err := s.out.ReadString('\n')
	if err != nil {
		return "", nil, fmt.Errorf("solver died: %v", err)
	}
	line = strings.TrimSpace(line)
	s.Queries++
	var m Model
	switch line {
	case "sat":
		s.Sat++
		m = Model{}
		var q []string
		for _, v := range vars {
			if _, ok := s.declared[v.name]; ok {
				q = append(q, v.name)
			}
		}
		if len(q) > 0 {
			s.w("(get-value (" + strings.Join(q, " ") + "))")
			s.in.Flush()
			if err := s.readModel(m); err != nil {
				return "", nil, err
			}
		}
	case "unsat":
		s.Unsat++
	case "unknown", "timeout":
		s.Unknown++
		line = "unknown"
	default:
		return "", nil, fmt.Errorf("solver said: %s", line)
	}
	if pushed {
		s.Pop(1)
	}
	d := time.Since(t0)
	s.Time += d
	if d > s.MaxQ {
		s.MaxQ = d
	}
	return line, m, nil
}

func (s *Solver) readModel(m Model) error {
	depth := 0
	var sb strings.Builder
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return err
		}
		if b == '(' {
			depth++
		}
		if b == ')' {
			depth--
		}
		sb.WriteByte(b)
		if depth == 0 && b == ')' {
			break
		}
	}
	s.out.ReadString('\n')
	txt := sb.String()
	if strings.HasPrefix(txt, "(error") {
		return fmt.Errorf("solver: %s", txt)
	}
	txt = strings.NewReplacer("(", " ( ", ")", " ) ").Replace(txt)
	toks := strings.Fields(txt)
	// ( ( name val ) ... ) ; val is #x.. #b.. true false or ( _ bvN w )
	i := 1
	for i < len(toks) && toks[i] == "(" {
		name := toks[i+1]
		v := toks[i+2]
		i += 3
		var u uint64
		var err error
		switch {
		case v == "true":
			u = 1
		case v == "false":
			u = 0
		case strings.HasPrefix(v, "#x"):
			u, err = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			u, err = strconv.ParseUint(v[2:], 2, 64)
		case v == "(":
			u, err = strconv.ParseUint(strings.TrimPrefix(toks[i+1], "bv"), 10, 64)
			i += 4
		default:
			err = fmt.Errorf("bad model value %q", v)
		}
		if err != nil {
			return err
		}
		m[name] = u
		i++ // ')'
	}
	return nil
}
