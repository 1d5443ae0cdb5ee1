package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver drives one SMT process over a pipe, mirroring a path condition with
// push/pop and answering check-sat-assuming queries.
type Solver struct {
	cmd    *exec.Cmd
	in     *bufio.Writer
	out    *bufio.Reader
	argv   []string
	epoch  int
	stack  []*Term
	ndefs  int
	vars   []*Term // declared variables in this epoch
	logf   io.Writer
	timeMs int
	logic  string

	Queries, Sat, Unsat, Unknown int
	Errors                       int
	Time                         time.Duration
	lastErr                      string

	// a second solver that receives the same text and has to agree
	cross     []string
	crossCmd  *exec.Cmd
	crossIn   *bufio.Writer
	crossOut  *bufio.Reader
	CrossSame int
	CrossUnk  int
}

var solverEpoch int

func newSolver(argv, cross []string, timeoutMs int) (*Solver, error) {
	s := &Solver{argv: argv, cross: cross, timeMs: timeoutMs}
	return s, s.start()
}

func (s *Solver) start() error {
	s.stop()
	s.cmd = exec.Command(s.argv[0], s.argv[1:]...)
	w, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.epoch++
	s.stack = nil
	s.ndefs = 0
	s.vars = nil
	if len(s.cross) > 0 {
		if err := s.startCross(); err != nil {
			return err
		}
	}
	if s.logic == "" {
		s.send("(set-option :global-declarations true)\n")
	}
	s.send("(set-option :produce-models true)\n")
	if strings.Contains(s.argv[0], "z3") {
		s.sendMain(fmt.Sprintf("(set-option :timeout %d)\n", s.timeMs))
	}
	l := s.logic
	if l == "" {
		l = "QF_BV"
	}
	if l != "ALL" || !strings.Contains(s.argv[0], "z3") {
		s.send("(set-logic " + l + ")\n")
	}
	return nil
}

func (s *Solver) startCross() error {
	s.crossCmd = exec.Command(s.cross[0], s.cross[1:]...)
	w, err := s.crossCmd.StdinPipe()
	if err != nil {
		return err
	}
	r, err := s.crossCmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.crossCmd.Start(); err != nil {
		return err
	}
	s.crossIn = bufio.NewWriterSize(w, 1<<16)
	s.crossOut = bufio.NewReaderSize(r, 1<<16)
	return nil
}

// crossVerdict reads the second solver's answer to a check-sat and compares.
func (s *Solver) crossVerdict(line string) string {
	if s.crossIn == nil {
		return line
	}
	s.crossIn.Flush()
	l, err := s.crossOut.ReadString('\n')
	for err == nil && strings.TrimSpace(l) == "" {
		l, err = s.crossOut.ReadString('\n')
	}
	l = strings.TrimSpace(l)
	switch {
	case err != nil || (l != "sat" && l != "unsat" && l != "unknown"):
		return "cross-check solver error: " + l
	case l == "unknown" || line == "unknown":
		s.CrossUnk++
	case l == line:
		s.CrossSame++
	default:
		return "solvers disagree: " + line + " and " + l
	}
	return line
}

func (s *Solver) stop() {
	if s.crossCmd != nil && s.crossCmd.Process != nil {
		s.crossCmd.Process.Kill()
		s.crossCmd.Wait()
		s.crossCmd, s.crossIn, s.crossOut = nil, nil, nil
	}
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(x string) {
	if s.crossIn != nil {
		s.crossIn.WriteString(x)
	}
	s.sendMain(x)
}

func (s *Solver) sendMain(x string) {
	s.in.WriteString(x)
	if s.logf != nil {
		io.WriteString(s.logf, x)
	}
}

func (s *Solver) define(t *Term) {
	if t.defEpoch == s.epoch || t.op == OConst {
		return
	}
	for i := 0; i < int(t.n); i++ {
		s.define(t.a[i])
	}
	t.defEpoch = s.epoch
	s.ndefs++
	if t.op == OVar {
		s.send("(declare-const " + t.ref() + " " + t.sortStr() + ")\n")
		s.vars = append(s.vars, t)
		return
	}
	s.send("(define-fun t" + strconv.Itoa(t.id) + " () " + t.sortStr() + " " + t.body() + ")\n")
}

// sync makes the solver's assertion stack equal to pc.
func (s *Solver) sync(pc []*Term) {
	if s.ndefs > 150000 {
		s.start()
	}
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if k := len(s.stack) - n; k > 0 {
		s.send(fmt.Sprintf("(pop %d)\n", k))
	}
	s.stack = s.stack[:n]
	for ; n < len(pc); n++ {
		s.define(pc[n])
		s.send("(push 1)\n(assert " + pc[n].ref() + ")\n")
		s.stack = append(s.stack, pc[n])
	}
}

type Verdict int

const (
	Unsat Verdict = iota
	Sat
	Unknown
)

// check decides pc ∧ q.  On Sat and want, it returns the values of all
// declared variables.
func (s *Solver) check(pc []*Term, q *Term, want bool) (Verdict, map[string]uint64) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	s.sync(pc)
	if q != nil {
		s.define(q)
		if q.isConst() || q.n > 0 || q.op == OVar {
			if q.op == ONot && (q.a[0].n == 0) {
				s.send("(check-sat-assuming (" + q.body() + "))\n")
			} else {
				s.send("(check-sat-assuming (" + q.ref() + "))\n")
			}
		}
	} else {
		s.send("(check-sat)\n")
	}
	line := s.crossVerdict(s.readLine())
	switch line {
	case "sat":
		s.Sat++
		if !want {
			return Sat, nil
		}
		return Sat, s.values()
	case "unsat":
		s.Unsat++
		return Unsat, nil
	}
	s.Unknown++
	if line != "unknown" {
		s.Errors++
		s.lastErr = line
		s.start()
	}
	return Unknown, nil
}

func (s *Solver) readLine() string {
	s.in.Flush()
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "error: " + err.Error()
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
}

func (s *Solver) values() map[string]uint64 {
	m := make(map[string]uint64, len(s.vars))
	if len(s.vars) == 0 {
		return m
	}
	s.sendMain("(get-value (")
	for _, v := range s.vars {
		s.sendMain(v.ref() + " ")
	}
	s.sendMain("))\n")
	s.in.Flush()
	// read a balanced s-expression
	depth, started := 0, false
	var b strings.Builder
	inbar := false
	for !started || depth > 0 {
		c, err := s.out.ReadByte()
		if err != nil {
			return m
		}
		if c == '|' {
			inbar = !inbar
		}
		if !inbar {
			if c == '(' {
				depth++
				started = true
			} else if c == ')' {
				depth--
			}
		}
		if started {
			b.WriteByte(c)
		}
	}
	txt := b.String()
	if strings.HasPrefix(txt, "(error") {
		s.Errors++
		s.lastErr = txt
		return m
	}
	// parse pairs: (|name| value)
	i := 0
	for i < len(txt) {
		j := strings.IndexByte(txt[i:], '|')
		// names that need no bars may be printed without; handle "(name value)"
		k := strings.IndexByte(txt[i:], '(')
		if k < 0 {
			break
		}
		i += k + 1
		if i < len(txt) && txt[i] == '(' {
			continue
		}
		_ = j
		var name string
		if txt[i] == '|' {
			e := strings.IndexByte(txt[i+1:], '|')
			name = txt[i+1 : i+1+e]
			i += e + 2
		} else {
			e := strings.IndexAny(txt[i:], " \n\t")
			name = txt[i : i+e]
			i += e
		}
		for txt[i] == ' ' || txt[i] == '\n' || txt[i] == '\t' {
			i++
		}
		e := strings.IndexByte(txt[i:], ')')
		vs := strings.TrimSpace(txt[i : i+e])
		if strings.HasPrefix(vs, "(_ bv") {
			f := strings.Fields(vs)
			v, _ := strconv.ParseUint(f[1][2:], 10, 64)
			m[name] = v
		} else {
			m[name] = parseVal(vs)
		}
		i += e + 1
	}
	return m
}

// readModel reads the answer to a get-value of Int and Bool constants.
func (s *Solver) readModel() map[string]string {
	m := map[string]string{}
	s.in.Flush()
	depth, started := 0, false
	var b strings.Builder
	for !started || depth > 0 {
		c, err := s.out.ReadByte()
		if err != nil {
			return m
		}
		if c == '(' {
			depth++
			started = true
		} else if c == ')' {
			depth--
		}
		if started {
			b.WriteByte(c)
		}
	}
	r := strings.NewReplacer("(", " ", ")", " ")
	f := strings.Fields(r.Replace(strings.ReplaceAll(b.String(), "(- ", "-")))
	for i := 0; i+1 < len(f); i += 2 {
		m[f[i]] = f[i+1]
	}
	return m
}

func parseVal(v string) uint64 {
	switch {
	case v == "true":
		return 1
	case v == "false":
		return 0
	case strings.HasPrefix(v, "#x"):
		x, _ := strconv.ParseUint(v[2:], 16, 64)
		return x
	case strings.HasPrefix(v, "#b"):
		x, _ := strconv.ParseUint(v[2:], 2, 64)
		return x
	}
	return 0
}
