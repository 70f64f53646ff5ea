package main

// A persistent SMT solver process (z3 -in) with an assertion stack that is
// reused between paths sharing a prefix.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN int
	Time                            time.Duration
}

func (s *SolverStats) add(o SolverStats) {
	s.Queries += o.Queries
	s.SatN += o.SatN
	s.UnsatN += o.UnsatN
	s.UnknownN += o.UnknownN
	s.Time += o.Time
}

type Solver struct {
	cmd   *exec.Cmd
	in    *bufio.Writer
	out   *bufio.Reader
	stack []level
	defs  map[*Term]int // term -> level in which it is defined/declared
	Stats SolverStats
	log   *os.File // optional transcript, for cross-checking with another solver
	bin   string
	toMS  int
}

type level struct {
	cond *Term
	defs []*Term
	vars []*Term
}

var solverBin = "z3-new"

func newSolver(timeoutMS int) *Solver {
	s := &Solver{bin: solverBin, toMS: timeoutMS}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in")
	w, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.defs = map[*Term]int{}
	s.stack = []level{{}}
	s.send(fmt.Sprintf("(set-option :timeout %d)\n(set-logic QF_BV)\n", s.toMS))
	if p := os.Getenv("VERIF_SMTLOG"); p != "" {
		s.log, _ = os.OpenFile(p, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	}
}

func (s *Solver) close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Flush()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
	if s.log != nil {
		s.log.Close()
	}
}

func (s *Solver) send(str string) {
	s.in.WriteString(str)
	if s.log != nil {
		s.log.WriteString(str)
	}
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return "(_ bv" + strconv.FormatUint(t.val, 10) + " " + strconv.Itoa(int(t.w)) + ")"
	case OpVar:
		return "|" + t.name + "|"
	}
	return "t" + strconv.Itoa(int(t.id))
}

// define makes sure t (and its sub-terms) is defined in the current level.
func (s *Solver) define(t *Term) {
	if t.op == OpConst {
		return
	}
	if _, ok := s.defs[t]; ok {
		return
	}
	lv := len(s.stack) - 1
	if t.op == OpVar {
		s.send("(declare-const |" + t.name + "| " + sortStr(t.w) + ")\n")
		s.defs[t] = lv
		s.stack[lv].defs = append(s.stack[lv].defs, t)
		s.stack[lv].vars = append(s.stack[lv].vars, t)
		return
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s.define(x)
		}
	}
	var body string
	switch t.op {
	case OpZext:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, s.ref(t.a))
	case OpSext:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, s.ref(t.a))
	case OpExtract:
		body = fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, s.ref(t.a))
	default:
		body = "(" + opNames[t.op] + " " + s.ref(t.a)
		if t.b != nil {
			body += " " + s.ref(t.b)
		}
		if t.c != nil {
			body += " " + s.ref(t.c)
		}
		body += ")"
	}
	s.send("(define-fun t" + strconv.Itoa(int(t.id)) + " () " + sortStr(t.w) + " " + body + ")\n")
	s.defs[t] = lv
	s.stack[lv].defs = append(s.stack[lv].defs, t)
}

func (s *Solver) push(cond *Term) {
	s.send("(push 1)\n")
	s.stack = append(s.stack, level{cond: cond})
	s.define(cond)
	s.send("(assert " + s.ref(cond) + ")\n")
}

func (s *Solver) pop() {
	lv := len(s.stack) - 1
	for _, t := range s.stack[lv].defs {
		delete(s.defs, t)
	}
	s.stack = s.stack[:lv]
	s.send("(pop 1)\n")
}

// sync makes the assertion stack equal to conds.
func (s *Solver) sync(conds []*Term) {
	n := 0
	for n < len(conds) && n+1 < len(s.stack) && s.stack[n+1].cond == conds[n] {
		n++
	}
	for len(s.stack)-1 > n {
		s.pop()
	}
	for ; n < len(conds); n++ {
		s.push(conds[n])
	}
}

func (s *Solver) readLine() string {
	line, err := s.out.ReadString('\n')
	if err != nil {
		if err == io.EOF {
			return "(error \"solver died\")"
		}
		return "(error \"" + err.Error() + "\")"
	}
	return strings.TrimSpace(line)
}

// Check decides conds (plus extra, if any); on Sat it returns a model of all
// variables declared.
func (s *Solver) Check(conds []*Term, extra *Term) (Result, Model) {
	t0 := time.Now()
	defer func() { s.Stats.Time += time.Since(t0) }()
	s.sync(conds)
	if extra != nil {
		s.push(extra)
		defer s.pop()
	}
	s.send("(check-sat)\n")
	s.in.Flush()
	s.Stats.Queries++
	line := s.readLine()
	for line == "" {
		line = s.readLine()
	}
	switch line {
	case "unsat":
		s.Stats.UnsatN++
		return Unsat, nil
	case "sat":
		s.Stats.SatN++
		return Sat, s.model()
	}
	s.Stats.UnknownN++
	if strings.HasPrefix(line, "(error") {
		// an error line makes everything after it untrustworthy: restart.
		fmt.Fprintln(os.Stderr, "solver error:", line)
		s.close()
		s.start()
		if extra != nil {
			s.push(extra) // balanced by the deferred pop
		}
	}
	return Unknown, nil
}

func (s *Solver) model() Model {
	m := Model{}
	var vs []*Term
	for i := range s.stack {
		vs = append(vs, s.stack[i].vars...)
	}
	if len(vs) == 0 {
		return m
	}
	const chunk = 200
	for i := 0; i < len(vs); i += chunk {
		j := i + chunk
		if j > len(vs) {
			j = len(vs)
		}
		var sb strings.Builder
		sb.WriteString("(get-value (")
		for _, v := range vs[i:j] {
			sb.WriteString(" |" + v.name + "|")
		}
		sb.WriteString("))\n")
		s.in.WriteString(sb.String())
		s.in.Flush()
		txt := s.readSexp()
		parseModel(txt, m)
	}
	return m
}

func (s *Solver) readSexp() string {
	var sb strings.Builder
	depth := 0
	started := false
	inBar := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return sb.String()
		}
		sb.WriteByte(c)
		if c == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if c == '(' {
			depth++
			started = true
		} else if c == ')' {
			depth--
		}
		if started && depth == 0 {
			s.out.ReadString('\n')
			return sb.String()
		}
	}
}

func parseModel(txt string, m Model) {
	// ((|a| #x00) (|b| true) (|c| #b01))
	i := 0
	for i < len(txt) {
		if txt[i] != '|' && !(txt[i] == '(' && i+1 < len(txt) && txt[i+1] != '(' && txt[i+1] != '|') {
			i++
			continue
		}
		var name string
		if txt[i] == '|' {
			j := strings.IndexByte(txt[i+1:], '|')
			name = txt[i+1 : i+1+j]
			i = i + j + 2
		} else {
			j := i + 1
			for j < len(txt) && txt[j] != ' ' && txt[j] != ')' {
				j++
			}
			name = txt[i+1 : j]
			i = j
		}
		for i < len(txt) && (txt[i] == ' ' || txt[i] == '\n') {
			i++
		}
		j := i
		for j < len(txt) && txt[j] != ')' {
			j++
		}
		v := txt[i:j]
		switch {
		case v == "true":
			m[name] = 1
		case v == "false":
			m[name] = 0
		case strings.HasPrefix(v, "#x"):
			x, _ := strconv.ParseUint(v[2:], 16, 64)
			m[name] = x
		case strings.HasPrefix(v, "#b"):
			x, _ := strconv.ParseUint(v[2:], 2, 64)
			m[name] = x
		}
		i = j
	}
}
