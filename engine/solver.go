package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver drives one long-lived SMT process over a pipe.
type Solver struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	inC     io.WriteCloser
	out     *bufio.Reader
	ctx     *TermCtx
	defined map[*Term]bool
	stack   []*Term // asserted path conditions, one push level each
	Queries int
	Sat     int
	Unsat   int
	Unknown int
	Time    time.Duration
	timeout int // ms
	bin     string
	lastErr string
	xlog    io.Writer // optional transcript
}

var solverBin = "z3"

func newSolver(ctx *TermCtx, timeoutMS int) (*Solver, error) {
	s := &Solver{ctx: ctx, timeout: timeoutMS, bin: solverBin}
	return s, s.start()
}

func (s *Solver) start() error {
	var args []string
	if strings.HasPrefix(s.bin, "cvc5") {
		args = []string{"--incremental", "--produce-models", "--lang=smt2", "--tlimit-per=" + strconv.Itoa(s.timeout)}
	} else {
		args = []string{"-in", "-smt2", "-t:" + strconv.Itoa(s.timeout)}
	}
	s.cmd = exec.Command(s.bin, args...)
	inp, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	outp, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inC = inp
	s.in = bufio.NewWriterSize(inp, 1<<16)
	s.out = bufio.NewReaderSize(outp, 1<<16)
	s.defined = map[*Term]bool{}
	s.stack = nil
	s.send("(set-option :global-declarations true)\n")
	if !strings.HasPrefix(s.bin, "cvc5") {
		s.send("(set-option :produce-models true)\n")
	}
	s.send("(set-logic QF_BV)\n")
	return nil
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.inC.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(str string) {
	s.in.WriteString(str)
	if s.xlog != nil {
		io.WriteString(s.xlog, str)
	}
}

// ref returns an SMT expression naming t, defining it if needed.
func (s *Solver) ref(t *Term) string {
	if t.op == OpConst {
		return constStr(t.k, t.w)
	}
	s.define(t)
	return "t" + strconv.Itoa(int(t.id))
}

func (s *Solver) define(t *Term) {
	if s.defined[t] {
		return
	}
	if t.op == OpVar {
		s.send(fmt.Sprintf("(declare-const t%d %s)\n", t.id, sortStr(t.w)))
		s.defined[t] = true
		return
	}
	var e string
	bin := func(op string) string { return "(" + op + " " + s.ref(t.a) + " " + s.ref(t.b) + ")" }
	switch t.op {
	case OpNot:
		e = "(not " + s.ref(t.a) + ")"
	case OpBNot:
		e = "(bvnot " + s.ref(t.a) + ")"
	case OpNeg:
		e = "(bvneg " + s.ref(t.a) + ")"
	case OpIte:
		e = "(ite " + s.ref(t.a) + " " + s.ref(t.b) + " " + s.ref(t.c) + ")"
	case OpExtract:
		e = fmt.Sprintf("((_ extract %d %d) %s)", int(t.k)+int(t.w)-1, t.k, s.ref(t.a))
	case OpZext:
		e = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, s.ref(t.a))
	case OpSext:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, s.ref(t.a))
	case OpLanes:
		var sb strings.Builder
		sb.WriteString("(concat")
		for i := len(t.args) - 1; i >= 0; i-- {
			sb.WriteString(" " + s.ref(t.args[i]))
		}
		sb.WriteString(")")
		e = sb.String()
	case OpLexLt, OpBytesEq:
		n := len(t.args) / 2
		cc := func(as []*Term) string {
			if len(as) == 1 {
				return s.ref(as[0])
			}
			var sb strings.Builder
			sb.WriteString("(concat")
			for _, a := range as {
				sb.WriteString(" " + s.ref(a))
			}
			sb.WriteString(")")
			return sb.String()
		}
		op := "bvult"
		if t.op == OpBytesEq {
			op = "="
		}
		e = "(" + op + " " + cc(t.args[:n]) + " " + cc(t.args[n:]) + ")"
	default:
		e = bin(opName[t.op])
	}
	s.send(fmt.Sprintf("(define-fun t%d () %s %s)\n", t.id, sortStr(t.w), e))
	s.defined[t] = true
}

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

// Check decides pc /\ extra. On Sat it returns a model.
func (s *Solver) Check(pc []*Term, extra *Term, wantModel bool) (Result, Model) {
	start := time.Now()
	defer func() {
		d := time.Since(start)
		s.Time += d
		if debugEngine && d > time.Second && extra != nil {
			e := extra.String()
			if len(e) > 2000 {
				e = e[:2000] + "..."
			}
			fmt.Fprintf(os.Stderr, "slow query %v: %d conditions, %s\n", d, len(pc), e)
		}
	}()
	s.Queries++
	// align stack
	n := 0
	for n < len(s.stack) && n < len(pc) && s.stack[n] == pc[n] {
		n++
	}
	if d := len(s.stack) - n; d > 0 {
		s.send(fmt.Sprintf("(pop %d)\n", d))
		s.stack = s.stack[:n]
	}
	for ; n < len(pc); n++ {
		r := s.ref(pc[n])
		s.send("(push 1)\n(assert " + r + ")\n")
		s.stack = append(s.stack, pc[n])
	}
	if extra != nil {
		r := s.ref(extra)
		s.send("(push 1)\n(assert " + r + ")\n")
	}
	s.send("(check-sat)\n")
	s.in.Flush()
	line, err := s.readLine()
	var res Result
	var m Model
	switch {
	case err != nil:
		s.lastErr = err.Error()
		s.Unknown++
		s.close()
		s.start()
		return Unknown, nil
	case line == "sat":
		res = Sat
		s.Sat++
		if wantModel {
			m, err = s.getModel()
			if err != nil {
				s.lastErr = err.Error()
				s.Unknown++
				s.close()
				s.start()
				return Unknown, nil
			}
		}
	case line == "unsat":
		res = Unsat
		s.Unsat++
	default:
		s.lastErr = line
		res = Unknown
		s.Unknown++
		if strings.HasPrefix(line, "(error") {
			s.close()
			s.start()
			return Unknown, nil
		}
	}
	if extra != nil {
		s.send("(pop 1)\n")
	}
	return res, m
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

func (s *Solver) getModel() (Model, error) {
	m := Model{}
	var vars []*Term
	for _, v := range s.ctx.vars {
		if s.defined[v] {
			vars = append(vars, v)
		}
	}
	if len(vars) == 0 {
		return m, nil
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range vars {
		sb.WriteString("t" + strconv.Itoa(int(v.id)) + " ")
	}
	sb.WriteString("))\n")
	s.send(sb.String())
	s.in.Flush()
	depth := 0
	var txt strings.Builder
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return nil, err
		}
		txt.WriteString(l)
		for _, ch := range l {
			if ch == '(' {
				depth++
			} else if ch == ')' {
				depth--
			}
		}
		if depth <= 0 {
			break
		}
	}
	str := txt.String()
	if strings.HasPrefix(strings.TrimSpace(str), "(error") {
		return nil, fmt.Errorf("%s", str)
	}
	byID := map[string]*Term{}
	for _, v := range vars {
		byID["t"+strconv.Itoa(int(v.id))] = v
	}
	f := strings.FieldsFunc(str, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' })
	for i := 0; i < len(f); {
		v, ok := byID[f[i]]
		if !ok {
			return nil, fmt.Errorf("bad model token %q", f[i])
		}
		i++
		switch {
		case f[i] == "true":
			m[v] = 1
			i++
		case f[i] == "false":
			i++
		case strings.HasPrefix(f[i], "#x"):
			u, err := strconv.ParseUint(f[i][2:], 16, 64)
			if err != nil {
				return nil, err
			}
			m[v] = u
			i++
		case strings.HasPrefix(f[i], "#b"):
			u, err := strconv.ParseUint(f[i][2:], 2, 64)
			if err != nil {
				return nil, err
			}
			m[v] = u
			i++
		case f[i] == "_": // (_ bvN w)
			u, err := strconv.ParseUint(f[i+1][2:], 10, 64)
			if err != nil {
				return nil, err
			}
			m[v] = u
			i += 3
		default:
			return nil, fmt.Errorf("bad model value %q", f[i])
		}
	}
	return m, nil
}
