package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver drives one SMT solver process over a pipe. The assertion stack is
// kept aligned with the path condition of the path being explored, so that
// successive queries of a depth-first search share their prefix.
type Solver struct {
	ts        *Terms
	cmd       *exec.Cmd
	in        *bufio.Writer
	inc       io.WriteCloser
	out       *bufio.Reader
	stack     []*Term
	gen       int32
	ndefs     int
	nvars     int // variables declared in this process
	path      string
	args      []string
	Queries   int64
	Sat       int64
	Unsat     int64
	Unknown   int64
	Time      time.Duration
	Errors    []string
	TimeoutMS int
	dump      io.Writer
	noModel   bool
}

type Result int

const (
	Unsat Result = iota
	SatR
	UnknownR
)

func newSolver(ts *Terms, path string, args []string, timeoutMS int) *Solver {
	s := &Solver{ts: ts, path: path, args: args, TimeoutMS: timeoutMS}
	s.start()
	return s
}

func (s *Solver) start() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
	s.cmd = exec.Command(s.path, s.args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		fatal("solver: %v", err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		fatal("solver: %v", err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		fatal("cannot start solver %s: %v", s.path, err)
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.stack = s.stack[:0]
	s.gen++
	s.ndefs = 0
	s.nvars = 0
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	if strings.Contains(s.path, "z3") {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.TimeoutMS)
	}
	fmt.Fprintf(s.in, "(set-logic QF_BV)\n")
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) declare() {
	for s.nvars < len(s.ts.vars) {
		v := s.ts.vars[s.nvars]
		fmt.Fprintf(s.in, "(declare-const v%d %s)\n", s.nvars, sortStr(v.sort))
		s.nvars++
	}
}

func sortStr(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv",
	OSrem: "bvsrem", OBand: "bvand", OBor: "bvor", OBxor: "bvxor", OBnot: "bvnot", ONeg: "bvneg", OShl: "bvshl",
	OLshr: "bvlshr", OAshr: "bvashr",
}

// ref returns the text that denotes t, emitting definitions for inner nodes.
func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.sort == 0 {
			if t.k == 1 {
				return "true"
			}
			return "false"
		}
		return "(_ bv" + strconv.FormatUint(t.k, 10) + " " + strconv.Itoa(int(t.sort)) + ")"
	case OVar:
		return "v" + strconv.Itoa(int(t.k))
	}
	name := "t" + strconv.Itoa(int(t.id))
	if t.defined == s.gen {
		return name
	}
	var body string
	switch t.op {
	case OExtract:
		body = fmt.Sprintf("((_ extract %d %d) %s)", t.k>>8, t.k&0xff, s.ref(t.a))
	case OZext:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", t.sort-t.a.sort, s.ref(t.a))
	case OSext:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", t.sort-t.a.sort, s.ref(t.a))
	default:
		var sb strings.Builder
		sb.WriteString("(")
		sb.WriteString(opNames[t.op])
		sb.WriteString(" ")
		sb.WriteString(s.ref(t.a))
		if t.b != nil {
			sb.WriteString(" ")
			sb.WriteString(s.ref(t.b))
		}
		if t.c != nil {
			sb.WriteString(" ")
			sb.WriteString(s.ref(t.c))
		}
		sb.WriteString(")")
		body = sb.String()
	}
	t.defined = s.gen
	s.ndefs++
	fmt.Fprintf(s.in, "(define-fun %s () %s %s)\n", name, sortStr(t.sort), body)
	return name
}

// sync aligns the solver's assertion stack with pc.
func (s *Solver) sync(pc []*Term) {
	if s.ndefs > 300000 {
		s.start()
	}
	s.declare()
	i := 0
	for i < len(s.stack) && i < len(pc) && s.stack[i] == pc[i] {
		i++
	}
	if n := len(s.stack) - i; n > 0 {
		fmt.Fprintf(s.in, "(pop %d)\n", n)
		s.stack = s.stack[:i]
	}
	for ; i < len(pc); i++ {
		r := s.ref(pc[i])
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", r)
		s.stack = append(s.stack, pc[i])
	}
}

// Check decides pc ∧ extra. On sat, returns values for all variables.
func (s *Solver) Check(pc []*Term, extra *Term) (Result, []uint64) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if slowMS > 0 && d > time.Duration(slowMS)*time.Millisecond {
			var b strings.Builder
			for _, t := range pc {
				b.WriteString("  " + dump(t, 9) + "\n")
			}
			fmt.Fprintf(os.Stderr, "SLOW %v\n%s  => %s\n", d, b.String(), dump(extra, 9))
		}
	}()
	s.Queries++
	s.sync(pc)
	if extra != nil {
		r := s.ref(extra)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", r)
	}
	fmt.Fprintf(s.in, "(check-sat)\n")
	s.in.Flush()
	line := s.readLine()
	var res Result
	var vals []uint64
	switch line {
	case "sat":
		res = SatR
		s.Sat++
		if !s.noModel {
			vals = s.values()
		}
	case "unsat":
		res = Unsat
		s.Unsat++
	default:
		res = UnknownR
		s.Unknown++
		if line != "unknown" && line != "timeout" {
			s.Errors = append(s.Errors, line)
			// the stream is out of step: restart
			s.start()
			return res, nil
		}
	}
	if extra != nil {
		fmt.Fprintf(s.in, "(pop 1)\n")
	}
	return res, vals
}

func (s *Solver) readLine() string {
	line, err := s.out.ReadString('\n')
	if err != nil {
		return "(error \"solver died: " + err.Error() + "\")"
	}
	return strings.TrimSpace(line)
}

func (s *Solver) values() []uint64 {
	n := s.nvars
	if n == 0 {
		return nil
	}
	vals := make([]uint64, n)
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for i := 0; i < n; i++ {
		fmt.Fprintf(&sb, "v%d ", i)
	}
	sb.WriteString("))\n")
	s.in.WriteString(sb.String())
	s.in.Flush()
	// read a balanced s-expression
	depth := 0
	var text strings.Builder
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.Errors = append(s.Errors, "get-value: "+err.Error())
			return vals
		}
		for i := 0; i < len(line); i++ {
			switch line[i] {
			case '(':
				depth++
			case ')':
				depth--
			}
		}
		text.WriteString(line)
		if depth == 0 {
			break
		}
	}
	toks := strings.FieldsFunc(text.String(), func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
	for i := 0; i+1 < len(toks); {
		if toks[i][0] != 'v' {
			s.Errors = append(s.Errors, "get-value parse: "+toks[i])
			i++
			continue
		}
		idx, _ := strconv.Atoi(toks[i][1:])
		v := toks[i+1]
		switch {
		case v == "true":
			vals[idx] = 1
		case v == "false":
			vals[idx] = 0
		case strings.HasPrefix(v, "#x"):
			x, _ := strconv.ParseUint(v[2:], 16, 64)
			vals[idx] = x
		case strings.HasPrefix(v, "#b"):
			x, _ := strconv.ParseUint(v[2:], 2, 64)
			vals[idx] = x
		case v == "_":
			// (_ bvN w)
			x, _ := strconv.ParseUint(strings.TrimPrefix(toks[i+2], "bv"), 10, 64)
			vals[idx] = x
			i += 2
		}
		i += 2
	}
	return vals
}

// VERIF_SLOW=n prints the queries that take more than n ms.
var slowMS, _ = strconv.Atoi(os.Getenv("VERIF_SLOW"))

func dump(t *Term, depth int) string {
	switch {
	case t == nil:
		return "-"
	case t.op == OConst:
		if t.sort == 0 {
			return strconv.FormatBool(t.k == 1)
		}
		return strconv.FormatInt(sx(t.k, t.sort), 10)
	case t.op == OVar:
		return "v" + strconv.Itoa(int(t.k)) + ":" + strconv.Itoa(int(t.sort))
	case depth == 0:
		return "..."
	}
	n := opNames[t.op]
	switch t.op {
	case OExtract:
		n = "ext"
	case OZext:
		n = "zx" + strconv.Itoa(int(t.sort))
	case OSext:
		n = "sx" + strconv.Itoa(int(t.sort))
	}
	r := "(" + n
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			r += " " + dump(x, depth-1)
		}
	}
	return r + ")"
}
