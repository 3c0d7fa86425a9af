package main

// Incremental SMT solver process (z3 -in).  One process is kept alive; terms
// are sent once as definitions and queries use push/assert/check-sat/pop.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type Solver struct {
	cmd      *exec.Cmd
	in       *bufio.Writer
	inp      io.WriteCloser
	out      *bufio.Reader
	defined  map[*Term]bool
	declared map[*Term]bool
	powDecl  bool
	bin      string
	Queries  int
	Time     time.Duration
	SatN     int
	UnsatN   int
	UnkN     int
	Fast     int // feasibility answered by a witness model
	cache    map[*Term]Result
	timeout  int // ms per query
	log      *os.File
}

func NewSolver(bin string, timeoutMS int) *Solver {
	s := &Solver{bin: bin, timeout: timeoutMS, cache: map[*Term]Result{}}
	s.start()
	return s
}

func (s *Solver) start() {
	s.defined = map[*Term]bool{}
	s.declared = map[*Term]bool{}
	s.powDecl = false
	args := []string{"-in", "-smt2"}
	s.cmd = exec.Command(s.bin, args...)
	w, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inp = w
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :timeout %d)\n", s.timeout)
	if os.Getenv("VP_SMTLOG") != "" {
		s.log, _ = os.Create(os.Getenv("VP_SMTLOG"))
	}
}

func (s *Solver) Close() {
	s.inp.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *Solver) send(str string) {
	s.in.WriteString(str)
	s.in.WriteByte('\n')
	if s.log != nil {
		s.log.WriteString(str + "\n")
	}
}

func (s *Solver) ref(t *Term) string {
	switch t.Op {
	case OConst:
		return constStr(t)
	case OVar:
		return quoteVar(t.Name)
	}
	return "t" + strconv.Itoa(int(t.ID))
}

// define sends declarations and definitions for everything t uses.
func (s *Solver) define(t *Term) {
	if t.Op == OConst {
		return
	}
	if t.Op == OVar {
		if !s.declared[t] {
			s.declared[t] = true
			s.send(fmt.Sprintf("(declare-const %s %s)", quoteVar(t.Name), t.sortStr()))
		}
		return
	}
	if s.defined[t] {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.i < len(f.t.Args) {
			a := f.t.Args[f.i]
			f.i++
			switch {
			case a.Op == OConst:
			case a.Op == OVar:
				s.define(a)
			case !s.defined[a]:
				st = append(st, fr{a, 0})
			}
			continue
		}
		x := f.t
		st = st[:len(st)-1]
		if s.defined[x] {
			continue
		}
		s.defined[x] = true
		if x.Op == OFPow && !s.powDecl {
			s.powDecl = true
			s.send("(declare-fun vp_pow ((_ FloatingPoint 11 53) (_ FloatingPoint 11 53)) (_ FloatingPoint 11 53))")
		}
		s.send(fmt.Sprintf("(define-fun t%d () %s %s)", x.ID, x.sortStr(), x.body(s.ref)))
	}
}

// Check decides satisfiability of t; with wantModel it returns values of the
// declared variables.
func (s *Solver) Check(t *Term, wantModel bool) (Result, *Model) {
	if t == True {
		return Sat, &Model{m: map[*Term]uint64{}}
	}
	if t == False {
		return Unsat, nil
	}
	if !wantModel {
		if r, ok := s.cache[t]; ok {
			return r, nil
		}
	} else if r, ok := s.cache[t]; ok && r == Unsat {
		return r, nil
	}
	start := time.Now()
	if hasFPArith(t) {
		r, m := s.checkFP(t)
		s.Queries++
		switch r {
		case Sat:
			s.SatN++
		case Unsat:
			s.UnsatN++
		default:
			s.UnkN++
		}
		s.Time += time.Since(start)
		if r != Unknown {
			s.cache[t] = r
		}
		return r, m
	}
	s.define(t)
	s.send("(push)")
	s.send("(assert " + s.ref(t) + ")")
	s.send("(check-sat)")
	s.in.Flush()
	line := s.readLine()
	s.Queries++
	var res Result
	var model *Model
	switch line {
	case "sat":
		res = Sat
		s.SatN++
		if wantModel {
			model = s.getModel(t)
		}
	case "unsat":
		res = Unsat
		s.UnsatN++
	case "unknown", "timeout":
		res = Unknown
		s.UnkN++
	default:
		panic(Unsupported{"solver said: " + line})
	}
	s.send("(pop)")
	s.Time += time.Since(start)
	s.cache[t] = res
	return res, model
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			panic(Unsupported{"solver died: " + err.Error()})
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
}

func collectVars(t *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	st := []*Term{t}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x.Op == OVar {
			out = append(out, x)
		}
		st = append(st, x.Args...)
	}
	return out
}

func (s *Solver) getModel(t *Term) *Model {
	vars := collectVars(t)
	m := &Model{m: map[*Term]uint64{}}
	if len(vars) == 0 {
		return m
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range vars {
		sb.WriteString(quoteVar(v.Name) + " ")
	}
	sb.WriteString("))")
	s.send(sb.String())
	s.in.Flush()
	// read a balanced s-expression
	depth := 0
	var buf strings.Builder
	inq := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			panic(Unsupported{"solver died"})
		}
		buf.WriteByte(c)
		if c == '|' {
			inq = !inq
		}
		if inq {
			continue
		}
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	readModel(m, vars, buf.String())
	return m
}

type sexp struct {
	a string
	l []*sexp
}

func parseSexp(s string) *sexp {
	i := 0
	var parse func() *sexp
	parse = func() *sexp {
		for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r') {
			i++
		}
		if s[i] == '(' {
			i++
			e := &sexp{}
			for {
				for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r') {
					i++
				}
				if s[i] == ')' {
					i++
					return e
				}
				e.l = append(e.l, parse())
			}
		}
		st := i
		if s[i] == '|' {
			i++
			for s[i] != '|' {
				i++
			}
			i++
			return &sexp{a: s[st:i]}
		}
		for i < len(s) && s[i] != ' ' && s[i] != ')' && s[i] != '(' && s[i] != '\n' {
			i++
		}
		return &sexp{a: s[st:i]}
	}
	return parse()
}

func sexpVal(e *sexp) uint64 {
	if e.l == nil {
		switch {
		case e.a == "true":
			return 1
		case e.a == "false":
			return 0
		case strings.HasPrefix(e.a, "#x"):
			v, _ := strconv.ParseUint(e.a[2:], 16, 64)
			return v
		case strings.HasPrefix(e.a, "#b"):
			v, _ := strconv.ParseUint(e.a[2:], 2, 64)
			return v
		}
		panic(Unsupported{"model value " + e.a})
	}
	if e.l[0].a == "fp" {
		return sexpVal(e.l[1])<<63 | sexpVal(e.l[2])<<52 | sexpVal(e.l[3])
	}
	if e.l[0].a == "_" {
		switch e.l[1].a {
		case "+zero":
			return 0
		case "-zero":
			return 1 << 63
		case "+oo":
			return 0x7ff << 52
		case "-oo":
			return 0xfff << 52
		case "NaN":
			return 0x7ff8000000000001
		}
		if strings.HasPrefix(e.l[1].a, "bv") {
			v, _ := strconv.ParseUint(e.l[1].a[2:], 10, 64)
			return v
		}
	}
	panic(Unsupported{fmt.Sprint("model value ", e)})
}

// Unsupported is panicked when the encoder meets something outside its reach;
// the run then ends as inconclusive, never as a pass or a violation.
type Unsupported struct{ Msg string }
