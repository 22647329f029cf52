package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"time"
)

// Solver drives one z3 process over a pipe, with an assertion stack.
type Solver struct {
	tc      *TC
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	emitted map[*Term]bool
	ufs     map[string]bool
	litN    int
	levels  []*level
	buf     strings.Builder
	timeout int

	nQuery   int
	nUnknown int
	spent    time.Duration
	log      io.Writer
	dead     bool
	bin      string
	cache    map[string]int
}

type level struct {
	pc    *Term
	axiom map[*Term]bool
}

func NewSolver(tc *TC, bin string, timeoutMS int) *Solver {
	s := &Solver{tc: tc, bin: bin, timeout: timeoutMS, cache: map[string]int{}}
	s.start()
	return s
}

func (s *Solver) start() {
	var args []string
	switch {
	case strings.Contains(s.bin, "cvc5"):
		args = []string{"--incremental", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", s.timeout)}
	default:
		args = []string{"-in", "-smt2", "-memory:4000"}
	}
	s.cmd = exec.Command(s.bin, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.emitted = map[*Term]bool{}
	s.ufs = map[string]bool{}
	s.levels = []*level{{axiom: map[*Term]bool{}}}
	s.dead = false
	s.w("(set-option :global-declarations true)\n")
	if !strings.Contains(s.bin, "cvc5") {
		s.w(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout))
	}
	s.w("(set-logic ALL)\n(declare-sort Bytes 0)\n(declare-fun blen (Bytes) Int)\n(declare-fun bat (Bytes Int) Int)\n(declare-fun bslice (Bytes Int Int) Bytes)\n(declare-fun bcat (Bytes Bytes) Bytes)\n(declare-fun bunit (Int) Bytes)\n(declare-fun bzero (Int) Bytes)\n(declare-fun bid (Bytes) Int)\n")
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) w(x string) {
	s.buf.WriteString(x)
	if s.log != nil {
		io.WriteString(s.log, x)
	}
}
func (s *Solver) flush() {
	if s.buf.Len() > 0 {
		io.WriteString(s.in, s.buf.String())
		s.buf.Reset()
	}
}

func sortName(x Sort) string { return [...]string{"Bool", "Int", "Bytes"}[x] }

func smtInt(t *Term) string { return smtBig(t.val.String()) }
func smtBig(x string) string {
	if strings.HasPrefix(x, "-") {
		return "(- " + x[1:] + ")"
	}
	return x
}

func quoteSym(x string) string {
	return "|" + strings.NewReplacer("|", "_", "\\", "_").Replace(x) + "|"
}

// ref returns the SMT text naming t; declares it (global) on first use.
func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.sort == SBool {
			if t.val.Sign() != 0 {
				return "true"
			}
			return "false"
		}
		return smtInt(t)
	case OVar:
		nm := quoteSym(fmt.Sprintf("%s@%d", t.str, t.id))
		if !s.emitted[t] {
			s.emitted[t] = true
			s.w(fmt.Sprintf("(declare-const %s %s)\n", nm, sortName(t.sort)))
		}
		return nm
	}
	nm := fmt.Sprintf("t%d", t.id)
	if s.emitted[t] {
		return nm
	}
	as := make([]string, len(t.args))
	for i, a := range t.args {
		as[i] = s.ref(a)
	}
	var body string
	switch t.op {
	case OBLit:
		s.emitted[t] = true
		s.w(fmt.Sprintf("(declare-const %s Bytes)\n", nm))
		return nm
	case OUF:
		key := t.str
		var sg []string
		for _, a := range t.args {
			sg = append(sg, sortName(a.sort))
		}
		key = fmt.Sprintf("%s/%s/%s", t.str, strings.Join(sg, ""), sortName(t.sort))
		q := quoteSym(key)
		if !s.ufs[key] {
			s.ufs[key] = true
			s.w(fmt.Sprintf("(declare-fun %s (%s) %s)\n", q, strings.Join(sg, " "), sortName(t.sort)))
		}
		if len(as) == 0 {
			body = q
		} else {
			body = "(" + q + " " + strings.Join(as, " ") + ")"
		}
	case ONot:
		body = "(not " + as[0] + ")"
	case OAnd:
		body = "(and " + strings.Join(as, " ") + ")"
	case OOr:
		body = "(or " + strings.Join(as, " ") + ")"
	case OIte:
		body = "(ite " + strings.Join(as, " ") + ")"
	case OEq:
		body = "(= " + strings.Join(as, " ") + ")"
	case OGe0:
		body = "(>= " + as[0] + " 0)"
	case OLin:
		var sb strings.Builder
		sb.WriteString("(+ " + smtBig(t.val.String()))
		for i := range as {
			if c := t.cfs[i].String(); c == "1" {
				sb.WriteString(" " + as[i])
			} else {
				sb.WriteString(" (* " + smtBig(c) + " " + as[i] + ")")
			}
		}
		sb.WriteString(")")
		body = sb.String()
	case OMul:
		body = "(* " + strings.Join(as, " ") + ")"
	case ODiv:
		body = "(div " + as[0] + " " + t.val.String() + ")"
	case OMod:
		body = "(mod " + as[0] + " " + t.val.String() + ")"
	case OBLen:
		body = "(blen " + as[0] + ")"
	case OBAt:
		body = "(bat " + strings.Join(as, " ") + ")"
	case OBCat:
		body = as[len(as)-1]
		for i := len(as) - 2; i >= 0; i-- {
			body = "(bcat " + as[i] + " " + body + ")"
		}
	case OBSlice:
		body = "(bslice " + strings.Join(as, " ") + ")"
	case OBUnit:
		body = "(bunit " + as[0] + ")"
	case OBZero:
		body = "(bzero " + as[0] + ")"
	default:
		panic("smt op")
	}
	s.emitted[t] = true
	s.w(fmt.Sprintf("(define-fun %s () %s %s)\n", nm, sortName(t.sort), body))
	return nm
}

func (s *Solver) hasAxiom(t *Term) bool {
	for _, l := range s.levels {
		if l.axiom[t] {
			return true
		}
	}
	return false
}

// axioms asserts the defining facts of every subterm of t.
func (s *Solver) axioms(t *Term, seen map[*Term]bool) {
	if seen[t] || t.op == OConst || s.hasAxiom(t) {
		return
	}
	seen[t] = true
	s.levels[len(s.levels)-1].axiom[t] = true
	for _, a := range t.args {
		s.axioms(a, seen)
	}
	r := s.ref(t)
	if t.sort == SInt {
		switch t.op {
		case OVar, OUF, OBAt, OMul:
			if t.lo != nil {
				s.w(fmt.Sprintf("(assert (<= %s %s))\n", smtBig(t.lo.String()), r))
			}
			if t.hi != nil {
				s.w(fmt.Sprintf("(assert (<= %s %s))\n", r, smtBig(t.hi.String())))
			}
		}
	}
	if t.sort == SBytes {
		s.axioms(t.blen, seen)
		s.w(fmt.Sprintf("(assert (= (blen %s) %s))\n", r, s.ref(t.blen)))
		if !t.blen.IsConst() {
			s.w(fmt.Sprintf("(assert (>= (blen %s) 0))\n", r))
		}
		switch t.op {
		case OBLit:
			s.w(fmt.Sprintf("(assert (= (bid %s) %d))\n", r, t.id))
			if len(t.str) <= 64 {
				for i := 0; i < len(t.str); i++ {
					s.w(fmt.Sprintf("(assert (= (bat %s %d) %d))\n", r, i, t.str[i]))
				}
			}
		case OBSlice:
			if t.args[1].IsConst() && t.args[1].val.Sign() == 0 {
				b := s.ref(t.args[0])
				s.w(fmt.Sprintf("(assert (=> (= (blen %s) (blen %s)) (= %s %s)))\n", r, b, r, b))
			}
		case OBUnit:
			s.w(fmt.Sprintf("(assert (= (bat %s 0) %s))\n", r, s.ref(t.args[0])))
		case OUF:
			if strings.HasPrefix(t.str, "ctor:") {
				// injectivity through projections
				for i, a := range t.args {
					pk := fmt.Sprintf("proj:%s:%d/%s", t.str, i, sortName(a.sort))
					q := quoteSym(pk)
					if !s.ufs[pk] {
						s.ufs[pk] = true
						s.w(fmt.Sprintf("(declare-fun %s (Bytes) %s)\n", q, sortName(a.sort)))
					}
					s.w(fmt.Sprintf("(assert (= (%s %s) %s))\n", q, r, s.ref(a)))
				}
				if !looseCtor(t.str) {
					s.w(fmt.Sprintf("(assert (= (bid %s) (- 0 %d)))\n", r, ctorID(t.str)))
				}
			}
		}
	}
}

var ctorIDs = map[string]int{}
var ctorMu = make(chan struct{}, 1)

// looseCtor: injective encodings whose image may meet literals and other
// encodings (decimal, hexadecimal, base64 text).
func looseCtor(n string) bool {
	n = strings.TrimPrefix(n, "ctor:")
	return n == "dec" || n == "hex" || n == "b64" || strings.HasPrefix(n, "fmt")
}

func ctorID(n string) int {
	ctorMu <- struct{}{}
	defer func() { <-ctorMu }()
	if x, ok := ctorIDs[n]; ok {
		return x
	}
	ctorIDs[n] = len(ctorIDs) + 1
	return ctorIDs[n]
}

func (s *Solver) push(pc *Term) {
	s.w("(push 1)\n")
	s.levels = append(s.levels, &level{pc: pc, axiom: map[*Term]bool{}})
	if pc != nil {
		s.axioms(pc, map[*Term]bool{})
		s.w("(assert " + s.ref(pc) + ")\n")
	}
}
func (s *Solver) popTo(n int) {
	k := len(s.levels) - 1 - n
	if k > 0 {
		s.w(fmt.Sprintf("(pop %d)\n", k))
		s.levels = s.levels[:n+1]
	}
}

// sync makes the assertion stack equal to pc.
func (s *Solver) sync(pc []*Term) {
	i := 0
	for i < len(pc) && i+1 < len(s.levels) && s.levels[i+1].pc == pc[i] {
		i++
	}
	s.popTo(i)
	for ; i < len(pc); i++ {
		s.push(pc[i])
	}
}

const (
	Unsat = iota
	Sat
	Unknown
)

// Check returns the satisfiability of pc and extra.
func (s *Solver) Check(pc []*Term, extra *Term) int {
	if profQ != nil {
		profCall()
	}
	for try := 0; ; try++ {
		r, err := s.check1(pc, extra)
		if err == nil {
			return r
		}
		s.Close()
		if try > 1 {
			s.start()
			return Unknown
		}
		s.start()
	}
}

func (s *Solver) check1(pc []*Term, extra *Term) (int, error) {
	t0 := time.Now()
	defer func() { s.spent += time.Since(t0) }()
	s.nQuery++
	s.sync(pc)
	n := len(s.levels) - 1
	if extra != nil {
		s.push(extra)
	}
	s.w("(check-sat)\n")
	s.flush()
	line, err := s.out.ReadString('\n')
	if err != nil {
		return Unknown, fmt.Errorf("solver died: %v", err)
	}
	line = strings.TrimSpace(line)
	if extra != nil {
		s.popTo(n)
	}
	switch line {
	case "sat":
		return Sat, nil
	case "unsat":
		return Unsat, nil
	case "unknown", "timeout":
		s.nUnknown++
		return Unknown, nil
	}
	return Unknown, fmt.Errorf("solver said %q", line)
}

// Model evaluates the given terms under pc and extra.
func (s *Solver) Model(pc []*Term, extra *Term, ts []*Term) map[*Term]string {
	s.sync(pc)
	n := len(s.levels) - 1
	s.push(extra)
	for _, t := range ts {
		s.axioms(t, map[*Term]bool{})
		s.ref(t)
	}
	s.w("(check-sat)\n")
	s.flush()
	line, err := s.out.ReadString('\n')
	res := map[*Term]string{}
	if err != nil || strings.TrimSpace(line) != "sat" {
		s.popTo(n)
		return res
	}
	for _, t := range ts {
		s.w("(get-value (" + s.ref(t) + "))\n(echo \"--\")\n")
		s.flush()
		var sb strings.Builder
		for {
			l, err := s.out.ReadString('\n')
			if err != nil {
				return res
			}
			if strings.Contains(l, "--") && !strings.Contains(l, "(") {
				break
			}
			sb.WriteString(strings.TrimSpace(l) + " ")
		}
		v := strings.TrimSpace(sb.String())
		v = strings.TrimSuffix(strings.TrimPrefix(v, "(("), "))")
		if i := strings.Index(v, s.ref(t)); i == 0 {
			v = strings.TrimSpace(v[len(s.ref(t)):])
		}
		res[t] = v
	}
	s.popTo(n)
	return res
}

var profQ map[string]int
var profMu sync.Mutex

func profCall() {
	var pcs [12]uintptr
	n := runtime.Callers(3, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	k := ""
	for i := 0; i < 9; i++ {
		f, more := fr.Next()
		k += strings.TrimPrefix(f.Function, "main.") + fmt.Sprintf(":%d<", f.Line)
		if !more {
			break
		}
	}
	profMu.Lock()
	profQ[k]++
	profMu.Unlock()
}
