package sx

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// Result of a solver query.
type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

// Solver drives one z3 process incrementally.
type Solver struct {
	tc       *TC
	cmd      *exec.Cmd
	in       *bufio.Writer
	out      *bufio.Reader
	defined  map[*Term]bool
	stack    []*Term // asserted path-condition terms, one push each
	bin      []string
	timeout  int // ms
	Queries  int64
	Unknowns int64
	Time     time.Duration
	varAx    map[*Term][]*Term // axioms to assert with a variable (ranges, rounding)
	Log      io.Writer
	Errors   int64
	maxDefs  int
	baseDefs int
}

func NewSolver(tc *TC, bin []string, timeoutMS int) *Solver {
	return &Solver{tc: tc, bin: bin, timeout: timeoutMS, maxDefs: envInt("GOSYM_DEFS", 3000)}
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	w, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.defined = map[*Term]bool{}
	s.baseDefs = -1
	s.stack = nil
	s.raw("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	if strings.Contains(s.bin[0], "z3") {
		s.raw(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout))
	} else {
		s.raw("(set-logic ALL)\n")
	}
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) raw(t string) {
	if s.Log != nil {
		io.WriteString(s.Log, t)
	}
	s.in.WriteString(t)
}

func sortName(x uint8) string {
	switch x {
	case SBool:
		return "Bool"
	case SReal:
		return "Real"
	case SInt:
		return "Int"
	}
	return fmt.Sprintf("(_ BitVec %d)", x)
}

func ratSMT(r *big.Rat, real bool) string {
	neg := r.Sign() < 0
	a := new(big.Rat).Abs(r)
	var t string
	if a.IsInt() {
		t = a.Num().String()
		if real {
			t += ".0"
		}
	} else {
		t = "(/ " + a.Num().String() + ".0 " + a.Denom().String() + ".0)"
	}
	if neg {
		return "(- " + t + ")"
	}
	return t
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		switch t.s {
		case SBool:
			if t.c == 1 {
				return "true"
			}
			return "false"
		case SReal:
			return ratSMT(t.r, true)
		case SInt:
			return ratSMT(t.r, false)
		}
		return fmt.Sprintf("(_ bv%d %d)", t.c, t.s)
	case OVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OBvAdd: "bvadd", OBvSub: "bvsub",
	OBvMul: "bvmul", OBvUDiv: "bvudiv", OBvSDiv: "bvsdiv", OBvURem: "bvurem", OBvSRem: "bvsrem", OBvShl: "bvshl",
	OBvLshr: "bvlshr", OBvAshr: "bvashr", OBvAnd: "bvand", OBvOr: "bvor", OBvXor: "bvxor", OBvNot: "bvnot",
	OBvUlt: "bvult", OBvUle: "bvule", OBvSlt: "bvslt", OBvSle: "bvsle", ORAdd: "+", ORSub: "-", ORMul: "*", ORDiv: "/",
	ORLt: "<", ORLe: "<=", OIAdd: "+", OISub: "-", OIMul: "*", OILt: "<", OILe: "<=", OToReal: "to_real"}

// define emits definitions for t and everything below it.
func (s *Solver) define(t *Term) {
	if t.op == OConst || s.defined[t] {
		return
	}
	s.defined[t] = true
	if t.op == OVar {
		s.raw(fmt.Sprintf("(declare-const |%s| %s)\n", t.name, sortName(t.s)))
		return
	}
	for _, x := range t.a {
		if x != nil {
			s.define(x)
		}
	}
	var b strings.Builder
	fmt.Fprintf(&b, "(define-fun t%d () %s (", t.id, sortName(t.s))
	switch t.op {
	case OZext:
		fmt.Fprintf(&b, "(_ zero_extend %d) %s", t.s-t.a[0].s, s.ref(t.a[0]))
	case OSext:
		fmt.Fprintf(&b, "(_ sign_extend %d) %s", t.s-t.a[0].s, s.ref(t.a[0]))
	case OTrunc:
		fmt.Fprintf(&b, "(_ extract %d 0) %s", t.s-1, s.ref(t.a[0]))
	default:
		b.WriteString(opNames[t.op])
		for _, x := range t.a {
			if x != nil {
				b.WriteByte(' ')
				b.WriteString(s.ref(x))
			}
		}
	}
	b.WriteString("))\n")
	s.raw(b.String())
}

func (s *Solver) sync(pc []*Term) {
	if s.cmd == nil {
		s.start()
	} else if len(s.defined) > s.maxDefs+2*s.baseDefs {
		// accumulated definitions slow the solver down
		s.Close()
		s.start()
	}
	if s.baseDefs < 0 {
		defer func() { s.baseDefs = len(s.defined) }()
	}
	k := 0
	for k < len(s.stack) && k < len(pc) && s.stack[k] == pc[k] {
		k++
	}
	if n := len(s.stack) - k; n > 0 {
		s.raw(fmt.Sprintf("(pop %d)\n", n))
		s.stack = s.stack[:k]
	}
	for _, t := range pc[k:] {
		s.define(t)
		s.raw("(push 1)\n(assert " + s.ref(t) + ")\n")
		s.stack = append(s.stack, t)
	}
}

// Check decides pc AND extra; on Sat it returns values of vars.
func (s *Solver) Check(pc []*Term, extra []*Term, vars []*Term) (Result, *Model) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	atomic.AddInt64(&s.Queries, 1)
	s.sync(pc)
	for _, t := range extra {
		s.define(t)
	}
	for _, v := range vars {
		s.define(v)
	}
	s.raw("(push 1)\n")
	for _, t := range extra {
		s.raw("(assert " + s.ref(t) + ")\n")
	}
	s.raw("(check-sat)\n")
	s.in.Flush()
	line, err := s.readLine(time.Duration(s.timeout)*time.Millisecond*2 + 5*time.Second)
	if err != nil {
		s.Errors++
		s.Close()
		s.Unknowns++
		return Unknown, nil
	}
	switch line {
	case "unsat":
		s.raw("(pop 1)\n")
		return Unsat, nil
	case "sat":
	default:
		if strings.Contains(line, "error") {
			s.Errors++
			fmt.Fprintln(os.Stderr, "solver:", line)
			s.Close()
		} else {
			s.raw("(pop 1)\n")
		}
		s.Unknowns++
		return Unknown, nil
	}
	m := NewModel()
	if len(vars) > 0 {
		var b strings.Builder
		b.WriteString("(get-value (")
		for _, v := range vars {
			b.WriteString(s.ref(v))
			b.WriteByte(' ')
		}
		b.WriteString("))\n")
		s.raw(b.String())
		s.in.Flush()
		txt, err := s.readSexp()
		if err != nil || strings.HasPrefix(txt, "(error") {
			s.Errors++
			fmt.Fprintln(os.Stderr, "solver get-value:", txt, err)
			s.Close()
			s.Unknowns++
			return Unknown, nil
		}
		parseModel(txt, vars, m)
	}
	s.raw("(pop 1)\n")
	return Sat, m
}

func (s *Solver) readLine(d time.Duration) (string, error) {
	// z3's own timeout bounds the wait; a watchdog kills a stuck process.
	tm := time.AfterFunc(d, func() {
		if s.cmd != nil {
			s.cmd.Process.Kill()
		}
	})
	defer tm.Stop()
	for {
		l, err := s.out.ReadString('\n')
		l = strings.TrimSpace(l)
		if l != "" || err != nil {
			return l, err
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var b strings.Builder
	depth := 0
	inBar := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return b.String(), err
		}
		b.WriteByte(c)
		switch {
		case c == '|':
			inBar = !inBar
		case inBar:
		case c == '(':
			depth++
		case c == ')':
			depth--
			if depth == 0 {
				return b.String(), nil
			}
		}
	}
}

// tiny s-expression parser
type sexp struct {
	atom string
	list []*sexp
}

func parseSexp(t string, p int) (*sexp, int) {
	for t[p] == ' ' || t[p] == '\n' || t[p] == '\t' || t[p] == '\r' {
		p++
	}
	if t[p] == '(' {
		x := &sexp{list: []*sexp{}}
		p++
		for {
			for t[p] == ' ' || t[p] == '\n' || t[p] == '\t' || t[p] == '\r' {
				p++
			}
			if t[p] == ')' {
				return x, p + 1
			}
			var y *sexp
			y, p = parseSexp(t, p)
			x.list = append(x.list, y)
		}
	}
	st := p
	if t[p] == '|' {
		p++
		for t[p] != '|' {
			p++
		}
		p++
		return &sexp{atom: t[st:p]}, p
	}
	for p < len(t) && t[p] != ' ' && t[p] != ')' && t[p] != '(' && t[p] != '\n' {
		p++
	}
	return &sexp{atom: t[st:p]}, p
}

func (x *sexp) rat() *big.Rat {
	if x.list == nil {
		r, ok := new(big.Rat).SetString(strings.TrimSuffix(x.atom, "?"))
		if !ok {
			return new(big.Rat)
		}
		return r
	}
	switch x.list[0].atom {
	case "-":
		return new(big.Rat).Neg(x.list[1].rat())
	case "/":
		d := x.list[2].rat()
		if d.Sign() == 0 {
			return new(big.Rat)
		}
		return new(big.Rat).Quo(x.list[1].rat(), d)
	case "to_real":
		return x.list[1].rat()
	}
	return new(big.Rat) // algebraic numbers: approximated by 0 (replay decides)
}

func parseModel(txt string, vars []*Term, m *Model) {
	x, _ := parseSexp(txt, 0)
	for i, v := range vars {
		if i >= len(x.list) {
			break
		}
		val := x.list[i].list[1]
		switch v.s {
		case SBool:
			m.bv[v] = b2u(val.atom == "true")
		case SReal, SInt:
			m.rl[v] = val.rat()
		default:
			var n uint64
			a := val.atom
			if strings.HasPrefix(a, "#x") {
				fmt.Sscanf(a[2:], "%x", &n)
			} else if strings.HasPrefix(a, "#b") {
				for _, c := range a[2:] {
					n = n<<1 | uint64(c-'0')
				}
			} else if val.list != nil && len(val.list) == 3 { // (_ bvN w)
				fmt.Sscanf(val.list[1].atom, "bv%d", &n)
			}
			m.bv[v] = n
		}
	}
}

func envInt(k string, d int) int {
	if n, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return n
	}
	return d
}
