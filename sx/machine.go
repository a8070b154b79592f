package sx

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// decision of a path.
type decision struct {
	forced bool
	taken  bool
	val    uint64 // concretized value
	conc   bool
}

// VarVal is a solver-independent variable assignment.
type VarVal struct {
	N uint64
	R *big.Rat
}

type item struct {
	prefix []decision
	model  map[string]VarVal
	entry  *Entry
	owner  int
}

// Input describes a symbolic input of a harness.
type Input struct {
	Name string
	Kind string // int, byte, bool, float
	v    *Term
	Lo   int64
}

// Candidate is a potential violation.
type Candidate struct {
	Entry  *Entry
	Label  string
	Kind   string // assert, panic, hang, depth
	Msg    string
	Values map[string]VarVal // by variable name
	Inputs []Input
	Alts   []map[string]VarVal
}

type obs struct {
	label string
	kind  string
	v     Value
}

// Machine executes one path at a time.
type Machine struct {
	P  *Program
	w  *Worker
	tc *TC
	s  *Solver

	// per path
	prefix    []decision
	pos       int
	decs      []decision
	pc        []*Term
	facts     map[*Term]bool
	model     *Model
	ev        *evaluator
	vars      []*Term
	varSet    map[*Term]bool
	eqc       map[*Term]uint64
	inputs    []Input
	init      int
	steps     int64
	maxSteps  int64
	depth     int
	maxDepth  int
	spec      int
	guard     *Term            // condition of the region being executed speculatively
	journal   []undo           // stores made by speculative execution
	fresh     map[*Value]*Term // cells allocated by speculative execution
	merges    int64
	mergeFail map[*block]int
	rmemo     map[*Term]*Term
	rcount    int
	names     map[string]int
	mapNondet bool
	noMerge   bool
	arena     []Value
	sp        int
	arenas    []arenaMark
	top       *frame
	globals   []*Value
	inited    map[*ssa.Package]int
	obs       []obs
	reach     map[string]bool
	asserts   map[string]int
	candHere  bool
	tokens    map[string]*Term
	ntok      int
	impl      map[implKey]bool
	entry     *Entry
	repoCalls int64
	initial   map[string]VarVal
	side      map[*Value]any
	log       []string
	deadline  time.Time
	unknowns  int64
	files     map[string]any
	unsupInit map[string]string
	weakOf    map[*Term]*Term
	jdocs     []jsonDoc
}

func (m *Machine) noteFunc(f *Func) {
	if m.init > 0 {
		return
	}
	if !m.w.seen[f] {
		m.w.seen[f] = true
	}
}

func (m *Machine) evalB(t *Term) bool { return m.ev.B(t) }

func (m *Machine) setModel(md *Model) {
	m.model = md
	m.ev = md.newEval()
}

// newVar registers a symbolic variable and gives it a value in the current model.
func (m *Machine) newVar(v *Term) {
	if m.varSet[v] {
		return
	}
	m.varSet[v] = true
	m.vars = append(m.vars, v)
	if v.s == SReal || v.s == SInt {
		if _, ok := m.model.rl[v]; !ok {
			if iv, ok := m.initial[v.name]; ok && iv.R != nil {
				m.model.rl[v] = iv.R
			} else if v.lo <= 0 && v.hi >= 0 {
				m.model.rl[v] = ratZero
			} else {
				m.model.rl[v] = ratFromFloat(v.lo)
			}
		}
		return
	}
	if _, ok := m.model.bv[v]; !ok {
		if iv, ok := m.initial[v.name]; ok {
			m.model.bv[v] = iv.N
		}
	}
}

func (m *Machine) known(t *Term) (bool, bool) {
	if t.op == OConst {
		return t.c == 1, true
	}
	if b, ok := m.facts[t]; ok {
		return b, true
	}
	if t.op == ONot {
		if b, ok := m.facts[t.a[0]]; ok {
			return !b, true
		}
	}
	return false, false
}

func (m *Machine) addFact(t *Term, b bool) {
	if _, ok := m.facts[t]; ok {
		return
	}
	m.facts[t] = b
	if b && t.op == OEq && t.a[0].op == OConst && t.a[0].s >= 1 && t.a[0].s <= 64 {
		m.eqc[t.a[1]] = t.a[0].c
	}
	n := m.tc.Not(t)
	m.facts[n] = !b
	if b && t.op == OAnd {
		m.addFact(t.a[0], true)
		m.addFact(t.a[1], true)
	}
	if !b && t.op == OOr {
		m.addFact(t.a[0], false)
		m.addFact(t.a[1], false)
	}
	if t.op == ONot {
		m.addFact(t.a[0], !b)
	}
	if n.op == OAnd && !b {
		m.addFact(n.a[0], true)
		m.addFact(n.a[1], true)
	}
}

func (m *Machine) assumeRaw(t *Term) {
	if t == m.tc.True {
		return
	}
	m.pc = append(m.pc, t)
	m.addFact(t, true)
}

// addPC adds a term that the current model satisfies.
func (m *Machine) addPC(t *Term) {
	if b, ok := m.known(t); ok && b {
		return
	}
	m.assumeRaw(t)
}

func (m *Machine) check(extra ...*Term) (Result, *Model) {
	if m.w.ex.stopped.Load() {
		panic(pathEnd{endStop, ""})
	}
	if m.w.ex.LongQ > 0 {
		t0 := time.Now()
		defer func() {
			if d := time.Since(t0); d > m.w.ex.LongQ {
				m.w.ex.logf("slow query %v%s", d, m.where())
			}
		}()
	}
	r, md := m.s.Check(m.pc, extra, m.vars)
	return r, md
}

// branch decides a symbolic condition, scheduling the other side when it is feasible.
func (m *Machine) branch(t *Term) bool {
	if b, ok := m.known(t); ok {
		return b
	}
	if m.init > 0 {
		m.unsupported("symbolic branch during package initialisation")
	}
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		m.decs = append(m.decs, d)
		if d.conc {
			panic(pathEnd{endUnsupported, "nondeterministic re-execution" + m.where()})
		}
		m.take(t, d)
		return d.taken
	}
	m.pos++
	v := m.evalB(t)
	other := t
	if v {
		other = m.tc.Not(t)
	}
	r, md := m.check(other)
	d := decision{taken: v}
	switch r {
	case Unsat:
		d.forced = true
	case Sat:
		m.spawn(decision{taken: !v}, md)
	case Unknown:
		m.unknowns++
		m.w.ex.unknownBranches.Add(1)
	}
	m.decs = append(m.decs, d)
	m.take(t, d)
	return v
}

func (m *Machine) take(t *Term, d decision) {
	if !d.taken {
		t = m.tc.Not(t)
	}
	if d.forced {
		m.addFact(t, true)
		return
	}
	m.assumeRaw(t)
}

func (m *Machine) spawn(d decision, md *Model) {
	if m.w.ex.Forks {
		m.w.ex.logf("fork%s", m.where())
	}
	p := make([]decision, len(m.decs)+1)
	copy(p, m.decs)
	p[len(m.decs)] = d
	m.w.ex.push(item{prefix: p, model: exportModel(md, m.vars), entry: m.entry, owner: m.w.id})
}

func exportModel(md *Model, vars []*Term) map[string]VarVal {
	r := make(map[string]VarVal, len(vars))
	for _, v := range vars {
		if v.s == SReal || v.s == SInt {
			if x, ok := md.rl[v]; ok {
				r[v.name] = VarVal{R: x}
			}
		} else {
			r[v.name] = VarVal{N: md.bv[v]}
		}
	}
	return r
}

// concTerm enumerates the feasible values of a bit-vector term.
func (m *Machine) concTerm(t *Term) uint64 {
	if t.op == OConst {
		return t.c
	}
	if m.spec > 0 {
		panic(specAbort{"concretize"})
	}
	if m.init > 0 {
		m.unsupported("symbolic value during package initialisation")
	}
	if c, ok := m.constOf(t); ok {
		return c
	}
	for {
		if m.pos < len(m.prefix) {
			d := m.prefix[m.pos]
			m.pos++
			m.decs = append(m.decs, d)
			if !d.conc {
				panic(pathEnd{endUnsupported, "nondeterministic re-execution" + m.where()})
			}
			e := m.tc.Eq(t, m.tc.BV(d.val, t.s))
			if d.taken {
				m.take(e, d)
				return d.val
			}
			m.take(e, d)
			continue
		}
		m.pos++
		v := m.ev.N(t)
		e := m.tc.Eq(t, m.tc.BV(v, t.s))
		d := decision{conc: true, taken: true, val: v}
		if b, ok := m.known(e); ok && b {
			d.forced = true
		} else {
			r, md := m.check(m.tc.Not(e))
			switch r {
			case Unsat:
				d.forced = true
			case Sat:
				m.spawn(decision{conc: true, taken: false, val: v}, md)
			case Unknown:
				m.unknowns++
				m.w.ex.unknownBranches.Add(1)
			}
		}
		m.decs = append(m.decs, d)
		m.take(e, d)
		return v
	}
}

func (m *Machine) constOf(t *Term) (uint64, bool) {
	if t.op == OConst {
		return t.c, true
	}
	if c, ok := m.eqc[t]; ok {
		return c, true
	}
	switch t.op {
	case OZext, OSext, OTrunc:
		if c, ok := m.constOf(t.a[0]); ok {
			if t.op == OSext {
				return uint64(sext(c, t.a[0].s)) & mask(t.s), true
			}
			return c & mask(t.s), true
		}
	case OBvAdd:
		if a, ok := m.constOf(t.a[0]); ok {
			if b, ok := m.constOf(t.a[1]); ok {
				return (a + b) & mask(t.s), true
			}
		}
	}
	return 0, false
}

func (m *Machine) choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	v := m.freshInt(name, 0, int64(n-1), 64)
	return int(int64(m.concTerm(v)))
}

func (m *Machine) uniq(name string) string {
	k := m.names[name]
	m.names[name] = k + 1
	if k > 0 {
		return fmt.Sprintf("%s#%d", name, k)
	}
	return name
}

// freshInt makes a symbolic integer lo..hi as a term of the given width.
func (m *Machine) freshInt(name string, lo, hi int64, w uint8) *Term {
	tc := m.tc
	if lo == hi {
		m.uniq(name)
		return tc.BV(uint64(lo), w)
	}
	name = m.uniq(name)
	span := uint64(hi - lo)
	bits := uint8(1)
	for bits < 64 && span > mask(bits) {
		bits++
	}
	v := tc.Var(fmt.Sprintf("%s!%d:%d", name, lo, hi), bits)
	m.newVar(v)
	m.inputs = append(m.inputs, Input{Name: name, Kind: "int", v: v, Lo: lo})
	if mask(bits) != span {
		v.uhi = span
		m.assumeRaw(tc.mk(OBvUle, SBool, v, tc.BV(span, bits), nil, 0, ""))
	}
	t := tc.Zext(v, w)
	if lo != 0 {
		t = tc.bv2(OBvAdd, t, tc.BV(uint64(lo), w))
	}
	return t
}

func (m *Machine) freshFloat(name string, lo, hi float64, frac int) *Term {
	tc := m.tc
	name = m.uniq(name)
	if lo == hi {
		return tc.RealF(lo)
	}
	v := tc.Var(fmt.Sprintf("%s![%g,%g]/%d", name, lo, hi, frac), SReal)
	v.lo, v.hi, v.frac, v.grid = lo, hi, int16(frac), int16(frac)
	m.newVar(v)
	m.inputs = append(m.inputs, Input{Name: name, Kind: "float", v: v})
	m.assumeRaw(tc.RLe0(tc.RealF(lo), v))
	m.assumeRaw(tc.RLe0(v, tc.RealF(hi)))
	return v
}

// Assume restricts the path.
func (m *Machine) assume(t *Term) {
	if b, ok := m.known(t); ok {
		if !b {
			panic(pathEnd{endInfeasible, ""})
		}
		return
	}
	if m.evalB(t) {
		m.assumeRaw(t)
		return
	}
	r, md := m.check(t)
	switch r {
	case Unsat:
		panic(pathEnd{endInfeasible, ""})
	case Unknown:
		m.unknowns++
		panic(pathEnd{endUnknown, "assume" + m.where()})
	}
	m.setModel(md)
	m.assumeRaw(t)
}

func (m *Machine) inPrefix() bool { return m.pos < len(m.prefix) }

// assert checks that t holds on the current path.
func (m *Machine) assert(t *Term, label string, strong *Term) {
	m.asserts[label]++
	if b, ok := m.known(t); ok && b {
		return
	}
	if m.inPrefix() {
		d := m.prefix[m.pos]
		m.pos++
		m.decs = append(m.decs, d)
		m.take(t, d)
		return
	}
	m.pos++
	rec := func(forced bool) {
		d := decision{forced: forced, taken: true}
		m.decs = append(m.decs, d)
		m.take(t, d)
	}
	if t != m.tc.False && m.evalB(t) {
		r, _ := Unsat, (*Model)(nil)
		var md *Model
		r, md = m.check(m.tc.Not(t))
		switch r {
		case Unsat:
			m.w.ex.assertUnsat.Add(1)
			rec(true)
			return
		case Unknown:
			m.unknowns++
			m.w.ex.unknownAsserts.Add(1)
			rec(false)
			return
		}
		rec(!m.candidate(t, label, strong, md))
		return
	}
	m.candidate(t, label, strong, m.model)
	if t == m.tc.False {
		panic(pathEnd{endInfeasible, ""})
	}
	r, md := m.check(t)
	if r != Sat {
		panic(pathEnd{endInfeasible, ""})
	}
	m.setModel(md)
	rec(false)
}

// candidate records a potential violation with several concrete instances. It tells whether there is one:
// branches are decided with real inputs taken from intervals, a violation needs inputs on their grids.
func (m *Machine) candidate(t *Term, label string, strong *Term, md *Model) bool {
	neg := m.tc.Not(t)
	grid, r := m.gridModel([]*Term{neg})
	if r == Unsat {
		m.w.ex.assertUnsat.Add(1)
		return false
	}
	m.candHere = true
	if !m.w.ex.wantCandidate(m.entry, "assert", label) {
		return true
	}
	c := &Candidate{Entry: m.entry, Label: label, Kind: "assert", Inputs: append([]Input{}, m.inputs...), Msg: m.where()}
	if strong != nil {
		if r, md2 := m.check(neg, m.tc.Not(strong)); r == Sat {
			if g, _ := m.gridModel([]*Term{neg, m.tc.Not(strong)}); g != nil {
				md2 = g
			}
			c.Alts = append(c.Alts, exportModel(md2, m.vars))
		}
	}
	if grid != nil {
		c.Alts = append(c.Alts, exportModel(grid, m.vars))
	}
	c.Alts = append(c.Alts, exportModel(md, m.vars))
	m.w.ex.addCandidate(c)
	return true
}

// gridModel finds a model whose real inputs lie on their grids. Unsat means that there is none.
func (m *Machine) gridModel(extra []*Term) (*Model, Result) {
	var add []*Term
	vars := append([]*Term{}, m.vars...)
	for _, in := range m.inputs {
		if in.Kind == "float" && in.v != nil && in.v.op == OVar {
			k := m.tc.Var("g!"+in.v.name, SInt)
			k.lo, k.hi = -1e15, 1e15
			sc := m.tc.Real(new(big.Rat).SetFrac64(1, int64(1)<<uint(in.v.grid)))
			add = append(add, m.tc.mk(OEq, SBool, in.v, m.tc.realRaw(ORMul, sc, m.tc.ToReal(k)), nil, 0, ""))
			vars = append(vars, k)
		}
	}
	if len(add) == 0 {
		return nil, Unknown
	}
	r, md := m.s.Check(m.pc, append(append([]*Term{}, extra...), add...), vars)
	if r != Sat {
		return nil, r
	}
	return md, r
}

// resetPath prepares the machine for a new path.
func (m *Machine) resetPath(it item) {
	m.prefix, m.pos = it.prefix, 0
	m.decs = m.decs[:0]
	m.pc = m.pc[:0]
	m.facts = map[*Term]bool{}
	m.initial = it.model
	m.setModel(NewModel())
	m.vars = nil
	m.varSet = map[*Term]bool{}
	m.eqc = map[*Term]uint64{}
	m.inputs = nil
	m.init = 0
	m.steps = 0
	m.depth = 0
	m.spec = 0
	m.guard = nil
	m.journal = m.journal[:0]
	m.fresh = map[*Value]*Term{}
	m.mergeFail = map[*block]int{}
	m.rmemo = map[*Term]*Term{}
	m.rcount = 0
	m.names = map[string]int{}
	m.mapNondet = false
	m.noMerge = false
	m.sp = 0
	m.arenas = nil
	m.top = nil
	m.obs = nil
	m.reach = map[string]bool{}
	m.asserts = map[string]int{}
	m.candHere = false
	m.tokens = map[string]*Term{}
	m.ntok = 0
	m.entry = it.entry
	m.unknowns = 0
	m.log = nil
	m.files = map[string]any{}
	m.weakOf = nil
	m.jdocs = nil
	for i, g := range m.P.globals {
		if !m.P.gperm[i] {
			m.globals[i] = nil
			delete(m.inited, g.Pkg)
		}
	}
	for i := range m.pc {
		m.pc[i] = nil
	}
}

// global returns the cell of a package variable, initialising its package on first use.
func (m *Machine) global(i int) *Value {
	if g := m.globals[i]; g != nil {
		return g
	}
	m.initPackage(m.P.globals[i].Pkg)
	return m.globals[i]
}

func (m *Machine) initPackage(p *ssa.Package) {
	if m.inited[p] != 0 {
		return
	}
	m.inited[p] = 1
	var ns []string
	for n := range p.Members {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		if g, ok := p.Members[n].(*ssa.Global); ok {
			v := zero(g.Type().Underlying().(*types.Pointer).Elem())
			m.globals[m.P.gidx[g]] = &v
		}
	}
	if skipInit(p.Pkg.Path()) {
		m.inited[p] = 2
		return
	}
	init := p.Func("init")
	if init == nil {
		return
	}
	repo := m.P.isRepo(p.Pkg)
	depth, nA, sp, ar, top, st := m.depth, len(m.arenas), m.sp, m.arena, m.top, m.steps
	spec := m.spec
	m.spec = 0
	m.init++
	defer func() {
		m.init--
		m.spec = spec
		m.steps = st
	}()
	func() {
		defer func() {
			if repo {
				return
			}
			if r := recover(); r != nil {
				switch x := r.(type) {
				case pathEnd:
					if x.kind == endStop {
						panic(r)
					}
					m.unsupInit[p.Pkg.Path()] = x.msg
				case *goPanic:
					m.unsupInit[p.Pkg.Path()] = "panic in init"
				default:
					panic(r)
				}
				m.depth, m.sp, m.arena, m.top = depth, sp, ar, top
				m.arenas = m.arenas[:nA]
			}
		}()
		m.steps = 0
		m.initCall(init)
	}()
	m.inited[p] = 2
	if p.Pkg.Path() == "image" {
		// packages are initialised when first used; these register themselves here
		for _, n := range []string{"image/gif", "image/jpeg", "image/png"} {
			if q := m.P.pkgs[n]; q != nil {
				m.initPackage(q)
			}
		}
	}
}

func skipInit(path string) bool {
	switch path {
	case "runtime", "internal/cpu", "syscall", "internal/godebug", "os", "internal/poll", "time", "net", "crypto/rand", "log", "internal/testlog", "reflect":
		return true
	}
	return strings.HasPrefix(path, "internal/runtime") || strings.HasPrefix(path, "crypto/")
}

// showVal formats a value for diagnostics.
func showVal(v Value) string {
	switch x := v.p.(type) {
	case nil:
		return fmt.Sprintf("%d", int64(v.n))
	case string:
		return fmt.Sprintf("%q", x)
	case *Iface:
		return fmt.Sprintf("%v(%s)", x.t.t, showVal(x.v))
	case *Value:
		if a, ok := x.p.(Agg); ok && len(a) > 0 {
			return "&{" + showVal(a[0]) + " ...}"
		}
		return "&" + showVal(*x)
	case *SymStr:
		return "<symbolic string>"
	}
	return fmt.Sprintf("<%T>", v.p)
}

// initCall runs a package initializer; nested initializers of other packages are run lazily.
func (m *Machine) initCall(fn *ssa.Function) {
	f := m.P.get(fn)
	fr := &frame{f: f, caller: m.top}
	fr.regs = m.allocRegs(f.nregs)
	m.top = fr
	m.depth++
	m.run(fr, 0)
	m.depth--
	m.top = fr.caller
	m.freeRegs(fr.regs)
}
