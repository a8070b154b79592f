package sx

import (
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Entry is one harness function.
type Entry struct {
	Name string
	Fn   *ssa.Function
}

// Worker owns a term context, a solver and a machine.
type Worker struct {
	id    int
	ex    *Explorer
	m     *Machine
	q     []item
	mu    sync.Mutex
	seen  map[*Func]bool
	paths int
	rng   *rand.Rand
}

// Violation is a natively reproduced candidate.
type Violation struct {
	Entry, Label, Kind, Msg string
	Values                  map[string]string
	Native                  *NativeResult
}

// EntryStats summarises the exploration of a harness function.
type EntryStats struct {
	Name          string         `json:"harness"`
	Paths         int            `json:"paths"`
	OK            int            `json:"completed"`
	Infeasible    int            `json:"pruned_by_assumption"`
	Unsupported   int            `json:"unsupported"`
	Unknown       int            `json:"solver_unknown"`
	Instr         int64          `json:"instructions"`
	Queries       int64          `json:"queries"`
	SolverSec     float64        `json:"solver_seconds"`
	WallSec       float64        `json:"wall_seconds"`
	Merges        int64          `json:"merged_branches"`
	Decisions     int64          `json:"decisions"`
	Exhausted     bool           `json:"exhausted"`
	Left          int            `json:"unexplored_prefixes"`
	Asserts       map[string]int `json:"asserts"`
	Reached       map[string]int `json:"reached"`
	Validated     int            `json:"validated"`
	Diverged      int            `json:"diverged"`
	Unconfirmed   int            `json:"unconfirmed"`
	UnsupMsgs     map[string]int `json:"unsupported_reasons,omitempty"`
	Divergences   []string       `json:"divergences,omitempty"`
	UnconfirmedMs []string       `json:"unconfirmed_candidates,omitempty"`
}

// Explorer explores the paths of harness functions.
type Explorer struct {
	P         *Program
	Runner    *Runner
	N         int
	Bin       []string
	TimeoutMS int
	MaxSteps  int64
	Tier      int
	Verbose   bool
	LongQ     time.Duration
	Forks     bool // report where paths split
	Out       io.Writer
	Validate  int // completed paths to validate natively per entry
	Seed      int64

	workers []*Worker
	mu      sync.Mutex
	cond    *sync.Cond
	idle    int
	pending int
	stopped atomic.Bool

	unknownBranches atomic.Int64
	unknownAsserts  atomic.Int64
	assertUnsat     atomic.Int64

	lostErrors int64
	cur        *Entry
	st         *EntryStats
	candTry    map[string]int
	Violations []*Violation
	confirmed  map[string]bool
	known      map[string]bool
	KnownSeen  map[string]int
	StopAtViol bool
	Samples    []map[string]string
}

func (ex *Explorer) logf(f string, a ...any) {
	if ex.Verbose {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

func (ex *Explorer) Init() {
	ex.cond = sync.NewCond(&ex.mu)
	ex.confirmed = map[string]bool{}
	ex.candTry = map[string]int{}
	ex.KnownSeen = map[string]int{}
	debug.SetMaxStack(4 << 30)
	for i := 0; i < ex.N; i++ {
		w := &Worker{id: i, ex: ex, seen: map[*Func]bool{}, rng: rand.New(rand.NewSource(ex.Seed + int64(i)))}
		w.newMachine()
		ex.workers = append(ex.workers, w)
	}
}

func (w *Worker) newMachine() {
	tc := NewTC()
	m := &Machine{P: w.ex.P, w: w, tc: tc, maxSteps: w.ex.MaxSteps, maxDepth: 1200}
	m.s = NewSolver(tc, w.ex.Bin, w.ex.TimeoutMS)
	if f := os.Getenv("GOSYM_LOG"); f != "" && w.id == 0 {
		m.s.Log, _ = os.Create(f)
	}
	m.globals = make([]*Value, len(m.P.globals))
	m.inited = map[*ssa.Package]int{}
	m.impl = map[implKey]bool{}
	m.unsupInit = map[string]string{}
	w.m = m
}

func (ex *Explorer) Close() {
	for _, w := range ex.workers {
		w.m.s.Close()
	}
}

func (ex *Explorer) push(it item) {
	// called by the worker that runs the parent path
	ex.mu.Lock()
	ex.pending++
	ex.mu.Unlock()
	w := ex.workerOf(it)
	w.mu.Lock()
	w.q = append(w.q, it)
	w.mu.Unlock()
	ex.mu.Lock()
	if ex.idle > 0 {
		ex.cond.Signal()
	}
	ex.mu.Unlock()
}

func (ex *Explorer) workerOf(it item) *Worker {
	if it.entry == nil {
		return ex.workers[0]
	}
	return ex.workers[it.owner]
}

func (w *Worker) take() (item, bool) {
	w.mu.Lock()
	if n := len(w.q); n > 0 {
		it := w.q[n-1]
		w.q = w.q[:n-1]
		w.mu.Unlock()
		return it, true
	}
	w.mu.Unlock()
	n := len(w.ex.workers)
	st := w.rng.Intn(n)
	for i := 0; i < n; i++ {
		o := w.ex.workers[(st+i)%n]
		o.mu.Lock()
		if k := len(o.q); k > 0 {
			it := o.q[0]
			o.q = o.q[1:]
			o.mu.Unlock()
			return it, true
		}
		o.mu.Unlock()
	}
	return item{}, false
}

func (w *Worker) loop(deadline time.Time) {
	ex := w.ex
	for {
		if ex.stopped.Load() || time.Now().After(deadline) {
			ex.stopped.Store(true)
			ex.mu.Lock()
			ex.cond.Broadcast()
			ex.mu.Unlock()
			return
		}
		it, ok := w.take()
		if !ok {
			ex.mu.Lock()
			for {
				if ex.pending == 0 || ex.stopped.Load() {
					ex.cond.Broadcast()
					ex.mu.Unlock()
					return
				}
				has := false
				for _, o := range ex.workers {
					o.mu.Lock()
					if len(o.q) > 0 {
						has = true
					}
					o.mu.Unlock()
				}
				if has {
					break
				}
				ex.idle++
				ex.cond.Wait()
				ex.idle--
			}
			ex.mu.Unlock()
			continue
		}
		w.runPath(it)
		ex.mu.Lock()
		ex.pending--
		if ex.pending == 0 {
			ex.cond.Broadcast()
		}
		ex.mu.Unlock()
	}
}

// Run explores one harness function.
func (ex *Explorer) Run(e *Entry, budget time.Duration) *EntryStats {
	ex.cur = e
	st := &EntryStats{Name: e.Name, Asserts: map[string]int{}, Reached: map[string]int{}, UnsupMsgs: map[string]int{}}
	ex.st = st
	ex.stopped.Store(false)
	ex.pending = 0
	ex.idle = 0
	var q0 int64
	var t0 time.Duration
	for _, w := range ex.workers {
		w.q = nil
		q0 += w.m.s.Queries
		t0 += w.m.s.Time
	}
	start := time.Now()
	deadline := start.Add(budget)
	ex.push(item{entry: e})
	var wg sync.WaitGroup
	tick := time.AfterFunc(budget, func() {
		ex.stopped.Store(true)
		ex.mu.Lock()
		ex.cond.Broadcast()
		ex.mu.Unlock()
	})
	for _, w := range ex.workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w.loop(deadline)
		}()
	}
	wg.Wait()
	tick.Stop()
	st.WallSec = time.Since(start).Seconds()
	for _, w := range ex.workers {
		st.Queries += w.m.s.Queries
		st.SolverSec += w.m.s.Time.Seconds()
		st.Left += len(w.q)
	}
	st.Queries -= q0
	st.SolverSec -= t0.Seconds()
	st.Exhausted = ex.pending == 0 && st.Left == 0
	return st
}

func (w *Worker) runPath(it item) {
	m := w.m
	ex := w.ex
	if len(m.tc.tab) > 3000000 {
		w.m.s.Close()
		q, t := m.s.Queries, m.s.Time
		ex.mu.Lock()
		ex.lostErrors += m.s.Errors
		ex.mu.Unlock()
		w.newMachine()
		m = w.m
		m.s.Queries, m.s.Time = q, t
	}
	for i := range it.prefix {
		_ = i
	}
	m.resetPath(it)
	w.paths++
	var end pathEnd
	var gp *goPanic
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case pathEnd:
					end = x
				case *goPanic:
					gp = x
					end = pathEnd{endPanic, showVal(x.val) + x.where}
				case specAbort:
					end = pathEnd{endUnsupported, "speculation escaped: " + x.why}
				default:
					if ex.Verbose {
						fmt.Fprintf(os.Stderr, "internal error: %v%s\n%s\n", r, m.where(), debug.Stack())
					}
					end = pathEnd{endUnsupported, fmt.Sprintf("internal error: %v%s", r, m.where())}
				}
			}
		}()
		m.callFn(it.entry.Fn, nil, nil, nil)
	}()
	_ = gp
	if end.kind == endStop {
		return
	}
	ex.mu.Lock()
	st := ex.st
	st.Paths++
	st.Instr += m.steps
	st.Merges += m.merges
	m.merges = 0
	if n := len(m.decs) - len(it.prefix); n > 0 {
		st.Decisions += int64(n)
	}
	validate := false
	switch end.kind {
	case endOK:
		st.OK++
		for k := range m.reach {
			st.Reached[k]++
		}
		for k, n := range m.asserts {
			st.Asserts[k] += n
		}
		if !m.candHere && (st.OK <= ex.Validate/2 || (st.Validated < ex.Validate && w.rng.Intn(1+st.OK/8) == 0)) {
			validate = true
			st.Validated++
		}
	case endInfeasible:
		st.Infeasible++
	case endUnknown:
		st.Unknown++
	case endUnsupported:
		st.Unsupported++
		st.UnsupMsgs[end.msg]++
		if st.UnsupMsgs[end.msg] == 1 {
			ex.logf("unsupported: %s", end.msg)
		}
	}
	ex.mu.Unlock()

	switch end.kind {
	case endPanic, endLimit, endDepth:
		kind := map[endKind]string{endPanic: "panic", endLimit: "hang", endDepth: "stack"}[end.kind]
		label := kind
		if g, r := m.gridModel(nil); r != Unsat && ex.wantCandidate(it.entry, kind, label) {
			c := &Candidate{Entry: it.entry, Label: label, Kind: kind, Msg: end.msg}
			if g != nil {
				c.Alts = append(c.Alts, exportModel(g, m.vars))
			}
			c.Alts = append(c.Alts, exportModel(m.model, m.vars))
			c.Inputs = append([]Input{}, m.inputs...)
			ex.addCandidate(c)
		}
	case endUnsupported:
		if ex.Runner != nil && ex.wantCandidate(it.entry, "unsupported", "unsupported") {
			c := &Candidate{Entry: it.entry, Kind: "unsupported", Msg: end.msg, Inputs: append([]Input{}, m.inputs...)}
			c.Alts = append(c.Alts, exportModel(m.model, m.vars))
			ex.addCandidate(c)
		}
	case endOK:
		if validate && ex.Runner != nil {
			w.validate(it)
		}
	}
}

func (w *Worker) validate(it item) {
	m := w.m
	ex := w.ex
	md := m.model
	g, r := m.gridModel(nil)
	if r == Unsat {
		return
	}
	if g != nil {
		md = g
	}
	vals := ex.values(m.inputs, exportModel(md, m.vars))
	res, err := ex.Runner.Run(it.entry.Name, ex.Tier, vals)
	div := ""
	if err != nil {
		div = "runner: " + err.Error()
	} else if res.Panic != "" {
		div = "native panic: " + res.Panic
	} else if len(res.Fail) > 0 {
		div = fmt.Sprintf("native assertion failure: %v", res.Fail)
	} else if res.AssumeFailed {
		div = "native assumption failure"
	} else {
		ev := md.newEval()
		if len(res.Obs) != len(m.obs) {
			div = fmt.Sprintf("%d observations natively, %d symbolically", len(res.Obs), len(m.obs))
		} else {
			for i, o := range m.obs {
				if d := o.differs(ev, res.Obs[i]); d != "" {
					div = fmt.Sprintf("observation %d: %s", i, d)
					break
				}
			}
		}
	}
	ex.mu.Lock()
	defer ex.mu.Unlock()
	if len(ex.Samples) < 6 {
		ex.Samples = append(ex.Samples, sampleOf(it.entry.Name, vals))
	}
	if div != "" {
		ex.st.Diverged++
		if len(ex.st.Divergences) < 5 {
			ex.st.Divergences = append(ex.st.Divergences, div)
		}
		ex.logf("DIVERGENCE %s: %s\n  %v", it.entry.Name, div, vals)
		if res != nil && (len(res.Fail) > 0 || res.Panic != "") {
			// the real code violates the property on this input
			v := &Violation{Entry: it.entry.Name, Kind: "assert", Msg: div, Values: vals, Native: res}
			if len(res.Fail) > 0 {
				v.Label = res.Fail[0]
			} else {
				v.Kind, v.Label = "panic", "panic"
			}
			ex.record(v)
		}
	}
}

func sampleOf(name string, vals map[string]string) map[string]string {
	r := map[string]string{"harness": name}
	ks := make([]string, 0, len(vals))
	for k := range vals {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i, k := range ks {
		if i >= 12 {
			break
		}
		r[k] = vals[k]
	}
	return r
}

func (ex *Explorer) wantCandidate(e *Entry, kind, label string) bool {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	k := e.Name + "|" + kind + "|" + label
	if ex.confirmed[k] || ex.candTry[k] >= 12 {
		return false
	}
	ex.candTry[k]++
	return true
}

// record stores a confirmed violation (ex.mu held).
func (ex *Explorer) record(v *Violation) {
	k := v.Entry + "|" + v.Kind + "|" + v.Label
	if ex.confirmed[k] {
		return
	}
	if ex.known[v.Entry+"|"+v.Label] {
		ex.KnownSeen[v.Entry+"|"+v.Label]++
		return
	}
	ex.confirmed[k] = true
	ex.Violations = append(ex.Violations, v)
	if ex.StopAtViol {
		ex.stopped.Store(true)
	}
}

// addCandidate replays the candidate against the real code.
func (ex *Explorer) addCandidate(c *Candidate) {
	if ex.Runner == nil {
		ex.logf("candidate %s %s %s%s", c.Entry.Name, c.Kind, c.Label, c.Msg)
		for _, a := range c.Alts {
			ex.logf("   %v", ex.values(c.Inputs, a))
		}
		return
	}
	tried := map[string]bool{}
	for _, a := range c.Alts {
		vals := ex.values(c.Inputs, a)
		key := fmt.Sprint(vals)
		if tried[key] {
			continue
		}
		tried[key] = true
		n := 1
		if len(vals) > 0 {
			for k := range vals {
				if len(k) >= 8 && k[:8] == "maporder" {
					n = 40
				}
			}
		}
		for i := 0; i < n; i++ {
			res, err := ex.Runner.Run(c.Entry.Name, ex.Tier, vals)
			if err != nil {
				ex.logf("runner error: %v", err)
				continue
			}
			v := &Violation{Entry: c.Entry.Name, Label: c.Label, Kind: c.Kind, Msg: c.Msg, Values: vals, Native: res}
			ok := false
			switch {
			case len(res.Fail) > 0:
				ok = true
				v.Kind = "assert"
				found := false
				for _, f := range res.Fail {
					if f == c.Label {
						found = true
					}
				}
				if !found {
					v.Label = res.Fail[0]
				}
			case res.Panic != "":
				ok = true
				if res.Hang {
					v.Kind, v.Label = "hang", "hang"
				} else {
					v.Kind, v.Label = "panic", "panic"
				}
			}
			if ok {
				ex.mu.Lock()
				ex.record(v)
				ex.confirmed[c.Entry.Name+"|"+c.Kind+"|"+c.Label] = true
				ex.mu.Unlock()
				ex.logf("CONFIRMED %s %s %q %s", v.Entry, v.Kind, v.Label, res.Panic)
				return
			}
		}
	}
	if c.Kind == "unsupported" {
		return
	}
	ex.mu.Lock()
	ex.st.Unconfirmed++
	if len(ex.st.UnconfirmedMs) < 5 {
		ex.st.UnconfirmedMs = append(ex.st.UnconfirmedMs, fmt.Sprintf("%s %s%s", c.Kind, c.Label, c.Msg))
	}
	ex.mu.Unlock()
	ex.logf("UNCONFIRMED %s %s %q%s", c.Entry.Name, c.Kind, c.Label, c.Msg)
	if ex.Verbose {
		for _, a := range c.Alts {
			ex.logf("   %v", ex.values(c.Inputs, a))
		}
	}
}

// Functions lists the functions of the code under test that were executed symbolically.
func (ex *Explorer) Functions() (repo, std []string) {
	rs, ss := map[string]bool{}, map[string]bool{}
	for _, w := range ex.workers {
		for f := range w.seen {
			pk := f.fn.Pkg
			if pk == nil && f.fn.Origin() != nil {
				pk = f.fn.Origin().Pkg
			}
			if pk == nil {
				continue
			}
			switch {
			case ex.P.isHarness(pk.Pkg):
			case ex.P.isRepo(pk.Pkg):
				rs[f.name] = true
			default:
				ss[f.name] = true
			}
		}
	}
	for k := range rs {
		repo = append(repo, k)
	}
	for k := range ss {
		std = append(std, k)
	}
	sort.Strings(repo)
	sort.Strings(std)
	return
}

// Known marks a listed finding, which is not reported again. Findings are identified by harness and assertion.
func (ex *Explorer) Known(entry, label string) {
	if ex.known == nil {
		ex.known = map[string]bool{}
	}
	ex.known[entry+"|"+label] = true
}

// SolverErrors counts solver runs that died or rejected their input.
func (ex *Explorer) SolverErrors() int64 {
	n := ex.lostErrors
	for _, w := range ex.workers {
		n += w.m.s.Errors
	}
	return n
}
