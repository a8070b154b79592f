package sx

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type endKind int

const (
	endOK endKind = iota
	endInfeasible
	endUnsupported
	endLimit
	endDepth
	endPanic
	endUnknown // solver gave up
	endStop
)

func (k endKind) String() string {
	return [...]string{"ok", "infeasible", "unsupported", "step-limit", "depth-limit", "panic", "unknown", "stopped"}[k]
}

type pathEnd struct {
	kind endKind
	msg  string
}

type specAbort struct{ why string }

type goPanic struct {
	val   Value // interface value
	where string
	exit  bool
}

type deferred struct {
	fn   Value
	args []Value
	recv *Iface
	meth *types.Func
}

type frame struct {
	f         *Func
	regs      []Value
	defers    []deferred
	caller    *frame
	deferOf   *frame
	panicking *goPanic
	cur       *inst
}

func (m *Machine) unsupported(format string, a ...any) {
	if m.spec > 0 {
		panic(specAbort{"unsupported"})
	}
	panic(pathEnd{endUnsupported, fmt.Sprintf(format, a...) + m.where()})
}

func (m *Machine) where() string {
	s := ""
	n := 0
	for fr := m.top; fr != nil && n < 6; fr = fr.caller {
		s += " < " + fr.f.name
		if fr.cur != nil && fr.cur.ins != nil {
			p := m.P.prog.Fset.Position(fr.cur.ins.Pos())
			if p.IsValid() {
				s += fmt.Sprintf("(%s:%d)", p.Filename[strings.LastIndex(p.Filename, "/")+1:], p.Line)
			}
		}
		n++
	}
	return s
}

func (m *Machine) panicVal(v Value) {
	if m.spec > 0 {
		panic(specAbort{"panic"})
	}
	panic(&goPanic{val: v, where: m.where()})
}

func (m *Machine) runtimePanic(format string, a ...any) {
	if m.spec > 0 {
		panic(specAbort{"runtime panic"})
	}
	msg := fmt.Sprintf(format, a...)
	panic(&goPanic{val: Value{p: &Iface{m.P.types.get(m.P.tRuntimeErr), mkStrC(msg)}}, where: m.where()})
}

func (m *Machine) get(fr *frame, o *opnd) Value {
	if o.slot >= 0 {
		return fr.regs[o.slot]
	}
	if o.slot == -1 {
		return o.k
	}
	return Value{p: m.global(int(o.g))}
}

func (m *Machine) allocRegs(n int) []Value {
	if m.sp+n > len(m.arena) {
		sz := 1 << 14
		if n > sz {
			sz = n
		}
		m.arenas = append(m.arenas, arenaMark{m.arena, m.sp})
		m.arena = make([]Value, sz)
		m.sp = 0
	}
	r := m.arena[m.sp : m.sp+n : m.sp+n]
	m.sp += n
	return r
}

type arenaMark struct {
	a  []Value
	sp int
}

func (m *Machine) freeRegs(r []Value) {
	clear(r)
	m.sp -= len(r)
	if m.sp == 0 && len(m.arenas) > 0 {
		k := m.arenas[len(m.arenas)-1]
		m.arenas = m.arenas[:len(m.arenas)-1]
		m.arena, m.sp = k.a, k.sp
	}
}

// callFn calls an SSA function.
func (m *Machine) callFn(fn *ssa.Function, args []Value, free []Value, deferOf *frame) Value {
	f := m.P.get(fn)
	if f.native != nil {
		if v, ok := f.native(m, fn, args); ok {
			return v
		}
	}
	if f.isInit {
		return Value{}
	}
	if len(f.blocks) == 0 {
		m.unsupported("external function %s", f.name)
	}
	m.noteFunc(f)
	m.depth++
	if m.depth > m.maxDepth {
		if m.spec > 0 {
			panic(specAbort{"depth"})
		}
		panic(pathEnd{endDepth, "call depth" + m.where()})
	}
	fr := &frame{f: f, caller: m.top, deferOf: deferOf}
	fr.regs = m.allocRegs(f.nregs)
	copy(fr.regs, args)
	copy(fr.regs[f.nparams:], free)
	m.top = fr
	var res Value
	if f.hasDefer {
		res = m.runWithDefers(fr)
	} else {
		res = m.run(fr, 0)
	}
	if f.repo && m.init == 0 {
		m.repoCalls++
	}
	m.top = fr.caller
	m.depth--
	m.freeRegs(fr.regs)
	return res
}

func (m *Machine) runWithDefers(fr *frame) (res Value) {
	depth, nA, sp, ar, in := m.depth, len(m.arenas), m.sp, m.arena, m.init
	normal := false
	catch := func(f func()) (ok bool) {
		defer func() {
			if ok {
				return
			}
			r := recover()
			if gp, is := r.(*goPanic); is {
				fr.panicking = gp
				m.depth = depth
				m.arenas = m.arenas[:nA]
				m.arena, m.sp = ar, sp
				m.top = fr
				m.init = in
				return
			}
			panic(r)
		}()
		f()
		return true
	}
	catch(func() {
		res = m.run(fr, 0)
		normal = true
	})
	if normal {
		return res
	}
	for len(fr.defers) > 0 {
		catch(func() { m.runDefer1(fr) })
	}
	if fr.panicking != nil {
		panic(fr.panicking)
	}
	if fr.f.recover >= 0 {
		return m.run(fr, fr.f.recover)
	}
	rs := fr.f.fn.Signature.Results()
	switch rs.Len() {
	case 0:
		return Value{}
	case 1:
		return zero(rs.At(0).Type())
	}
	return zero(rs)
}

func (m *Machine) runDefer1(fr *frame) {
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	if d.meth != nil {
		fn := m.lookupMethod(d.recv, d.meth)
		m.callFn(fn, append([]Value{d.recv.v}, d.args...), nil, fr)
		return
	}
	m.callValue(d.fn, d.args, fr, nil)
}

// callValue calls a function value.
func (m *Machine) callValue(f Value, args []Value, deferOf *frame, in *inst) Value {
	switch fv := f.p.(type) {
	case *ssa.Function:
		return m.callFn(fv, args, nil, deferOf)
	case *Closure:
		return m.callFn(fv.fn, args, fv.free, deferOf)
	case *ssa.Builtin:
		return m.builtin(fv, args, deferOf, in)
	case *nativeFn:
		return fv.f(m, args)
	case nil:
		m.runtimePanic("invalid memory address or nil pointer dereference (nil func)")
	}
	m.unsupported("call of %T", f.p)
	return Value{}
}

func (m *Machine) lookupMethod(i *Iface, meth *types.Func) *ssa.Function {
	ti := i.t
	key := meth.Name()
	if !meth.Exported() && meth.Pkg() != nil {
		key = meth.Pkg().Path() + "." + key
	}
	if f, ok := ti.methods.Load(key); ok {
		return f.(*ssa.Function)
	}
	fn := m.P.prog.LookupMethod(ti.t, meth.Pkg(), meth.Name())
	if fn == nil {
		m.unsupported("no method %s on %s", meth.Name(), ti.t)
	}
	ti.methods.Store(key, fn)
	return fn
}

func (m *Machine) run(fr *frame, start int) Value {
	f := fr.f
	cur := start
	prev := -1
	skipPhis := false
	for {
		bl := f.blocks[cur]
		if len(bl.phis) > 0 && !skipPhis {
			k := -1
			for i, p := range bl.preds {
				if p == prev {
					k = i
					break
				}
			}
			if len(bl.phis) == 1 {
				p := &bl.phis[0]
				fr.regs[p.dst] = m.get(fr, &p.edges[k])
			} else {
				var buf [8]Value
				tmp := buf[:0]
				for i := range bl.phis {
					tmp = append(tmp, m.get(fr, &bl.phis[i].edges[k]))
				}
				for i := range bl.phis {
					fr.regs[bl.phis[i].dst] = tmp[i]
				}
			}
		}
		skipPhis = false
		m.steps += int64(len(bl.ins))
		if m.steps > m.maxSteps {
			if m.init > 0 {
				m.unsupported("init step limit")
			}
			panic(pathEnd{endLimit, "step limit" + m.where()})
		}
		next := -1
		for ii := range bl.ins {
			in := &bl.ins[ii]
			fr.cur = in
			switch in.op {
			case iJump:
				next = bl.succs[0]
			case iIf:
				c := m.get(fr, &in.a)
				if t, ok := c.p.(*Term); ok {
					if b, known := m.known(t); known {
						if b {
							next = bl.succs[0]
						} else {
							next = bl.succs[1]
						}
						break
					}
					nb, rv, done := m.tryMerge(fr, cur, t)
					if done {
						if nb < 0 {
							return rv
						}
						next = nb
						skipPhis = true
						break
					}
					if m.spec > 0 {
						panic(specAbort{"branch"})
					}
					if m.branch(t) {
						next = bl.succs[0]
					} else {
						next = bl.succs[1]
					}
				} else if c.n != 0 {
					next = bl.succs[0]
				} else {
					next = bl.succs[1]
				}
			case iReturn:
				switch len(in.args) {
				case 0:
					return Value{}
				case 1:
					return m.get(fr, &in.args[0])
				}
				t := make(Tuple, len(in.args))
				for i := range in.args {
					t[i] = m.get(fr, &in.args[i])
				}
				return Value{p: t}
			default:
				m.exec(fr, in)
			}
		}
		if next < 0 {
			m.unsupported("block without successor in %s", f.name)
		}
		prev = cur
		cur = next
	}
}

func (m *Machine) exec(fr *frame, in *inst) {
	switch in.op {
	case iNop:
	case iAlloc:
		v := zero(in.typ)
		if m.spec > 0 {
			m.fresh[&v] = m.guard
		}
		fr.regs[in.dst] = Value{p: &v}
	case iBin:
		fr.regs[in.dst] = m.binop(token.Token(in.x), in.t, in.t2, in.typ, m.get(fr, &in.a), m.get(fr, &in.b))
	case iUnOp:
		fr.regs[in.dst] = m.unop(token.Token(in.x), in.t, m.get(fr, &in.a))
	case iLoad:
		fr.regs[in.dst] = m.load(m.get(fr, &in.a), in.t2)
	case iStore:
		m.storeT(m.get(fr, &in.a), m.get(fr, &in.b), in.typ)
	case iCall:
		var buf [6]Value
		args := buf[:0]
		if len(in.args) > 6 {
			args = make([]Value, 0, len(in.args))
		}
		for i := range in.args {
			args = append(args, m.get(fr, &in.args[i]))
		}
		f := m.get(fr, &in.a)
		var r Value
		switch fv := f.p.(type) {
		case *ssa.Function:
			r = m.callFn(fv, args, nil, nil)
		case *ssa.Builtin:
			r = m.builtin(fv, args, fr, in)
		default:
			r = m.callValue(f, args, nil, in)
		}
		fr.regs[in.dst] = r
	case iInvoke:
		recv := m.get(fr, &in.a)
		ifc, ok := recv.p.(*Iface)
		if !ok {
			m.runtimePanic("invalid memory address or nil pointer dereference (nil interface)")
		}
		fn := m.lookupMethod(ifc, in.aux.(*types.Func))
		args := make([]Value, 0, len(in.args)+1)
		args = append(args, ifc.v)
		for i := range in.args {
			args = append(args, m.get(fr, &in.args[i]))
		}
		fr.regs[in.dst] = m.callFn(fn, args, nil, nil)
	case iCopy:
		fr.regs[in.dst] = m.get(fr, &in.a)
	case iConvert:
		fr.regs[in.dst] = m.convert(in.t, in.t2, in.aux.(types.Type), in.typ, m.get(fr, &in.a))
	case iDefer:
		if m.spec > 0 {
			panic(specAbort{"defer"})
		}
		d := deferred{}
		for i := range in.args {
			d.args = append(d.args, m.get(fr, &in.args[i]))
		}
		if iop(in.x) == iInvoke {
			ifc, ok := m.get(fr, &in.a).p.(*Iface)
			if !ok {
				m.runtimePanic("invalid memory address or nil pointer dereference (nil interface)")
			}
			d.recv = ifc
			d.meth = in.aux.(*types.Func)
		} else {
			d.fn = m.get(fr, &in.a)
		}
		fr.defers = append(fr.defers, d)
	case iRunDefers:
		for len(fr.defers) > 0 {
			m.runDefer1(fr)
		}
	case iExtract:
		fr.regs[in.dst] = m.get(fr, &in.a).p.(Tuple)[in.x]
	case iField:
		a := m.get(fr, &in.a)
		if ag, ok := a.p.(Agg); ok {
			fr.regs[in.dst] = ag[in.x]
		} else {
			m.unsupported("field of %T", a.p)
		}
	case iFieldAddr:
		switch p := m.get(fr, &in.a).p.(type) {
		case *Value:
			ag, ok := p.p.(Agg)
			if !ok {
				m.unsupported("field address of %T", p.p)
			}
			fr.regs[in.dst] = Value{p: &ag[in.x]}
		case nil:
			m.runtimePanic("invalid memory address or nil pointer dereference")
		case *SymElem:
			i := m.concTerm(p.idx)
			fr.regs[in.dst] = Value{p: &p.s[i].p.(Agg)[in.x]}
		default:
			m.unsupported("field address of %T", p)
		}
	case iIndex:
		a := m.get(fr, &in.a)
		idx := m.get(fr, &in.b)
		var s []Value
		switch x := a.p.(type) {
		case Agg:
			s = x
		default:
			s = nil
			fr.regs[in.dst] = m.strIndex(a, idx, in.t2)
			return
		}
		i, sym := m.index(idx, in.t2, len(s))
		if sym != nil {
			fr.regs[in.dst] = m.selectElem(s, sym, kindOf(in.typ))
		} else {
			fr.regs[in.dst] = s[i]
		}
	case iIndexAddr:
		a := m.get(fr, &in.a)
		idx := m.get(fr, &in.b)
		var s []Value
		switch x := a.p.(type) {
		case Slice:
			s = x
		case *Value:
			ag, ok := x.p.(Agg)
			if !ok {
				m.unsupported("index address of %T", x.p)
			}
			s = ag
		case nil:
			if in.t.k == kPtr {
				m.runtimePanic("invalid memory address or nil pointer dereference")
			}
		default:
			m.unsupported("index address of %T", a.p)
		}
		i, sym := m.index(idx, in.t2, len(s))
		if sym != nil {
			fr.regs[in.dst] = Value{p: &SymElem{s, sym}}
		} else {
			fr.regs[in.dst] = Value{p: &s[i]}
		}
	case iLookup:
		a := m.get(fr, &in.a)
		k := m.get(fr, &in.b)
		if in.t.k == kStr {
			fr.regs[in.dst] = m.strIndex(a, k, in.t2)
			return
		}
		var v Value
		ok := false
		if mv, is := a.p.(*MapV); is {
			if j := m.mapFind(mv, k); j >= 0 {
				v, ok = mv.vals[j], true
			}
		}
		if !ok {
			v = zero(in.typ)
		}
		if in.x == 1 {
			fr.regs[in.dst] = Value{p: Tuple{v, mkBool(ok)}}
		} else {
			fr.regs[in.dst] = v
		}
	case iMakeChan:
		if m.spec > 0 {
			panic(specAbort{"chan"})
		}
		n := m.conc(m.get(fr, &in.a), 64)
		if int64(n) < 0 || n > 1<<20 {
			m.runtimePanic("makechan: size out of range")
		}
		fr.regs[in.dst] = Value{p: &ChanV{cap: int(n), elem: in.typ}}
	case iRecv:
		v, ok, ready := m.chanRecv(m.get(fr, &in.a))
		if !ready {
			m.unsupported("receive that blocks (one goroutine only)")
		}
		if in.x == 1 {
			fr.regs[in.dst] = Value{p: Tuple{v, mkBool(ok)}}
		} else {
			fr.regs[in.dst] = v
		}
	case iSend:
		if !m.chanSend(m.get(fr, &in.a), m.get(fr, &in.b)) {
			m.unsupported("send that blocks (one goroutine only)")
		}
	case iSelect:
		m.selectOp(fr, in)
	case iMakeClosure:
		free := make([]Value, len(in.args))
		for i := range in.args {
			free[i] = m.get(fr, &in.args[i])
		}
		fr.regs[in.dst] = Value{p: &Closure{in.aux.(*ssa.Function), free}}
	case iMakeInterface:
		fr.regs[in.dst] = Value{p: &Iface{in.aux.(*TypeInfo), m.get(fr, &in.a)}}
	case iMakeMap:
		fr.regs[in.dst] = Value{p: &MapV{idx: map[string]int{}, kt: in.aux.(types.Type)}}
	case iMakeSlice:
		n := m.conc(m.get(fr, &in.a), 64)
		c := m.conc(m.get(fr, &in.b), 64)
		if int64(n) < 0 || int64(c) < int64(n) || n > 1<<28 {
			m.runtimePanic("makeslice: len out of range")
		}
		fr.regs[in.dst] = Value{p: makeSlice(in.typ, int(n), int(c))}
	case iMapUpdate:
		if m.spec > 0 {
			panic(specAbort{"store"})
		}
		mv, ok := m.get(fr, &in.a).p.(*MapV)
		if !ok {
			m.panicVal(Value{p: &Iface{m.P.types.get(m.P.tRuntimeErr), mkStrC("assignment to entry in nil map")}})
		}
		m.mapSet(mv, m.get(fr, &in.b), m.get(fr, &in.c))
	case iRange:
		a := m.get(fr, &in.a)
		if in.t.k == kStr {
			fr.regs[in.dst] = Value{p: &strIter{s: a}}
			return
		}
		it := &mapIter{}
		if mv, ok := a.p.(*MapV); ok {
			it.m = mv
			if m.mapNondet && mv.n > 1 {
				for i := range mv.keys {
					if mv.live[i] {
						it.left = append(it.left, i)
					}
				}
			}
		}
		fr.regs[in.dst] = Value{p: it}
	case iNext:
		if m.spec > 0 {
			panic(specAbort{"next"})
		}
		fr.regs[in.dst] = m.next(m.get(fr, &in.a))
	case iPanic:
		m.panicVal(m.get(fr, &in.a))
	case iSlice:
		fr.regs[in.dst] = m.slice(fr, in)
	case iSliceToArr:
		a := m.get(fr, &in.a)
		s, _ := a.p.(Slice)
		if len(s) < in.x {
			m.runtimePanic("cannot convert slice to array pointer")
		}
		v := &Value{p: Agg(s[:in.x:in.x])}
		fr.regs[in.dst] = Value{p: v}
	case iTypeAssert:
		fr.regs[in.dst] = m.typeAssert(in, m.get(fr, &in.a))
	default:
		m.unsupported("instruction %T %v", in.ins, in.ins)
	}
}

func makeSlice(elem types.Type, n, c int) Slice {
	s := make(Slice, c)
	switch elem.Underlying().(type) {
	case *types.Struct, *types.Array:
		for i := range s {
			s[i] = zero(elem)
		}
	}
	return s[:n]
}

// index checks bounds; it returns a concrete index or a symbolic one known to be in bounds.
func (m *Machine) index(idx Value, k tk, n int) (int, *Term) {
	if t, ok := idx.p.(*Term); ok {
		tc := m.tc
		if k.w < 64 {
			if k.signed {
				t = tc.Sext(t, 64)
			} else {
				t = tc.Zext(t, 64)
			}
		}
		if t.op == OConst {
			idx = Value{n: t.c}
		} else {
			in := tc.Ult(t, tc.BV(uint64(n), 64))
			if !m.decide(in) {
				m.runtimePanic("index out of range")
			}
			return 0, t
		}
	}
	i := int64(idx.n)
	if k.signed {
		i = sext(idx.n, k.w)
	}
	if i < 0 || i >= int64(n) {
		m.runtimePanic("index out of range [%d] with length %d", i, n)
	}
	return int(i), nil
}

// decide branches on a term, aborting speculation when undecided.
func (m *Machine) decide(t *Term) bool {
	if b, ok := m.known(t); ok {
		return b
	}
	if m.spec > 0 {
		panic(specAbort{"branch"})
	}
	return m.branch(t)
}

func (m *Machine) strIndex(s, idx Value, k tk) Value {
	n := strLen(s)
	i, sym := m.index(idx, k, n)
	if sym != nil {
		return m.selectElem(strBytes(s), sym, tk{kInt, 8, false})
	}
	return strAt(s, i)
}

// selectElem reads s[idx] for a symbolic index in bounds.
func (m *Machine) selectElem(s []Value, idx *Term, k tk) Value {
	tc := m.tc
	lo, hi := int(idx.ulo), len(s)-1
	if idx.uhi < uint64(hi) {
		hi = int(idx.uhi)
	}
	if k.k != kInt && k.k != kBool && k.k != kF64 {
		return s[m.concTerm(idx)]
	}
	type run struct {
		start int
		v     Value
	}
	var runs []run
	for i := lo; i <= hi; i++ {
		if len(runs) == 0 || runs[len(runs)-1].v != s[i] {
			runs = append(runs, run{i, s[i]})
		}
	}
	if len(runs) == 1 {
		return runs[0].v
	}
	term := func(v Value) *Term { return m.term(v, k) }
	var build func(a, b int) *Term
	build = func(a, b int) *Term {
		if a == b {
			return term(runs[a].v)
		}
		mid := (a + b + 1) / 2
		return tc.Ite(tc.Ult(idx, tc.BV(uint64(runs[mid].start), 64)), build(a, mid-1), build(mid, b))
	}
	return fromTerm(build(0, len(runs)-1))
}

func (m *Machine) load(a Value, k tk) Value {
	switch p := a.p.(type) {
	case *Value:
		if _, ok := p.p.(Agg); ok {
			return copyVal(*p)
		}
		return *p
	case *SymElem:
		return m.selectElem(p.s, p.idx, k)
	case nil:
		m.runtimePanic("invalid memory address or nil pointer dereference")
	case *ptrData:
		if len(p.s) > 0 {
			return p.s[0]
		}
	}
	m.unsupported("load through %T", a.p)
	return Value{}
}

type undo struct {
	p   *Value
	old Value
}

// storeT stores a value of type t. During speculation the store is guarded by the condition of the region and
// recorded, so that it can be undone.
func (m *Machine) storeT(a, v Value, t types.Type) {
	if m.spec > 0 && t != nil {
		p, ok := a.p.(*Value)
		if !ok {
			panic(specAbort{"store"})
		}
		if g, ok := m.fresh[p]; !ok || g != m.guard {
			m.journal = append(m.journal, undo{p, copyVal(*p)})
			v = m.iteVal(m.guard, v, *p, t)
		}
		storeInto(p, v)
		return
	}
	m.store(a, v)
}

func (m *Machine) store(a, v Value) {
	if m.spec > 0 {
		panic(specAbort{"store"})
	}
	switch p := a.p.(type) {
	case *Value:
		storeInto(p, v)
	case *SymElem:
		i := m.concTerm(p.idx)
		storeInto(&p.s[i], v)
	case nil:
		m.runtimePanic("invalid memory address or nil pointer dereference")
	default:
		m.unsupported("store through %T", a.p)
	}
}

func (m *Machine) slice(fr *frame, in *inst) Value {
	a := m.get(fr, &in.a)
	lo := 0
	if in.x&1 != 0 {
		lo = int(int64(m.conc(m.get(fr, &in.b), 64)))
	}
	hi, mx := -1, -1
	if in.x&2 != 0 {
		hi = int(int64(m.conc(m.get(fr, &in.c), 64)))
		if hi < 0 {
			m.runtimePanic("slice bounds out of range [:%d]", hi)
		}
	}
	if in.x&4 != 0 {
		mx = int(int64(m.conc(m.get(fr, &in.d), 64)))
		if mx < 0 {
			m.runtimePanic("slice bounds out of range")
		}
	}
	if in.t.k == kStr {
		n := strLen(a)
		if hi < 0 {
			hi = n
		}
		if lo < 0 || hi > n || lo > hi {
			m.runtimePanic("slice bounds out of range [%d:%d] with length %d", lo, hi, n)
		}
		return strSub(a, lo, hi)
	}
	var s []Value
	switch x := a.p.(type) {
	case Slice:
		s = x
	case *Value:
		ag, ok := x.p.(Agg)
		if !ok {
			m.unsupported("slice of *%T", x.p)
		}
		s = ag
	case nil:
		if in.t.k == kPtr {
			m.runtimePanic("invalid memory address or nil pointer dereference")
		}
		if lo != 0 || hi > 0 || mx > 0 {
			m.runtimePanic("slice bounds out of range")
		}
		return Value{}
	default:
		m.unsupported("slice of %T", a.p)
	}
	if hi < 0 {
		hi = len(s)
	}
	if mx < 0 {
		mx = cap(s)
	}
	if lo < 0 || hi > cap(s) || lo > hi || mx > cap(s) || hi > mx {
		m.runtimePanic("slice bounds out of range [%d:%d] with capacity %d", lo, hi, cap(s))
	}
	return Value{p: Slice(s[lo:hi:mx])}
}

func (m *Machine) typeAssert(in *inst, v Value) Value {
	ti := in.aux.(*TypeInfo)
	ifc, _ := v.p.(*Iface)
	if _, isI := in.typ.Underlying().(*types.Interface); isI {
		ok := ifc != nil && m.implements(ifc.t, ti)
		if in.x == 1 {
			if ok {
				return Value{p: Tuple{v, mkBool(true)}}
			}
			return Value{p: Tuple{Value{}, Value{}}}
		}
		if !ok {
			m.runtimePanic("interface conversion: missing method (%v to %v)", dynType(ifc), in.typ)
		}
		return v
	}
	ok := ifc != nil && ifc.t == ti
	if in.x == 1 {
		if ok {
			return Value{p: Tuple{ifc.v, mkBool(true)}}
		}
		return Value{p: Tuple{zero(in.typ), Value{}}}
	}
	if !ok {
		m.runtimePanic("interface conversion: interface is %v, not %v", dynType(ifc), in.typ)
	}
	return ifc.v
}

func dynType(i *Iface) string {
	if i == nil {
		return "nil"
	}
	return i.t.t.String()
}

type implKey struct{ a, b *TypeInfo }

func (m *Machine) implements(t, i *TypeInfo) bool {
	k := implKey{t, i}
	if b, ok := m.impl[k]; ok {
		return b
	}
	b := types.Implements(t.t, i.t.Underlying().(*types.Interface))
	m.impl[k] = b
	return b
}

func (m *Machine) next(v Value) Value {
	switch it := v.p.(type) {
	case *strIter:
		n := strLen(it.s)
		if it.pos >= n {
			return Value{p: Tuple{Value{}, Value{}, Value{}}}
		}
		k := it.pos
		r, sz := m.decodeRune(it.s, k)
		it.pos += sz
		return Value{p: Tuple{mkBool(true), mkInt(k), r}}
	case *mapIter:
		if it.m == nil {
			return Value{p: Tuple{Value{}, Value{}, Value{}}}
		}
		if it.left != nil {
			for len(it.left) > 0 {
				j := 0
				if len(it.left) > 1 {
					j = m.choose("maporder", len(it.left))
				}
				i := it.left[j]
				it.left = append(append([]int{}, it.left[:j]...), it.left[j+1:]...)
				if len(it.left) == 0 {
					it.left = []int{}
				}
				if it.m.live[i] {
					return Value{p: Tuple{mkBool(true), it.m.keys[i], it.m.vals[i]}}
				}
			}
			return Value{p: Tuple{Value{}, Value{}, Value{}}}
		}
		for it.pos < len(it.m.keys) {
			i := it.pos
			it.pos++
			if it.m.live[i] {
				return Value{p: Tuple{mkBool(true), it.m.keys[i], it.m.vals[i]}}
			}
		}
		return Value{p: Tuple{Value{}, Value{}, Value{}}}
	}
	m.unsupported("next of %T", v.p)
	return Value{}
}
