package sx

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// region describes an acyclic single-entry region from an If block to its post-dominator that can be
// executed speculatively and merged with if-then-else terms.
type region struct {
	ok    bool
	join  int // -1: function exit
	order []int
	in    map[int]bool
}

const (
	maxRegionBlocks = 24
	maxRegionInstrs = 120
)

// postDom computes immediate post-dominators (exit = len(blocks)); -1 when the exit is unreachable.
func (f *Func) postDom() []int {
	f.onceIP.Do(func() {
		n := len(f.blocks)
		exit := n
		preds := make([][]int, n+1) // reverse graph successors
		succ := func(i int) []int {
			if len(f.blocks[i].succs) == 0 {
				return []int{exit}
			}
			return f.blocks[i].succs
		}
		for i := 0; i < n; i++ {
			for _, s := range succ(i) {
				preds[s] = append(preds[s], i)
			}
		}
		// reverse post-order on the reverse graph
		seen := make([]bool, n+1)
		var order []int
		var dfs func(int)
		dfs = func(x int) {
			seen[x] = true
			for _, p := range preds[x] {
				if !seen[p] {
					dfs(p)
				}
			}
			order = append(order, x)
		}
		dfs(exit)
		num := make([]int, n+1)
		for i := range num {
			num[i] = -1
		}
		for i, x := range order {
			num[x] = i
		}
		id := make([]int, n+1)
		for i := range id {
			id[i] = -1
		}
		id[exit] = exit
		for changed := true; changed; {
			changed = false
			for k := len(order) - 2; k >= 0; k-- {
				x := order[k]
				nw := -1
				for _, s := range succ(x) {
					if num[s] < 0 || id[s] < 0 {
						continue
					}
					if nw < 0 {
						nw = s
						continue
					}
					a, b := s, nw
					for a != b {
						for num[a] < num[b] {
							a = id[a]
						}
						for num[b] < num[a] {
							b = id[b]
						}
					}
					nw = a
				}
				if nw != id[x] {
					id[x] = nw
					changed = true
				}
			}
		}
		f.ipdom = id
	})
	return f.ipdom
}

func (m *Machine) regionOf(f *Func, b int) *region {
	bl := f.blocks[b]
	if r := bl.reg.Load(); r != nil {
		return r
	}
	r := m.computeRegion(f, b)
	bl.reg.CompareAndSwap(nil, r)
	return bl.reg.Load()
}

func (m *Machine) computeRegion(f *Func, b int) *region {
	r := &region{in: map[int]bool{}}
	ip := f.postDom()[b]
	if ip < 0 {
		return r
	}
	r.join = ip
	if ip == len(f.blocks) {
		r.join = -1
	}
	// collect blocks reachable from b before the join; reject cycles
	state := map[int]int{}
	var post []int
	okk := true
	instrs := 0
	var dfs func(int)
	dfs = func(x int) {
		if !okk || x == r.join {
			return
		}
		switch state[x] {
		case 1:
			okk = false
			return
		case 2:
			return
		}
		state[x] = 1
		if x != b {
			for i := range f.blocks[x].ins {
				in := &f.blocks[x].ins[i]
				if !pureOp(in) || (in.op == iReturn && r.join >= 0) {
					okk = false
					return
				}
				instrs++
			}
		}
		if len(state) > maxRegionBlocks || instrs > maxRegionInstrs {
			okk = false
			return
		}
		for _, s := range f.blocks[x].succs {
			if s == b {
				okk = false
				return
			}
			dfs(s)
		}
		state[x] = 2
		post = append(post, x)
	}
	dfs(b)
	if !okk {
		return r
	}
	for i := len(post) - 1; i >= 0; i-- {
		r.order = append(r.order, post[i])
		r.in[post[i]] = true
	}
	// every region block other than b must be entered from the region only
	for _, x := range r.order[1:] {
		for _, p := range f.blocks[x].preds {
			if !r.in[p] {
				return r
			}
		}
	}
	r.ok = true
	return r
}

func pureOp(in *inst) bool {
	switch in.op {
	case iNop, iAlloc, iStore, iUnOp, iField, iFieldAddr, iExtract, iIndex, iIndexAddr, iCopy, iLoad, iIf, iJump, iReturn, iMakeInterface:
		return true
	case iBin:
		return true
	case iConvert:
		return (in.t.k == kInt && in.t2.k == kInt) || (in.t.k == in.t2.k)
	case iCall:
		c := in.aux.(*ssa.CallCommon)
		switch f := c.Value.(type) {
		case *ssa.Function:
			return true
		case *ssa.Builtin:
			return f.Name() == "len" || f.Name() == "cap" || f.Name() == "min" || f.Name() == "max"
		}
	}
	return false
}

// tryMerge executes the region after block b under guards; on success the phis of the join block hold the
// merged values (or, for a join at the exit, the merged result is returned with block -1).
func (m *Machine) tryMerge(fr *frame, b int, cond *Term) (next int, ret Value, done bool) {
	if m.noMerge || len(cond.name) > 0 && cond.op == OVar && cond.s == SBool && cond.name[0] == '?' {
		return 0, Value{}, false
	}
	r := m.regionOf(fr.f, b)
	if !r.ok {
		return 0, Value{}, false
	}
	bl := fr.f.blocks[b]
	if m.mergeFail[bl] >= 3 {
		return 0, Value{}, false
	}
	depth, nA, sp, ar, top, spec := m.depth, len(m.arenas), m.sp, m.arena, m.top, m.spec
	stepsBefore := m.steps
	guard, jn := m.guard, len(m.journal)
	okk := func() (ok bool) {
		defer func() {
			if ok {
				return
			}
			x := recover()
			if _, is := x.(specAbort); is {
				m.depth, m.sp, m.arena, m.top = depth, sp, ar, top
				m.arenas = m.arenas[:nA]
				for i := len(m.journal) - 1; i >= jn; i-- {
					storeInto(m.journal[i].p, m.journal[i].old)
				}
				m.journal = m.journal[:jn]
				return
			}
			panic(x)
		}()
		m.spec++
		next, ret = m.merge(fr, r, b, cond)
		return true
	}()
	m.spec = spec
	m.guard = guard
	if spec == 0 {
		m.journal = m.journal[:0]
		clear(m.fresh)
	}
	fr.cur = &bl.ins[len(bl.ins)-1]
	if !okk {
		m.steps = stepsBefore
		m.mergeFail[bl]++
		return 0, Value{}, false
	}
	m.merges++
	return next, ret, true
}

type edge struct {
	from int
	cond *Term
}

func (m *Machine) merge(fr *frame, r *region, b int, cond *Term) (int, Value) {
	tc := m.tc
	f := fr.f
	incoming := map[int][]edge{}
	add := func(from, to int, c *Term) {
		if c == tc.False {
			return
		}
		incoming[to] = append(incoming[to], edge{from, c})
	}
	bl := f.blocks[b]
	add(b, bl.succs[0], cond)
	add(b, bl.succs[1], tc.Not(cond))
	type retv struct {
		c *Term
		v Value
	}
	var rets []retv
	outer := m.guard
	for _, x := range r.order[1:] {
		inc := incoming[x]
		if len(inc) == 0 {
			continue
		}
		g := inc[0].cond
		for _, e := range inc[1:] {
			g = tc.Or(g, e.cond)
		}
		m.guard = g
		if outer != nil {
			m.guard = tc.And(outer, g)
		}
		m.mergePhis(fr, x, inc)
		xb := f.blocks[x]
		m.steps += int64(len(xb.ins))
		for ii := range xb.ins {
			in := &xb.ins[ii]
			fr.cur = in
			switch in.op {
			case iJump:
				add(x, xb.succs[0], g)
			case iIf:
				c := m.get(fr, &in.a)
				if t, ok := c.p.(*Term); ok {
					if kb, known := m.known(t); known {
						t = tc.Bool(kb)
					}
					add(x, xb.succs[0], tc.And(g, t))
					add(x, xb.succs[1], tc.And(g, tc.Not(t)))
				} else if c.n != 0 {
					add(x, xb.succs[0], g)
				} else {
					add(x, xb.succs[1], g)
				}
			case iReturn:
				var v Value
				switch len(in.args) {
				case 0:
				case 1:
					v = m.get(fr, &in.args[0])
				default:
					t := make(Tuple, len(in.args))
					for i := range in.args {
						t[i] = m.get(fr, &in.args[i])
					}
					v.p = t
				}
				rets = append(rets, retv{g, v})
			case iBin:
				if op := token.Token(in.x); in.t.k == kF64 && op == token.QUO {
					if y := m.get(fr, &in.b); y.p != nil {
						panic(specAbort{"division"})
					}
				}
				m.exec(fr, in)
			default:
				m.exec(fr, in)
			}
		}
	}
	if r.join < 0 {
		if len(rets) == 0 {
			panic(specAbort{"no return"})
		}
		res := rets[len(rets)-1].v
		rt := f.fn.Signature.Results()
		var typ types.Type = rt
		if rt.Len() == 1 {
			typ = rt.At(0).Type()
		}
		if rt.Len() == 0 {
			return -1, Value{}
		}
		for i := len(rets) - 2; i >= 0; i-- {
			res = m.iteVal(rets[i].c, rets[i].v, res, typ)
		}
		return -1, res
	}
	m.mergePhis(fr, r.join, incoming[r.join])
	return r.join, Value{}
}

func (m *Machine) mergePhis(fr *frame, x int, inc []edge) {
	bl := fr.f.blocks[x]
	if len(bl.phis) == 0 {
		return
	}
	tmp := make([]Value, len(bl.phis))
	for i := range bl.phis {
		p := &bl.phis[i]
		val := func(e edge) Value {
			for k, pr := range bl.preds {
				if pr == e.from {
					return m.get(fr, &p.edges[k])
				}
			}
			panic("phi edge")
		}
		v := val(inc[len(inc)-1])
		for j := len(inc) - 2; j >= 0; j-- {
			v = m.iteVal(inc[j].cond, val(inc[j]), v, p.typ)
		}
		tmp[i] = v
	}
	for i := range bl.phis {
		fr.regs[bl.phis[i].dst] = tmp[i]
	}
}

// iteVal merges two values; it aborts the speculation when they cannot be expressed as one.
func (m *Machine) iteVal(c *Term, a, b Value, t types.Type) Value {
	k := kindOf(t)
	switch k.k {
	case kBool, kInt, kF64:
		if a.p == nil && b.p == nil && a.n == b.n {
			return a
		}
		return fromTerm(m.tc.Ite(c, m.term(a, k), m.term(b, k)))
	case kStr:
		x, y := a, b
		if xs, ok := concStr(x); ok {
			if ys, ok := concStr(y); ok && xs == ys {
				return a
			}
		}
		if strLen(x) != strLen(y) {
			panic(specAbort{"string lengths"})
		}
		xb, yb := strBytes(x), strBytes(y)
		out := make([]Value, len(xb))
		k8 := tk{kInt, 8, false}
		for i := range xb {
			out[i] = fromTerm(m.tc.Ite(c, m.term(xb[i], k8), m.term(yb[i], k8)))
		}
		return mkStr(out)
	case kStruct:
		st := t.Underlying().(*types.Struct)
		x, ok1 := a.p.(Agg)
		y, ok2 := b.p.(Agg)
		if ok1 && ok2 {
			out := make(Agg, len(x))
			for i := range x {
				out[i] = m.iteVal(c, x[i], y[i], st.Field(i).Type())
			}
			return Value{p: out}
		}
	case kArray:
		at := t.Underlying().(*types.Array)
		x, ok1 := a.p.(Agg)
		y, ok2 := b.p.(Agg)
		if ok1 && ok2 {
			out := make(Agg, len(x))
			for i := range x {
				out[i] = m.iteVal(c, x[i], y[i], at.Elem())
			}
			return Value{p: out}
		}
	case kSlice:
		x, ok1 := a.p.(Slice)
		y, ok2 := b.p.(Slice)
		if a.p == nil && b.p == nil {
			return a
		}
		if ok1 && ok2 && len(x) == len(y) && cap(x) == cap(y) && (cap(x) == 0 || &x[:1][0] == &y[:1][0]) {
			return a
		}
		panic(specAbort{"slices"})
	case kIface:
		if a.p == nil && b.p == nil {
			return a
		}
		x, ok1 := a.p.(*Iface)
		y, ok2 := b.p.(*Iface)
		if ok1 && ok2 {
			if x == y {
				return a
			}
			if x.t == y.t {
				return Value{p: &Iface{x.t, m.iteVal(c, x.v, y.v, x.t.t)}}
			}
		}
		panic(specAbort{"interfaces"})
	case kFunc, kMap, kPtr, kChan:
		if k.k == kPtr && ptrEq(a, b) {
			return a
		}
		if a.p == nil && b.p == nil {
			return a
		}
		panic(specAbort{"references"})
	}
	if tp, ok := t.(*types.Tuple); ok {
		x, y := a.p.(Tuple), b.p.(Tuple)
		out := make(Tuple, len(x))
		for i := range x {
			out[i] = m.iteVal(c, x[i], y[i], tp.At(i).Type())
		}
		return Value{p: out}
	}
	panic(specAbort{"kind"})
}
