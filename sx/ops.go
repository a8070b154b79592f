package sx

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// fromTerm wraps a term, folding constants.
func fromTerm(t *Term) Value {
	if t.op == OConst {
		switch t.s {
		case SReal, SInt:
			f, _ := t.r.Float64()
			return mkF64(f)
		default:
			return Value{n: t.c}
		}
	}
	return Value{p: t}
}

// term converts a scalar value to a term.
func (m *Machine) term(v Value, k tk) *Term {
	if t, ok := v.p.(*Term); ok {
		return t
	}
	switch k.k {
	case kBool:
		return m.tc.Bool(v.n != 0)
	case kInt:
		return m.tc.BV(v.n, k.w)
	case kF64:
		f := v.f64()
		if math.IsNaN(f) || math.IsInf(f, 0) {
			m.unsupported("non-finite float in symbolic context")
		}
		return m.tc.RealF(f)
	}
	m.unsupported("term of kind %d (%T)", k.k, v.p)
	return nil
}

func (m *Machine) binop(op token.Token, k, k2 tk, typ types.Type, a, b Value) Value {
	switch op {
	case token.EQL:
		if k.k == kStruct || k.k == kArray {
			return m.eqTyped(a, b, typ)
		}
		return m.eq(a, b, k)
	case token.NEQ:
		var r Value
		if k.k == kStruct || k.k == kArray {
			r = m.eqTyped(a, b, typ)
		} else {
			r = m.eq(a, b, k)
		}
		if t, ok := r.p.(*Term); ok {
			return fromTerm(m.tc.Not(t))
		}
		return mkBool(r.n == 0)
	}
	switch k.k {
	case kInt:
		return m.intOp(op, k, k2, a, b)
	case kF64:
		return m.floatOp(op, a, b)
	case kF32:
		if a.p != nil || b.p != nil {
			m.unsupported("symbolic float32")
		}
		x, y := math.Float32frombits(uint32(a.n)), math.Float32frombits(uint32(b.n))
		f := func(f float32) Value { return Value{n: uint64(math.Float32bits(f))} }
		switch op {
		case token.ADD:
			return f(x + y)
		case token.SUB:
			return f(x - y)
		case token.MUL:
			return f(x * y)
		case token.QUO:
			return f(x / y)
		case token.LSS:
			return mkBool(x < y)
		case token.LEQ:
			return mkBool(x <= y)
		case token.GTR:
			return mkBool(x > y)
		case token.GEQ:
			return mkBool(x >= y)
		}
	case kStr:
		switch op {
		case token.ADD:
			return strCat(a, b)
		case token.LSS:
			return m.strLess(a, b, false)
		case token.LEQ:
			return m.strLess(a, b, true)
		case token.GTR:
			return m.strLess(b, a, false)
		case token.GEQ:
			return m.strLess(b, a, true)
		}
	case kBool:
		tc := m.tc
		x, y := m.term(a, k), m.term(b, k)
		switch op {
		case token.AND, token.LAND:
			return fromTerm(tc.And(x, y))
		case token.OR, token.LOR:
			return fromTerm(tc.Or(x, y))
		}
	}
	m.unsupported("binop %v on kind %d", op, k.k)
	return Value{}
}

func (m *Machine) intOp(op token.Token, k, k2 tk, a, b Value) Value {
	w := k.w
	mk := mask(w)
	if a.p == nil && b.p == nil {
		x, y := a.n, b.n
		sx, sy := sext(x, w), sext(y, w)
		switch op {
		case token.ADD:
			return Value{n: (x + y) & mk}
		case token.SUB:
			return Value{n: (x - y) & mk}
		case token.MUL:
			return Value{n: (x * y) & mk}
		case token.QUO, token.REM:
			if y == 0 {
				m.runtimePanic("integer divide by zero")
			}
			if k.signed {
				if sy == -1 {
					if op == token.QUO {
						return Value{n: uint64(-sx) & mk}
					}
					return Value{}
				}
				if op == token.QUO {
					return Value{n: uint64(sx/sy) & mk}
				}
				return Value{n: uint64(sx%sy) & mk}
			}
			if op == token.QUO {
				return Value{n: x / y}
			}
			return Value{n: x % y}
		case token.AND:
			return Value{n: x & y}
		case token.OR:
			return Value{n: x | y}
		case token.XOR:
			return Value{n: x ^ y}
		case token.AND_NOT:
			return Value{n: x &^ y}
		case token.SHL, token.SHR:
			if k2.signed && sext(y, k2.w) < 0 {
				m.runtimePanic("negative shift amount")
			}
			if op == token.SHL {
				if y >= 64 {
					return Value{}
				}
				return Value{n: (x << y) & mk}
			}
			if k.signed {
				if y > 63 {
					y = 63
				}
				return Value{n: uint64(sx>>y) & mk}
			}
			if y >= 64 {
				return Value{}
			}
			return Value{n: x >> y}
		case token.LSS:
			if k.signed {
				return mkBool(sx < sy)
			}
			return mkBool(x < y)
		case token.LEQ:
			if k.signed {
				return mkBool(sx <= sy)
			}
			return mkBool(x <= y)
		case token.GTR:
			if k.signed {
				return mkBool(sx > sy)
			}
			return mkBool(x > y)
		case token.GEQ:
			if k.signed {
				return mkBool(sx >= sy)
			}
			return mkBool(x >= y)
		}
		m.unsupported("int op %v", op)
	}
	tc := m.tc
	x := m.term(a, k)
	if op == token.SHL || op == token.SHR {
		y := m.term(b, k2)
		if k2.signed && y.uhi > mask(y.s)>>1 {
			if m.decide(tc.Slt(y, tc.BV(0, y.s))) {
				m.runtimePanic("negative shift amount")
			}
		}
		switch {
		case y.s < w:
			y = tc.Zext(y, w)
		case y.s > w:
			y = tc.Ite(tc.Ult(y, tc.BV(uint64(w), y.s)), tc.Trunc(y, w), tc.BV(uint64(w), w))
		}
		if op == token.SHL {
			return fromTerm(tc.bv2(OBvShl, x, y))
		}
		if k.signed {
			return fromTerm(tc.bv2(OBvAshr, x, y))
		}
		return fromTerm(tc.bv2(OBvLshr, x, y))
	}
	y := m.term(b, k)
	switch op {
	case token.ADD:
		return fromTerm(tc.bv2(OBvAdd, x, y))
	case token.SUB:
		return fromTerm(tc.bv2(OBvSub, x, y))
	case token.MUL:
		return fromTerm(tc.bv2(OBvMul, x, y))
	case token.QUO, token.REM:
		if m.decide(tc.Eq(y, tc.BV(0, w))) {
			m.runtimePanic("integer divide by zero")
		}
		if op == token.QUO {
			if k.signed {
				return fromTerm(tc.bv2(OBvSDiv, x, y))
			}
			return fromTerm(tc.bv2(OBvUDiv, x, y))
		}
		if k.signed {
			return fromTerm(tc.bv2(OBvSRem, x, y))
		}
		return fromTerm(tc.bv2(OBvURem, x, y))
	case token.AND:
		return fromTerm(tc.bv2(OBvAnd, x, y))
	case token.OR:
		return fromTerm(tc.bv2(OBvOr, x, y))
	case token.XOR:
		return fromTerm(tc.bv2(OBvXor, x, y))
	case token.AND_NOT:
		return fromTerm(tc.bv2(OBvAnd, x, tc.BvNot(y)))
	}
	lt, le := tc.Ult, tc.Ule
	if k.signed {
		lt, le = tc.Slt, tc.Sle
	}
	switch op {
	case token.LSS:
		return fromTerm(lt(x, y))
	case token.LEQ:
		return fromTerm(le(x, y))
	case token.GTR:
		return fromTerm(lt(y, x))
	case token.GEQ:
		return fromTerm(le(y, x))
	}
	m.unsupported("int op %v", op)
	return Value{}
}

func (m *Machine) floatOp(op token.Token, a, b Value) Value {
	if a.p == nil && b.p == nil {
		x, y := a.f64(), b.f64()
		switch op {
		case token.ADD:
			return mkF64(x + y)
		case token.SUB:
			return mkF64(x - y)
		case token.MUL:
			return mkF64(x * y)
		case token.QUO:
			return mkF64(x / y)
		case token.LSS:
			return mkBool(x < y)
		case token.LEQ:
			return mkBool(x <= y)
		case token.GTR:
			return mkBool(x > y)
		case token.GEQ:
			return mkBool(x >= y)
		}
		m.unsupported("float op %v", op)
	}
	tc := m.tc
	kf := tk{kF64, 64, true}
	if op == token.LSS || op == token.LEQ || op == token.GTR || op == token.GEQ {
		// comparisons with infinities
		if c, inf := infCmp(op, a, b); inf {
			return mkBool(c)
		}
	}
	x, y := m.term(a, kf), m.term(b, kf)
	switch op {
	case token.LSS:
		return fromTerm(tc.RLt(x, y))
	case token.LEQ:
		return fromTerm(tc.RLe(x, y))
	case token.GTR:
		return fromTerm(tc.RLt(y, x))
	case token.GEQ:
		return fromTerm(tc.RLe(y, x))
	case token.ADD:
		return fromTerm(m.rounded(tc.realRaw(ORAdd, x, y)))
	case token.SUB:
		return fromTerm(m.rounded(tc.realRaw(ORSub, x, y)))
	case token.MUL:
		return fromTerm(m.rounded(tc.realRaw(ORMul, x, y)))
	case token.QUO:
		if y.lo <= 0 && y.hi >= 0 {
			if m.decide(tc.Eq(y, tc.Real(ratZero))) {
				m.unsupported("float division by a symbolic zero")
			}
		}
		return fromTerm(m.rounded(tc.realRaw(ORDiv, x, y)))
	}
	m.unsupported("float op %v", op)
	return Value{}
}

func infCmp(op token.Token, a, b Value) (bool, bool) {
	cmp := func(sgnA int) (bool, bool) {
		switch op {
		case token.LSS, token.LEQ:
			return sgnA < 0, true
		}
		return sgnA > 0, true
	}
	if a.p == nil {
		f := a.f64()
		if math.IsNaN(f) {
			return false, true
		}
		if math.IsInf(f, 0) {
			if f > 0 {
				return cmp(1)
			}
			return cmp(-1)
		}
	}
	if b.p == nil {
		f := b.f64()
		if math.IsNaN(f) {
			return false, true
		}
		if math.IsInf(f, 0) {
			if f > 0 {
				return cmp(-1)
			}
			return cmp(1)
		}
	}
	return false, false
}

// rounded models the rounding of an exact real result to float64.
func (m *Machine) rounded(t *Term) *Term {
	if t.op == OConst {
		f, _ := t.r.Float64()
		return m.tc.RealF(f)
	}
	if t.op == OVar || t.op == OIte {
		return t
	}
	mag := math.Max(math.Abs(t.lo), math.Abs(t.hi))
	if t.frac >= 0 && t.frac < 60 && mag*math.Pow(2, float64(t.frac)) <= 1<<53 {
		return t
	}
	if r, ok := m.rmemo[t]; ok {
		return r
	}
	if math.IsInf(mag, 0) {
		m.unsupported("unbounded float operation")
	}
	if mag == 0 {
		return t
	}
	eps := math.Ldexp(mag, -53)
	tc := m.tc
	e := tc.Var(fmt.Sprintf("r!%d<%x", m.rcount, math.Float64bits(eps)), SReal)
	m.rcount++
	e.lo, e.hi, e.frac, e.grid = -eps, eps, -1, -1
	m.newVar(e)
	m.assumeRaw(tc.RLe0(tc.RealF(-eps), e))
	m.assumeRaw(tc.RLe0(e, tc.RealF(eps)))
	r := tc.realRaw(ORAdd, t, e)
	r.lo, r.hi, r.frac = dn(t.lo-eps), up(t.hi+eps), -1
	m.rmemo[t] = r
	return r
}

// RLe0 builds a<=b without interval folding (used for the axioms that justify the intervals).
func (tc *TC) RLe0(a, b *Term) *Term {
	return tc.mk(ORLe, SBool, a, b, nil, 0, "")
}

func (m *Machine) unop(op token.Token, k tk, a Value) Value {
	tc := m.tc
	switch op {
	case token.NOT:
		if t, ok := a.p.(*Term); ok {
			return fromTerm(tc.Not(t))
		}
		return mkBool(a.n == 0)
	case token.SUB:
		switch k.k {
		case kInt:
			if t, ok := a.p.(*Term); ok {
				return fromTerm(tc.bv2(OBvSub, tc.BV(0, k.w), t))
			}
			return Value{n: -a.n & mask(k.w)}
		case kF64:
			if t, ok := a.p.(*Term); ok {
				return fromTerm(tc.realRaw(ORSub, tc.Real(ratZero), t))
			}
			return mkF64(-a.f64())
		case kF32:
			return Value{n: uint64(math.Float32bits(-math.Float32frombits(uint32(a.n))))}
		}
	case token.XOR:
		if t, ok := a.p.(*Term); ok {
			return fromTerm(tc.BvNot(t))
		}
		return Value{n: ^a.n & mask(k.w)}
	}
	m.unsupported("unop %v", op)
	return Value{}
}

func (m *Machine) strLess(a, b Value, orEq bool) Value {
	if x, ok := concStr(a); ok {
		if y, ok := concStr(b); ok {
			if orEq {
				return mkBool(x <= y)
			}
			return mkBool(x < y)
		}
	}
	tc := m.tc
	x, y := strBytes(a), strBytes(b)
	k8 := tk{kInt, 8, false}
	var res *Term
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	if orEq {
		res = tc.Bool(len(x) <= len(y))
	} else {
		res = tc.Bool(len(x) < len(y))
	}
	for i := n - 1; i >= 0; i-- {
		p, q := m.term(x[i], k8), m.term(y[i], k8)
		res = tc.Ite(tc.Ult(p, q), tc.True, tc.Ite(tc.Eq(p, q), res, tc.False))
	}
	return fromTerm(res)
}

func (m *Machine) strEq(a, b Value) *Term {
	if x, ok := concStr(a); ok {
		if y, ok := concStr(b); ok {
			return m.tc.Bool(x == y)
		}
	}
	x, y := strBytes(a), strBytes(b)
	if len(x) != len(y) {
		return m.tc.False
	}
	k8 := tk{kInt, 8, false}
	r := m.tc.True
	for i := range x {
		r = m.tc.And(r, m.tc.Eq(m.term(x[i], k8), m.term(y[i], k8)))
		if r == m.tc.False {
			break
		}
	}
	return r
}

// eq compares two values of a static kind.
func (m *Machine) eq(a, b Value, k tk) Value {
	switch k.k {
	case kBool, kInt:
		if a.p == nil && b.p == nil {
			return mkBool(a.n == b.n)
		}
		return fromTerm(m.tc.Eq(m.term(a, k), m.term(b, k)))
	case kF64:
		if a.p == nil && b.p == nil {
			return mkBool(a.f64() == b.f64())
		}
		if a.p == nil && (math.IsInf(a.f64(), 0) || math.IsNaN(a.f64())) || b.p == nil && (math.IsInf(b.f64(), 0) || math.IsNaN(b.f64())) {
			return mkBool(false)
		}
		return fromTerm(m.tc.Eq(m.term(a, k), m.term(b, k)))
	case kF32:
		return mkBool(math.Float32frombits(uint32(a.n)) == math.Float32frombits(uint32(b.n)))
	case kStr:
		return fromTerm(m.strEq(a, b))
	case kSlice, kMap, kFunc: // comparison with nil
		return mkBool(a.p == nil && b.p == nil)
	case kPtr, kChan:
		return mkBool(ptrEq(a, b))
	case kIface:
		x, _ := a.p.(*Iface)
		y, _ := b.p.(*Iface)
		if x == nil || y == nil {
			return mkBool(x == nil && y == nil)
		}
		if x == y {
			return mkBool(true)
		}
		if x.t != y.t {
			return mkBool(false)
		}
		return m.eqTyped(x.v, y.v, x.t.t)
	}
	if x, ok := a.p.(Agg); ok {
		_ = x
		m.unsupported("aggregate comparison without type")
	}
	m.unsupported("comparison of kind %d", k.k)
	return Value{}
}

func ptrEq(a, b Value) bool {
	switch x := a.p.(type) {
	case nil:
		return b.p == nil
	case *Value:
		y, ok := b.p.(*Value)
		return ok && x == y
	case *RType:
		y, ok := b.p.(*RType)
		return ok && x == y
	}
	return a.p == b.p
}

func (m *Machine) eqTyped(a, b Value, t types.Type) Value {
	k := kindOf(t)
	switch k.k {
	case kStruct:
		if isReflectValue(t) {
			return mkBool(a.p == b.p)
		}
		st := t.Underlying().(*types.Struct)
		x, y := a.p.(Agg), b.p.(Agg)
		r := m.tc.True
		for i := range x {
			r = m.tc.And(r, m.term(m.eqTyped(x[i], y[i], st.Field(i).Type()), tk{kBool, 0, false}))
		}
		return fromTerm(r)
	case kArray:
		at := t.Underlying().(*types.Array)
		x, y := a.p.(Agg), b.p.(Agg)
		r := m.tc.True
		for i := range x {
			r = m.tc.And(r, m.term(m.eqTyped(x[i], y[i], at.Elem()), tk{kBool, 0, false}))
		}
		return fromTerm(r)
	case kSlice, kMap, kFunc:
		m.runtimePanic("comparing uncomparable type %v", t)
	}
	return m.eq(a, b, k)
}

func (m *Machine) decodeRune(s Value, pos int) (Value, int) {
	if c, ok := s.p.(string); ok {
		r, n := utf8.DecodeRuneInString(c[pos:])
		return Value{n: uint64(uint32(r))}, n
	}
	b := strBytes(s)[pos:]
	if b[0].p == nil && b[0].n < 0x80 {
		return Value{n: b[0].n}, 1
	}
	if t, ok := b[0].p.(*Term); ok {
		if m.decide(m.tc.Ult(t, m.tc.BV(0x80, 8))) {
			return fromTerm(m.tc.Zext(t, 32)), 1
		}
	}
	n := len(b)
	if n > 4 {
		n = 4
	}
	fn := m.stdFunc("unicode/utf8", "DecodeRuneInString")
	r := m.callFn(fn, []Value{mkStr(b[:n])}, nil, nil).p.(Tuple)
	return r[0], int(m.conc(r[1], 64))
}

func (m *Machine) stdFunc(pkg, name string) *ssa.Function {
	p := m.P.pkgs[pkg]
	if p == nil {
		m.unsupported("package %s not loaded", pkg)
	}
	return p.Func(name)
}

// encodeRune appends the UTF-8 form of r.
func (m *Machine) encodeRune(out []Value, r Value) []Value {
	if t, ok := r.p.(*Term); ok {
		if m.decide(m.tc.Ult(t, m.tc.BV(0x80, t.s))) {
			return append(out, fromTerm(m.tc.Trunc(t, 8)))
		}
		fn := m.stdFunc("unicode/utf8", "AppendRune")
		res := m.callFn(fn, []Value{{}, r}, nil, nil)
		return append(out, res.p.(Slice)...)
	}
	var buf [4]byte
	n := utf8.EncodeRune(buf[:], rune(int32(uint32(r.n))))
	for _, c := range buf[:n] {
		out = append(out, Value{n: uint64(c)})
	}
	return out
}

func (m *Machine) convert(from, to tk, ft, tt types.Type, v Value) Value {
	tc := m.tc
	switch {
	case from.k == kInt && to.k == kInt:
		if t, ok := v.p.(*Term); ok {
			switch {
			case to.w == from.w:
				return v
			case to.w < from.w:
				return fromTerm(tc.Trunc(t, to.w))
			case from.signed:
				return fromTerm(tc.Sext(t, to.w))
			default:
				return fromTerm(tc.Zext(t, to.w))
			}
		}
		if from.signed {
			return Value{n: uint64(sext(v.n, from.w)) & mask(to.w)}
		}
		return Value{n: v.n & mask(to.w)}
	case from.k == kInt && (to.k == kF64 || to.k == kF32):
		n := v.n
		if t, ok := v.p.(*Term); ok {
			if to.k == kF64 && !(from.signed && t.uhi > mask(from.w)>>1) {
				if r := m.bvToReal(t); r != nil {
					return fromTerm(r)
				}
			}
			n = m.concTerm(t)
		}
		var f float64
		if from.signed {
			f = float64(sext(n, from.w))
		} else {
			f = float64(n)
		}
		if to.k == kF32 {
			if from.signed {
				return Value{n: uint64(math.Float32bits(float32(sext(n, from.w))))}
			}
			return Value{n: uint64(math.Float32bits(float32(n)))}
		}
		return mkF64(f)
	case from.k == kF64 && to.k == kF64:
		return v
	case from.k == kF64 && to.k == kF32:
		if v.p != nil {
			m.unsupported("symbolic float64 to float32")
		}
		return Value{n: uint64(math.Float32bits(float32(v.f64())))}
	case from.k == kF32 && to.k == kF64:
		return mkF64(float64(math.Float32frombits(uint32(v.n))))
	case from.k == kF32 && to.k == kF32:
		return v
	case (from.k == kF64 || from.k == kF32) && to.k == kInt:
		if t := v.sym(); t != nil {
			v = mkF64(m.integral("Trunc", t))
		}
		f := v.f64()
		if from.k == kF32 {
			f = float64(math.Float32frombits(uint32(v.n)))
		}
		if to.signed {
			return Value{n: uint64(int64(f)) & mask(to.w)}
		}
		return Value{n: uint64(f) & mask(to.w)}
	case to.k == kStr:
		switch from.k {
		case kStr:
			return v
		case kInt:
			r := v
			if t, ok := v.p.(*Term); ok {
				if t.s > 32 {
					r = fromTerm(tc.Trunc(t, 32))
				} else if t.s < 32 {
					r = fromTerm(tc.Zext(t, 32))
				}
			} else {
				i := int64(v.n)
				if from.signed {
					i = sext(v.n, from.w)
				}
				if i < 0 || i > 0x10ffff {
					i = 0xfffd
				}
				r = Value{n: uint64(i)}
			}
			return mkStr(m.encodeRune(nil, r))
		case kSlice:
			s, _ := v.p.(Slice)
			e := kindOf(ft.Underlying().(*types.Slice).Elem())
			if e.w == 8 {
				return mkStr(s)
			}
			var out []Value
			for _, r := range s {
				out = m.encodeRune(out, r)
			}
			return mkStr(out)
		}
	case from.k == kStr && to.k == kSlice:
		e := kindOf(tt.Underlying().(*types.Slice).Elem())
		if e.w == 8 {
			b := strBytes(v)
			out := make(Slice, len(b), roundCap(len(b), 1))
			copy(out, b)
			return Value{p: out}
		}
		n := strLen(v)
		out := Slice{}
		for i := 0; i < n; {
			r, sz := m.decodeRune(v, i)
			out = append(out, r)
			i += sz
		}
		return Value{p: out[:len(out):len(out)]}
	case from.k == kPtr || to.k == kPtr:
		if to.k == kInt {
			m.unsupported("pointer to integer conversion")
		}
		if from.k == kInt {
			if v.p == nil && v.n == 0 {
				return Value{}
			}
			m.unsupported("integer to pointer conversion")
		}
		return v
	case from.k == to.k:
		return v
	}
	m.unsupported("conversion %v to %v", ft, tt)
	return Value{}
}

// conc returns a concrete value for v (forking when symbolic), sign-extended to 64 bits.
func (m *Machine) conc(v Value, w uint8) uint64 {
	if t, ok := v.p.(*Term); ok {
		return m.concTerm(t)
	}
	return v.n
}

func mapKeyStr(v Value, t types.Type, buf []byte) ([]byte, bool) {
	switch x := v.p.(type) {
	case *Term, *SymStr:
		return buf, false
	case nil:
		if kindOf(t).k == kStr {
			return append(buf, "s0:"...), true
		}
		if kindOf(t).k == kIface {
			return append(buf, "nil;"...), true
		}
		return append(buf, fmt.Sprintf("n%d;", v.n)...), true
	case string:
		buf = append(buf, fmt.Sprintf("s%d:", len(x))...)
		return append(buf, x...), true
	case Agg:
		ok := true
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := range x {
				var o bool
				buf, o = mapKeyStr(x[i], u.Field(i).Type(), buf)
				ok = ok && o
			}
		case *types.Array:
			for i := range x {
				var o bool
				buf, o = mapKeyStr(x[i], u.Elem(), buf)
				ok = ok && o
			}
		}
		return buf, ok
	case *Iface:
		buf = append(buf, fmt.Sprintf("i%d:", x.t.id)...)
		return mapKeyStr(x.v, x.t.t, buf)
	default:
		return append(buf, fmt.Sprintf("p%p;", x)...), true
	}
}

// mapFind returns the slot of key k, or -1.
func (m *Machine) mapFind(mv *MapV, k Value) int {
	var b [64]byte
	ks, conc := mapKeyStr(k, mv.kt, b[:0])
	if conc && !mv.sym {
		if i, ok := mv.idx[string(ks)]; ok && mv.live[i] {
			return i
		}
		return -1
	}
	for i := range mv.keys {
		if !mv.live[i] {
			continue
		}
		c := m.eqTyped(k, mv.keys[i], mv.kt)
		if t, ok := c.p.(*Term); ok {
			if m.decide(t) {
				return i
			}
		} else if c.n != 0 {
			return i
		}
	}
	return -1
}

func (m *Machine) mapSet(mv *MapV, k, v Value) {
	if i := m.mapFind(mv, k); i >= 0 {
		mv.vals[i] = v
		return
	}
	var b [64]byte
	ks, conc := mapKeyStr(k, mv.kt, b[:0])
	mv.keys = append(mv.keys, k)
	mv.vals = append(mv.vals, v)
	mv.live = append(mv.live, true)
	mv.n++
	if conc {
		mv.idx[string(ks)] = len(mv.keys) - 1
	} else {
		mv.sym = true
	}
}

func (m *Machine) mapDelete(mv *MapV, k Value) {
	if i := m.mapFind(mv, k); i >= 0 {
		mv.live[i] = false
		mv.n--
		var b [64]byte
		if ks, conc := mapKeyStr(mv.keys[i], mv.kt, b[:0]); conc {
			delete(mv.idx, string(ks))
		}
	}
}

// capacity growth of the Go runtime
var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundCap(n, es int) int {
	if es == 0 {
		return n
	}
	b := n * es
	if b > 32768 {
		p := (b + 8191) / 8192 * 8192
		return p / es
	}
	for _, c := range sizeClasses {
		if c >= b {
			return c / es
		}
	}
	return n
}

func growCap(old, need, es int) int {
	nc := old
	if need > 2*old {
		nc = need
	} else if old < 256 {
		nc = 2 * old
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	return roundCap(nc, es)
}

func (m *Machine) appendVals(s Slice, elem types.Type, add []Value) Slice {
	n := len(s) + len(add)
	if n <= cap(s) {
		r := s[:n]
		for i, v := range add {
			storeInto(&r[len(s)+i], v)
		}
		return r
	}
	es := 8
	if elem != nil {
		es = int(m.P.sizes.Sizeof(elem))
	}
	c := growCap(cap(s), n, es)
	if c < n {
		c = n
	}
	r := make(Slice, c)
	for i := range s {
		r[i] = copyVal(s[i])
	}
	for i, v := range add {
		r[len(s)+i] = copyVal(v)
	}
	if elem != nil {
		switch elem.Underlying().(type) {
		case *types.Struct, *types.Array:
			for i := n; i < c; i++ {
				r[i] = zero(elem)
			}
		}
	}
	return r[:n]
}

func (m *Machine) builtin(b *ssa.Builtin, args []Value, fr *frame, in *inst) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].p.(type) {
		case nil:
			return Value{}
		case string:
			return mkInt(len(x))
		case *SymStr:
			return mkInt(len(x.b))
		case Slice:
			return mkInt(len(x))
		case *MapV:
			return mkInt(x.n)
		case *ChanV:
			return mkInt(len(x.buf))
		case Agg:
			return mkInt(len(x))
		case *Value:
			return mkInt(len(x.p.(Agg)))
		}
	case "close":
		if m.spec > 0 {
			panic(specAbort{"chan"})
		}
		c, ok := args[0].p.(*ChanV)
		if !ok {
			m.runtimePanic("close of nil channel")
		}
		if c.closed {
			m.runtimePanic("close of closed channel")
		}
		c.closed = true
		return Value{}
	case "cap":
		switch x := args[0].p.(type) {
		case nil:
			return Value{}
		case *ChanV:
			return mkInt(x.cap)
		case Slice:
			return mkInt(cap(x))
		case Agg:
			return mkInt(len(x))
		case *Value:
			return mkInt(len(x.p.(Agg)))
		}
	case "append":
		if m.spec > 0 {
			panic(specAbort{"append"})
		}
		var elem types.Type
		if in != nil {
			if v, ok := in.ins.(ssa.Value); ok {
				if st, ok := v.Type().Underlying().(*types.Slice); ok {
					elem = st.Elem()
				}
			}
		}
		s, _ := args[0].p.(Slice)
		var add []Value
		switch x := args[1].p.(type) {
		case nil:
		case Slice:
			add = x
		case string, *SymStr:
			add = strBytes(args[1])
		default:
			m.unsupported("append %T", x)
		}
		if len(add) == 0 {
			return args[0]
		}
		return Value{p: m.appendVals(s, elem, add)}
	case "copy":
		if m.spec > 0 {
			panic(specAbort{"copy"})
		}
		d, _ := args[0].p.(Slice)
		var s []Value
		switch x := args[1].p.(type) {
		case nil:
		case Slice:
			s = x
		default:
			s = strBytes(args[1])
		}
		n := len(d)
		if len(s) < n {
			n = len(s)
		}
		if n == 0 {
			return Value{}
		}
		tmp := make([]Value, n)
		for i := range tmp {
			tmp[i] = copyVal(s[i])
		}
		for i := range tmp {
			storeInto(&d[i], tmp[i])
		}
		return mkInt(n)
	case "delete":
		if m.spec > 0 {
			panic(specAbort{"delete"})
		}
		if mv, ok := args[0].p.(*MapV); ok {
			m.mapDelete(mv, args[1])
		}
		return Value{}
	case "clear":
		if m.spec > 0 {
			panic(specAbort{"clear"})
		}
		switch x := args[0].p.(type) {
		case nil:
		case *MapV:
			*x = MapV{idx: map[string]int{}, kt: x.kt}
		case Slice:
			st := in.ins.(*ssa.Call).Call.Args[0].Type().Underlying().(*types.Slice)
			for i := range x {
				storeInto(&x[i], zero(st.Elem()))
			}
		}
		return Value{}
	case "panic":
		m.panicVal(args[0])
	case "recover":
		if fr != nil && fr.deferOf != nil && fr.deferOf.panicking != nil {
			v := fr.deferOf.panicking.val
			fr.deferOf.panicking = nil
			return v
		}
		return Value{}
	case "print", "println":
		return Value{}
	case "min", "max":
		v := args[0]
		k := kindOf(in.typ)
		for _, w := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			c := m.binop(op, k, k, in.typ, w, v)
			if t, ok := c.p.(*Term); ok {
				v = fromTerm(m.tc.Ite(t, m.term(w, k), m.term(v, k)))
			} else if c.n != 0 {
				v = w
			}
		}
		return v
	case "ssa:wrapnilchk":
		if args[0].p == nil {
			m.runtimePanic("value method called using nil pointer")
		}
		return args[0]
	case "String":
		n := int(m.conc(args[1], 64))
		if n == 0 {
			return Value{}
		}
		return mkStr(m.ptrSlice(args[0], n))
	case "Slice":
		n := int(m.conc(args[1], 64))
		if args[0].p == nil {
			return Value{}
		}
		return Value{p: Slice(m.ptrSlice(args[0], n))}
	case "SliceData":
		s, ok := args[0].p.(Slice)
		if !ok {
			return Value{}
		}
		return Value{p: &ptrData{s[:cap(s)]}}
	case "StringData":
		return Value{p: &ptrData{strBytes(args[0])}}
	}
	m.unsupported("builtin %s on %v", b.Name(), args)
	return Value{}
}

func (m *Machine) ptrSlice(p Value, n int) []Value {
	switch x := p.p.(type) {
	case *ptrData:
		if n > len(x.s) {
			m.unsupported("unsafe slice beyond data")
		}
		return x.s[:n]
	case *Value:
		if n == 1 {
			if _, isAgg := x.p.(Agg); !isAgg {
				return []Value{*x}
			}
		}
	case nil:
		if n == 0 {
			return nil
		}
	}
	m.unsupported("unsafe pointer to slice (%T, %d)", p.p, n)
	return nil
}

func ratFromFloat(f float64) *big.Rat { return new(big.Rat).SetFloat64(f) }
