// Package sx is a bounded symbolic executor for Go SSA.
package sx

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
)

// Op is a term operator.
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OBvAdd
	OBvSub
	OBvMul
	OBvUDiv
	OBvSDiv
	OBvURem
	OBvSRem
	OBvShl
	OBvLshr
	OBvAshr
	OBvAnd
	OBvOr
	OBvXor
	OBvNot
	OBvUlt
	OBvUle
	OBvSlt
	OBvSle
	OZext
	OSext
	OTrunc
	ORAdd
	ORSub
	ORMul
	ORDiv
	ORLt
	ORLe
	OIAdd
	OISub
	OIMul
	OILt
	OILe
	OToReal
)

// Sort codes: 0 bool, 1..64 bit-vector width, SReal, SInt.
const (
	SBool uint8 = 0
	SReal uint8 = 200
	SInt  uint8 = 201
)

// Term is a hash-consed SMT term.
type Term struct {
	op   Op
	s    uint8 // sort
	a    [3]*Term
	c    uint64   // constant (bool, bv)
	r    *big.Rat // constant (real, int)
	name string
	id   int32
	// unsigned range for bit-vectors
	ulo, uhi uint64
	// interval for reals and ints (outward rounded); frac: multiple of 2^-frac, -1 unknown
	lo, hi float64
	frac   int16
	// variables: grid resolution (reals)
	grid int16
	// range asserted for vars
}

type tkey struct {
	op      Op
	s       uint8
	a, b, c int32
	k       uint64
	name    string
}

// TC is a term context (one per worker).
type TC struct {
	tab   map[tkey]*Term
	next  int32
	True  *Term
	False *Term
	lins  map[*Term]*lin
}

func NewTC() *TC {
	tc := &TC{tab: map[tkey]*Term{}, lins: map[*Term]*lin{}}
	tc.True = tc.mk(OConst, SBool, nil, nil, nil, 1, "")
	tc.False = tc.mk(OConst, SBool, nil, nil, nil, 0, "")
	return tc
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (tc *TC) mk(op Op, s uint8, a, b, c *Term, k uint64, name string) *Term {
	key := tkey{op, s, tid(a), tid(b), tid(c), k, name}
	if t, ok := tc.tab[key]; ok {
		return t
	}
	t := &Term{op: op, s: s, a: [3]*Term{a, b, c}, c: k, name: name, id: tc.next}
	tc.next++
	tc.tab[key] = t
	if s >= 1 && s <= 64 {
		t.ulo, t.uhi = urange(t)
	}
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func urange(t *Term) (uint64, uint64) {
	m := mask(t.s)
	switch t.op {
	case OConst:
		return t.c, t.c
	case OZext:
		return t.a[0].ulo, t.a[0].uhi
	case OIte:
		lo, hi := t.a[1].ulo, t.a[1].uhi
		if t.a[2].ulo < lo {
			lo = t.a[2].ulo
		}
		if t.a[2].uhi > hi {
			hi = t.a[2].uhi
		}
		return lo, hi
	case OBvAnd:
		hi := t.a[0].uhi
		if t.a[1].uhi < hi {
			hi = t.a[1].uhi
		}
		return 0, hi
	case OBvOr, OBvXor:
		h := t.a[0].uhi | t.a[1].uhi
		n := bits.Len64(h)
		return 0, mask(uint8(n)) & m
	case OBvAdd:
		s, c := bits.Add64(t.a[0].uhi, t.a[1].uhi, 0)
		if c == 0 && s <= m {
			return t.a[0].ulo + t.a[1].ulo, s
		}
	case OBvSub:
		if t.a[0].ulo >= t.a[1].uhi {
			return t.a[0].ulo - t.a[1].uhi, t.a[0].uhi - t.a[1].ulo
		}
	case OBvMul:
		h, l := bits.Mul64(t.a[0].uhi, t.a[1].uhi)
		if h == 0 && l <= m {
			return t.a[0].ulo * t.a[1].ulo, l
		}
	case OBvLshr:
		if t.a[1].op == OConst && t.a[1].c < 64 {
			return t.a[0].ulo >> t.a[1].c, t.a[0].uhi >> t.a[1].c
		}
		return 0, t.a[0].uhi
	case OBvShl:
		if t.a[1].op == OConst && t.a[1].c < 64 {
			k := uint(t.a[1].c)
			if bits.Len64(t.a[0].uhi)+int(k) <= int(t.s) {
				return t.a[0].ulo << k, t.a[0].uhi << k
			}
		}
	case OTrunc:
		if t.a[0].uhi <= m {
			return t.a[0].ulo, t.a[0].uhi
		}
	case OBvURem:
		if t.a[1].op == OConst && t.a[1].c > 0 {
			return 0, t.a[1].c - 1
		}
	case OBvUDiv:
		if t.a[1].op == OConst && t.a[1].c > 0 {
			return t.a[0].ulo / t.a[1].c, t.a[0].uhi / t.a[1].c
		}
	}
	return 0, m
}

func (t *Term) IsConst() bool { return t.op == OConst }

func (tc *TC) Bool(b bool) *Term {
	if b {
		return tc.True
	}
	return tc.False
}

func (tc *TC) BV(v uint64, w uint8) *Term { return tc.mk(OConst, w, nil, nil, nil, v&mask(w), "") }

func (tc *TC) Real(r *big.Rat) *Term {
	key := "r" + r.RatString()
	t := tc.mk(OConst, SReal, nil, nil, nil, 0, key)
	if t.r == nil {
		t.r = new(big.Rat).Set(r)
		f, exact := r.Float64()
		t.lo, t.hi = f, f
		if !exact {
			t.lo = math.Nextafter(f, math.Inf(-1))
			t.hi = math.Nextafter(f, math.Inf(1))
		}
		t.frac = -1
		d := r.Denom()
		if tz := int(d.TrailingZeroBits()); d.BitLen()-1 == tz && tz < 1000 {
			t.frac = int16(tz)
		}
	}
	return t
}

func (tc *TC) RealF(f float64) *Term {
	r := new(big.Rat)
	r.SetFloat64(f)
	return tc.Real(r)
}

func (tc *TC) Int(v int64) *Term {
	t := tc.mk(OConst, SInt, nil, nil, nil, uint64(v), "i")
	if t.r == nil {
		t.r = new(big.Rat).SetInt64(v)
		t.lo, t.hi = float64(v), float64(v)
		if math.Abs(float64(v)) > 1<<52 {
			t.lo, t.hi = math.Nextafter(t.lo, math.Inf(-1)), math.Nextafter(t.hi, math.Inf(1))
		}
	}
	return t
}

func (tc *TC) Var(name string, s uint8) *Term {
	t := tc.mk(OVar, s, nil, nil, nil, 0, name)
	return t
}

func (tc *TC) Not(t *Term) *Term {
	switch t.op {
	case OConst:
		return tc.Bool(t.c == 0)
	case ONot:
		return t.a[0]
	case ORLt: // not(a<b) = b<=a
		return tc.mk(ORLe, SBool, t.a[1], t.a[0], nil, 0, "")
	case ORLe:
		return tc.mk(ORLt, SBool, t.a[1], t.a[0], nil, 0, "")
	case OBvUlt:
		return tc.mk(OBvUle, SBool, t.a[1], t.a[0], nil, 0, "")
	case OBvUle:
		return tc.mk(OBvUlt, SBool, t.a[1], t.a[0], nil, 0, "")
	case OBvSlt:
		return tc.mk(OBvSle, SBool, t.a[1], t.a[0], nil, 0, "")
	case OBvSle:
		return tc.mk(OBvSlt, SBool, t.a[1], t.a[0], nil, 0, "")
	}
	return tc.mk(ONot, SBool, t, nil, nil, 0, "")
}

func (tc *TC) And(a, b *Term) *Term {
	if a.op == OConst {
		if a.c == 0 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.c == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if tc.Not(a) == b {
		return tc.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tc.mk(OAnd, SBool, a, b, nil, 0, "")
}

func (tc *TC) Or(a, b *Term) *Term {
	if a.op == OConst {
		if a.c == 1 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.c == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if tc.Not(a) == b {
		return tc.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tc.mk(OOr, SBool, a, b, nil, 0, "")
}

func (tc *TC) Ite(c, a, b *Term) *Term {
	if c.op == OConst {
		if c.c == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.s == SBool {
		if a.op == OConst && b.op == OConst {
			if a.c == 1 {
				return c
			}
			return tc.Not(c)
		}
		if a.op == OConst {
			if a.c == 1 {
				return tc.Or(c, b)
			}
			return tc.And(tc.Not(c), b)
		}
		if b.op == OConst {
			if b.c == 1 {
				return tc.Or(tc.Not(c), a)
			}
			return tc.And(c, a)
		}
	}
	if c.op == ONot {
		c, a, b = c.a[0], b, a
	}
	t := tc.mk(OIte, a.s, c, a, b, 0, "")
	if a.s == SReal || a.s == SInt {
		t.lo, t.hi = math.Min(a.lo, b.lo), math.Max(a.hi, b.hi)
		t.frac = maxFrac(a.frac, b.frac)
	}
	return t
}

func maxFrac(a, b int16) int16 {
	if a < 0 || b < 0 {
		return -1
	}
	if a > b {
		return a
	}
	return b
}

func (tc *TC) Eq(a, b *Term) *Term {
	if a == b {
		return tc.True
	}
	if a.s != b.s {
		panic(fmt.Sprintf("eq sorts %d %d", a.s, b.s))
	}
	if a.op == OConst && b.op == OConst {
		return tc.False // hash-consed: different constants
	}
	if a.s == SReal && a.op != OIte && b.op != OIte {
		if t := tc.snapped(a, b, true); t != nil {
			return t
		}
	}
	if b.op == OConst {
		a, b = b, a
	}
	if a.op == OConst {
		switch {
		case a.s == SBool:
			if a.c == 1 {
				return b
			}
			return tc.Not(b)
		case a.s >= 1 && a.s <= 64:
			if a.c < b.ulo || a.c > b.uhi {
				return tc.False
			}
			if b.op == OZext {
				return tc.Eq(b.a[0], tc.BV(a.c, b.a[0].s))
			}
			if b.op == OBvAdd && b.a[1].op == OConst {
				return tc.Eq(b.a[0], tc.BV(a.c-b.a[1].c, b.s))
			}
			if b.op == OBvSub && b.a[1].op == OConst {
				return tc.Eq(b.a[0], tc.BV(a.c+b.a[1].c, b.s))
			}
		case a.s == SReal || a.s == SInt:
			if a.hi < b.lo || a.lo > b.hi {
				return tc.False
			}
		}
		if b.op == OIte {
			x, y := b.a[1], b.a[2]
			if x.op == OConst || y.op == OConst {
				return tc.Ite(b.a[0], tc.Eq(a, x), tc.Eq(a, y))
			}
		}
		return tc.mk(OEq, SBool, a, b, nil, 0, "")
	}
	if a.s >= 1 && a.s <= 64 && (a.uhi < b.ulo || b.uhi < a.ulo) {
		return tc.False
	}
	if a.op == OZext && b.op == OZext && a.a[0].s == b.a[0].s {
		return tc.Eq(a.a[0], b.a[0])
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tc.mk(OEq, SBool, a, b, nil, 0, "")
}

// bv2 builds a binary bit-vector operation.
func (tc *TC) bv2(op Op, a, b *Term) *Term {
	w := a.s
	if a.s != b.s {
		panic(fmt.Sprintf("bv2 sorts %d %d op %d", a.s, b.s, op))
	}
	m := mask(w)
	if a.op == OConst && b.op == OConst {
		x, y := a.c, b.c
		var v uint64
		switch op {
		case OBvAdd:
			v = x + y
		case OBvSub:
			v = x - y
		case OBvMul:
			v = x * y
		case OBvAnd:
			v = x & y
		case OBvOr:
			v = x | y
		case OBvXor:
			v = x ^ y
		case OBvShl:
			if y < 64 {
				v = x << y
			}
		case OBvLshr:
			if y < 64 {
				v = x >> y
			}
		case OBvAshr:
			if y > 63 {
				y = 63
			}
			v = uint64(sext(x, w) >> y)
		case OBvUDiv:
			if y == 0 {
				v = m
			} else {
				v = x / y
			}
		case OBvURem:
			if y == 0 {
				v = x
			} else {
				v = x % y
			}
		case OBvSDiv:
			if y == 0 {
				v = m
				if sext(x, w) < 0 {
					v = 1
				}
			} else if y == m {
				v = -x
			} else {
				v = uint64(sext(x, w) / sext(y, w))
			}
		case OBvSRem:
			if y == 0 {
				v = x
			} else if y == m {
				v = 0
			} else {
				v = uint64(sext(x, w) % sext(y, w))
			}
		}
		return tc.BV(v, w)
	}
	switch op {
	case OBvAdd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.c == 0 {
				return a
			}
			if a.op == OBvAdd && a.a[1].op == OConst {
				return tc.bv2(OBvAdd, a.a[0], tc.BV(a.a[1].c+b.c, w))
			}
			if a.op == OBvSub && a.a[1].op == OConst {
				return tc.bv2(OBvAdd, a.a[0], tc.BV(b.c-a.a[1].c, w))
			}
		}
	case OBvSub:
		if a == b {
			return tc.BV(0, w)
		}
		if b.op == OConst {
			return tc.bv2(OBvAdd, a, tc.BV(-b.c, w))
		}
	case OBvMul:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.c == 0 {
				return b
			}
			if b.c == 1 {
				return a
			}
		}
	case OBvAnd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.c == 0 {
				return b
			}
			if b.c == m {
				return a
			}
			// mask covers the range
			if n := bits.Len64(a.uhi); b.c&mask(uint8(n)) == mask(uint8(n)) {
				return a
			}
		}
		if a == b {
			return a
		}
	case OBvOr, OBvXor:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && b.c == 0 {
			return a
		}
	case OBvShl, OBvLshr, OBvAshr:
		if b.op == OConst && b.c == 0 {
			return a
		}
		if b.op == OConst && op == OBvLshr && (b.c >= 64 || a.uhi>>b.c == 0) {
			return tc.BV(0, w)
		}
	case OBvUDiv, OBvSDiv:
		if b.op == OConst && b.c == 1 {
			return a
		}
		if op == OBvSDiv && a.uhi <= m>>1 && b.uhi <= m>>1 {
			op = OBvUDiv
		}
	case OBvSRem:
		if a.uhi <= m>>1 && b.uhi <= m>>1 {
			op = OBvURem
		}
	}
	if (op == OBvURem) && b.op == OConst && b.c > 0 && a.uhi < b.c {
		return a
	}
	// distribute over ite of constants with constant other side
	if b.op == OConst && a.op == OIte && a.a[1].op == OConst && a.a[2].op == OConst {
		return tc.Ite(a.a[0], tc.bv2(op, a.a[1], b), tc.bv2(op, a.a[2], b))
	}
	return tc.mk(op, w, a, b, nil, 0, "")
}

func (tc *TC) BvNot(a *Term) *Term {
	if a.op == OConst {
		return tc.BV(^a.c, a.s)
	}
	return tc.mk(OBvNot, a.s, a, nil, nil, 0, "")
}

func (tc *TC) Ult(a, b *Term) *Term {
	if a == b {
		return tc.False
	}
	if a.uhi < b.ulo {
		return tc.True
	}
	if a.ulo >= b.uhi {
		return tc.False
	}
	if a.op == OZext && b.op == OConst {
		return tc.Ult(a.a[0], tc.BV(b.c, a.a[0].s)) // b.c <= uhi here
	}
	if b.op == OZext && a.op == OConst {
		return tc.Ult(tc.BV(a.c, b.a[0].s), b.a[0])
	}
	if a.op == OZext && b.op == OZext && a.a[0].s == b.a[0].s {
		return tc.Ult(a.a[0], b.a[0])
	}
	return tc.mk(OBvUlt, SBool, a, b, nil, 0, "")
}

func (tc *TC) Ule(a, b *Term) *Term { return tc.Not(tc.Ult(b, a)) }

func (tc *TC) Slt(a, b *Term) *Term {
	w := a.s
	half := uint64(1) << (w - 1)
	if a.op == OConst && b.op == OConst {
		return tc.Bool(sext(a.c, w) < sext(b.c, w))
	}
	if a == b {
		return tc.False
	}
	if a.uhi < half && b.uhi < half {
		return tc.Ult(a, b)
	}
	if a.ulo >= half && b.uhi < half {
		return tc.True
	}
	if b.ulo >= half && a.uhi < half {
		return tc.False
	}
	if a.op == OSext && b.op == OSext && a.a[0].s == b.a[0].s {
		return tc.Slt(a.a[0], b.a[0])
	}
	return tc.mk(OBvSlt, SBool, a, b, nil, 0, "")
}

func (tc *TC) Sle(a, b *Term) *Term { return tc.Not(tc.Slt(b, a)) }

func (tc *TC) Zext(a *Term, w uint8) *Term {
	if a.s == w {
		return a
	}
	if a.op == OConst {
		return tc.BV(a.c, w)
	}
	if a.op == OZext {
		a = a.a[0]
	}
	if a.op == OIte && a.a[1].op == OConst && a.a[2].op == OConst {
		return tc.Ite(a.a[0], tc.Zext(a.a[1], w), tc.Zext(a.a[2], w))
	}
	return tc.mk(OZext, w, a, nil, nil, 0, "")
}

func (tc *TC) Sext(a *Term, w uint8) *Term {
	if a.s == w {
		return a
	}
	if a.op == OConst {
		return tc.BV(uint64(sext(a.c, a.s)), w)
	}
	if a.uhi < uint64(1)<<(a.s-1) {
		return tc.Zext(a, w)
	}
	return tc.mk(OSext, w, a, nil, nil, 0, "")
}

func (tc *TC) Trunc(a *Term, w uint8) *Term {
	if a.s == w {
		return a
	}
	if a.op == OConst {
		return tc.BV(a.c, w)
	}
	if a.op == OZext || a.op == OSext {
		if a.a[0].s == w {
			return a.a[0]
		}
		if a.a[0].s > w {
			return tc.Trunc(a.a[0], w)
		}
		if a.op == OZext {
			return tc.Zext(a.a[0], w)
		}
		return tc.Sext(a.a[0], w)
	}
	if a.op == OIte {
		return tc.Ite(a.a[0], tc.Trunc(a.a[1], w), tc.Trunc(a.a[2], w))
	}
	if (a.op == OBvAdd || a.op == OBvSub || a.op == OBvOr || a.op == OBvAnd || a.op == OBvXor) && w <= 32 {
		return tc.bv2(a.op, tc.Trunc(a.a[0], w), tc.Trunc(a.a[1], w))
	}
	return tc.mk(OTrunc, w, a, nil, nil, 0, "")
}

func dn(f float64) float64 { return math.Nextafter(f, math.Inf(-1)) }
func up(f float64) float64 { return math.Nextafter(f, math.Inf(1)) }

// realRaw builds an exact (mathematical) real operation with interval.
func (tc *TC) realRaw(op Op, a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		z := new(big.Rat)
		switch op {
		case ORAdd:
			return tc.Real(z.Add(a.r, b.r))
		case ORSub:
			return tc.Real(z.Sub(a.r, b.r))
		case ORMul:
			return tc.Real(z.Mul(a.r, b.r))
		case ORDiv:
			return tc.Real(z.Quo(a.r, b.r))
		}
	}
	switch op {
	case ORAdd:
		if a.op == OConst && a.r.Sign() == 0 {
			return b
		}
		if b.op == OConst && b.r.Sign() == 0 {
			return a
		}
		if a.id > b.id {
			a, b = b, a
		}
	case ORSub:
		if b.op == OConst && b.r.Sign() == 0 {
			return a
		}
		if a == b {
			return tc.Real(new(big.Rat))
		}
	case ORMul:
		if a.op != OConst && (b.op == OConst || a.id > b.id) {
			a, b = b, a
		}
		if a.op == OConst {
			if a.r.Sign() == 0 {
				return a
			}
			if a.r.Cmp(ratOne) == 0 {
				return b
			}
		}
	case ORDiv:
		if b.op == OConst && b.r.Sign() != 0 {
			t := tc.realRaw(ORMul, tc.Real(new(big.Rat).Inv(b.r)), a)
			return t
		}
	}
	t := tc.mk(op, SReal, a, b, nil, 0, "")
	switch op {
	case ORAdd:
		t.lo, t.hi = dn(a.lo+b.lo), up(a.hi+b.hi)
		t.frac = maxFrac(a.frac, b.frac)
		if t.frac >= 0 && math.Abs(t.lo) < 1<<40 && math.Abs(t.hi) < 1<<40 && t.frac < 12 {
			t.lo, t.hi = a.lo+b.lo, a.hi+b.hi
		}
	case ORSub:
		t.lo, t.hi = dn(a.lo-b.hi), up(a.hi-b.lo)
		t.frac = maxFrac(a.frac, b.frac)
		if t.frac >= 0 && math.Abs(t.lo) < 1<<40 && math.Abs(t.hi) < 1<<40 && t.frac < 12 {
			t.lo, t.hi = a.lo-b.hi, a.hi-b.lo
		}
	case ORMul:
		c := [4]float64{a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi}
		lo, hi := c[0], c[0]
		for _, x := range c[1:] {
			lo, hi = math.Min(lo, x), math.Max(hi, x)
		}
		t.lo, t.hi = dn(lo), up(hi)
		if a.frac >= 0 && b.frac >= 0 {
			t.frac = a.frac + b.frac
		} else {
			t.frac = -1
		}
	case ORDiv:
		t.frac = -1
		if b.lo > 0 || b.hi < 0 {
			c := [4]float64{a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi}
			lo, hi := c[0], c[0]
			for _, x := range c[1:] {
				lo, hi = math.Min(lo, x), math.Max(hi, x)
			}
			t.lo, t.hi = dn(lo), up(hi)
		} else {
			t.lo, t.hi = math.Inf(-1), math.Inf(1)
		}
	}
	if math.IsNaN(t.lo) {
		t.lo = math.Inf(-1)
	}
	if math.IsNaN(t.hi) {
		t.hi = math.Inf(1)
	}
	return t
}

var ratOne = big.NewRat(1, 1)

func (tc *TC) RLt(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return tc.Bool(a.r.Cmp(b.r) < 0)
	}
	if a == b {
		return tc.False
	}
	if a.hi < b.lo {
		return tc.True
	}
	if a.lo >= b.hi {
		return tc.False
	}
	if t := tc.snapped(a, b, false); t != nil {
		return t
	}
	return tc.mk(ORLt, SBool, a, b, nil, 0, "")
}

// rlt is RLt of exact terms.
func (tc *TC) rlt(a, b *Term) *Term {
	if a.hi < b.lo {
		return tc.True
	}
	if a.lo >= b.hi {
		return tc.False
	}
	return tc.mk(ORLt, SBool, a, b, nil, 0, "")
}

func (tc *TC) RLe(a, b *Term) *Term { return tc.Not(tc.RLt(b, a)) }

func (tc *TC) int2(op Op, a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		x, y := int64(a.c), int64(b.c)
		switch op {
		case OIAdd:
			return tc.Int(x + y)
		case OISub:
			return tc.Int(x - y)
		case OIMul:
			return tc.Int(x * y)
		case OILt:
			return tc.Bool(x < y)
		case OILe:
			return tc.Bool(x <= y)
		}
	}
	switch op {
	case OILt:
		if a.hi < b.lo {
			return tc.True
		}
		if a.lo >= b.hi {
			return tc.False
		}
		return tc.mk(op, SBool, a, b, nil, 0, "")
	case OILe:
		return tc.Not(tc.int2(OILt, b, a))
	}
	t := tc.mk(op, SInt, a, b, nil, 0, "")
	switch op {
	case OIAdd:
		t.lo, t.hi = a.lo+b.lo, a.hi+b.hi
	case OISub:
		t.lo, t.hi = a.lo-b.hi, a.hi-b.lo
	case OIMul:
		c := [4]float64{a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi}
		lo, hi := c[0], c[0]
		for _, x := range c[1:] {
			lo, hi = math.Min(lo, x), math.Max(hi, x)
		}
		t.lo, t.hi = lo, hi
	}
	return t
}

func (tc *TC) ToReal(a *Term) *Term {
	if a.op == OConst {
		return tc.Real(a.r)
	}
	t := tc.mk(OToReal, SReal, a, nil, nil, 0, "")
	t.lo, t.hi, t.frac = a.lo, a.hi, 0
	return t
}

// Model maps variables to values.
type Model struct {
	bv map[*Term]uint64
	rl map[*Term]*big.Rat
}

func NewModel() *Model { return &Model{bv: map[*Term]uint64{}, rl: map[*Term]*big.Rat{}} }

func (m *Model) clone() *Model {
	n := NewModel()
	for k, v := range m.bv {
		n.bv[k] = v
	}
	for k, v := range m.rl {
		n.rl[k] = v
	}
	return n
}

type evaluator struct {
	m   *Model
	bv  map[*Term]uint64
	rl  map[*Term]*big.Rat
	bad bool
}

func (m *Model) newEval() *evaluator {
	return &evaluator{m: m, bv: map[*Term]uint64{}, rl: map[*Term]*big.Rat{}}
}

func (e *evaluator) B(t *Term) bool { return e.N(t) != 0 }

func (e *evaluator) N(t *Term) uint64 {
	if t.op == OConst {
		return t.c
	}
	if t.op == OVar {
		return e.m.bv[t]
	}
	if v, ok := e.bv[t]; ok {
		return v
	}
	v := e.n(t)
	e.bv[t] = v
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (e *evaluator) n(t *Term) uint64 {
	a := t.a
	w := t.s
	switch t.op {
	case ONot:
		return 1 - e.N(a[0])
	case OAnd:
		return b2u(e.B(a[0]) && e.B(a[1]))
	case OOr:
		return b2u(e.B(a[0]) || e.B(a[1]))
	case OIte:
		if e.B(a[0]) {
			return e.N(a[1])
		}
		return e.N(a[2])
	case OEq:
		if a[0].s == SReal || a[0].s == SInt {
			return b2u(e.R(a[0]).Cmp(e.R(a[1])) == 0)
		}
		return b2u(e.N(a[0]) == e.N(a[1]))
	case OBvNot:
		return ^e.N(a[0]) & mask(w)
	case OBvUlt:
		return b2u(e.N(a[0]) < e.N(a[1]))
	case OBvUle:
		return b2u(e.N(a[0]) <= e.N(a[1]))
	case OBvSlt:
		return b2u(sext(e.N(a[0]), a[0].s) < sext(e.N(a[1]), a[0].s))
	case OBvSle:
		return b2u(sext(e.N(a[0]), a[0].s) <= sext(e.N(a[1]), a[0].s))
	case OZext:
		return e.N(a[0])
	case OSext:
		return uint64(sext(e.N(a[0]), a[0].s)) & mask(w)
	case OTrunc:
		return e.N(a[0]) & mask(w)
	case ORLt, OILt:
		return b2u(e.R(a[0]).Cmp(e.R(a[1])) < 0)
	case ORLe, OILe:
		return b2u(e.R(a[0]).Cmp(e.R(a[1])) <= 0)
	}
	x, y := e.N(a[0]), e.N(a[1])
	var v uint64
	switch t.op {
	case OBvAdd:
		v = x + y
	case OBvSub:
		v = x - y
	case OBvMul:
		v = x * y
	case OBvAnd:
		v = x & y
	case OBvOr:
		v = x | y
	case OBvXor:
		v = x ^ y
	case OBvShl:
		if y < 64 {
			v = x << y
		}
	case OBvLshr:
		if y < 64 {
			v = x >> y
		}
	case OBvAshr:
		if y > 63 {
			y = 63
		}
		v = uint64(sext(x, w) >> y)
	case OBvUDiv:
		if y == 0 {
			v = mask(w)
		} else {
			v = x / y
		}
	case OBvURem:
		if y == 0 {
			v = x
		} else {
			v = x % y
		}
	case OBvSDiv:
		if y == 0 {
			v = mask(w)
			if sext(x, w) < 0 {
				v = 1
			}
		} else if y == mask(w) {
			v = -x
		} else {
			v = uint64(sext(x, w) / sext(y, w))
		}
	case OBvSRem:
		if y == 0 {
			v = x
		} else if y != mask(w) {
			v = uint64(sext(x, w) % sext(y, w))
		}
	default:
		panic(fmt.Sprintf("eval op %d", t.op))
	}
	return v & mask(w)
}

var ratZero = new(big.Rat)

func (e *evaluator) R(t *Term) *big.Rat {
	if t.op == OConst {
		return t.r
	}
	if t.op == OVar {
		if v, ok := e.m.rl[t]; ok {
			return v
		}
		return ratZero
	}
	if v, ok := e.rl[t]; ok {
		return v
	}
	z := new(big.Rat)
	a := t.a
	switch t.op {
	case ORAdd, OIAdd:
		z.Add(e.R(a[0]), e.R(a[1]))
	case ORSub, OISub:
		z.Sub(e.R(a[0]), e.R(a[1]))
	case ORMul, OIMul:
		z.Mul(e.R(a[0]), e.R(a[1]))
	case ORDiv:
		d := e.R(a[1])
		if d.Sign() == 0 {
			e.bad = true
		} else {
			z.Quo(e.R(a[0]), d)
		}
	case OToReal:
		z = e.R(a[0])
	case OIte:
		if e.B(a[0]) {
			z = e.R(a[1])
		} else {
			z = e.R(a[2])
		}
	default:
		panic(fmt.Sprintf("eval real op %d", t.op))
	}
	e.rl[t] = z
	return z
}
