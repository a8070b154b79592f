package sx

import (
	"math/big"
)

// A lin is a real term as a sum of multiples of atoms lying on grids, a constant, and rounding errors.
type lin struct {
	at  []*Term // ordered by id
	co  []*big.Rat
	c   *big.Rat
	err *big.Rat // bound of the sum of rounding errors
}

const linMax = 12

// linear gives the linear form of t, or nil.
func (tc *TC) linear(t *Term) *lin {
	if l, ok := tc.lins[t]; ok {
		return l
	}
	var l *lin
	switch {
	case t.op == OConst:
		l = &lin{c: t.r, err: ratZero}
	case t.op == ORAdd || t.op == ORSub:
		x, y := tc.linear(t.a[0]), tc.linear(t.a[1])
		if x != nil && y != nil {
			l = x.add(y, t.op == ORSub)
		}
	case t.op == ORMul && t.a[0].op == OConst:
		if x := tc.linear(t.a[1]); x != nil {
			k := t.a[0].r
			l = &lin{at: x.at, c: new(big.Rat).Mul(k, x.c)}
			for _, c := range x.co {
				l.co = append(l.co, new(big.Rat).Mul(k, c))
			}
			l.err = new(big.Rat).Mul(new(big.Rat).Abs(k), x.err)
		}
	case t.op == OVar && len(t.name) > 2 && t.name[:2] == "r!" && t.hi == -t.lo:
		l = &lin{c: ratZero, err: new(big.Rat).SetFloat64(t.hi)}
	case t.frac >= 0 && t.frac < 60 && t.s == SReal:
		l = &lin{at: []*Term{t}, co: []*big.Rat{ratOne}, c: ratZero, err: ratZero}
	}
	tc.lins[t] = l
	return l
}

func (x *lin) add(y *lin, sub bool) *lin {
	sg := func(r *big.Rat) *big.Rat {
		if sub {
			return new(big.Rat).Neg(r)
		}
		return r
	}
	l := &lin{c: new(big.Rat).Add(x.c, sg(y.c)), err: new(big.Rat).Add(x.err, y.err)}
	i, j := 0, 0
	for i < len(x.at) || j < len(y.at) {
		switch {
		case j == len(y.at) || i < len(x.at) && x.at[i].id < y.at[j].id:
			l.at, l.co = append(l.at, x.at[i]), append(l.co, x.co[i])
			i++
		case i == len(x.at) || y.at[j].id < x.at[i].id:
			l.at, l.co = append(l.at, y.at[j]), append(l.co, sg(y.co[j]))
			j++
		default:
			if c := new(big.Rat).Add(x.co[i], sg(y.co[j])); c.Sign() != 0 {
				l.at, l.co = append(l.at, x.at[i]), append(l.co, c)
			}
			i++
			j++
		}
	}
	if len(l.at) > linMax {
		return nil
	}
	return l
}

// snapped decides whether b-a is positive on the grids of its atoms. As it takes values apart from each other only,
// rounding errors do not matter if they are small: the comparison becomes one of integers, the same for
// every way to compute the same value. It returns nil if the errors may matter.
func (tc *TC) snapped(a, b *Term, eq bool) *Term {
	x, y := tc.linear(a), tc.linear(b)
	if x == nil || y == nil {
		return nil
	}
	l := y.add(x, true)
	if l == nil {
		return nil
	}
	if len(l.at) == 0 {
		if l.err.Sign() == 0 || new(big.Rat).Abs(l.c).Cmp(l.err) > 0 {
			return tc.Bool(!eq && l.c.Sign() > 0 || eq && l.c.Sign() == 0)
		}
		return nil
	}
	// g is the greatest common divisor of the steps of the atoms
	g := new(big.Rat)
	for i, c := range l.co {
		st := new(big.Rat).Abs(c)
		st.Mul(st, new(big.Rat).SetFrac(bigOne, new(big.Int).Lsh(bigOne, uint(l.at[i].frac))))
		g = ratGCD(g, st)
	}
	e4 := new(big.Rat).Mul(l.err, big.NewRat(4, 1))
	if g.Cmp(e4) <= 0 {
		return nil
	}
	if l.err.Sign() == 0 && len(l.at) == 1 && !eq {
		// exact already
		if a.op == OConst && b == l.at[0] || b.op == OConst && a == l.at[0] {
			return nil
		}
	}
	// in units of g: S + k > e with S an integer
	k := new(big.Rat).Quo(l.c, g)
	e := new(big.Rat).Quo(l.err, g)
	t := new(big.Rat).Neg(k)
	lo := new(big.Rat).Sub(t, e)
	hi := new(big.Rat).Add(t, e)
	// integers in [lo, hi]
	first := ratCeil(lo)
	hasInt := new(big.Rat).SetInt(first).Cmp(hi) <= 0
	if hasInt && e.Sign() != 0 {
		return nil
	}
	// S as a term with the first coefficient positive
	neg := l.co[0].Sign() < 0
	var s *Term
	ig := new(big.Rat).Inv(g)
	for i, c := range l.co {
		q := new(big.Rat).Mul(c, ig)
		if neg {
			q.Neg(q)
		}
		m := tc.realRaw(ORMul, tc.Real(q), l.at[i])
		if s == nil {
			s = m
		} else {
			s = tc.realRaw(ORAdd, s, m)
		}
	}
	if hasInt { // no errors: compare with the integer or not
		if neg {
			t.Neg(t)
		}
		c := tc.Real(t)
		switch {
		case eq && !t.IsInt():
			return tc.False
		case eq:
			return tc.And(tc.Not(tc.rlt(s, c)), tc.Not(tc.rlt(c, s)))
		case neg:
			return tc.rlt(s, c)
		}
		return tc.rlt(c, s)
	}
	if eq {
		return tc.False
	}
	// t is no integer: take a value near it that does not depend on how it was computed
	if neg {
		t.Neg(t)
	}
	q := new(big.Rat).SetInt(ratFloor(new(big.Rat).Mul(t, quantum)))
	q.Quo(q, quantum)
	if q.IsInt() {
		q = t
	}
	if neg { // s < t
		return tc.rlt(s, tc.Real(q))
	}
	return tc.Not(tc.rlt(s, tc.Real(q)))
}

var quantum = big.NewRat(1<<24, 1)

var bigOne = big.NewInt(1)

func ratGCD(a, b *big.Rat) *big.Rat {
	if a.Sign() == 0 {
		return b
	}
	n := new(big.Int).GCD(nil, nil, new(big.Int).Mul(a.Num(), b.Denom()), new(big.Int).Mul(b.Num(), a.Denom()))
	return new(big.Rat).SetFrac(n, new(big.Int).Mul(a.Denom(), b.Denom()))
}

func ratFloor(r *big.Rat) *big.Int {
	q, m := new(big.Int).DivMod(r.Num(), r.Denom(), new(big.Int))
	_ = m
	return q
}

func ratCeil(r *big.Rat) *big.Int {
	return new(big.Int).Neg(ratFloor(new(big.Rat).Neg(r)))
}
