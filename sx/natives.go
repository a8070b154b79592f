package sx

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"go/types"
	"io"
	"math"
	"math/bits"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// tokenMark starts every numeral that stands for a symbolic number.
const tokenMark = "7710"

func (m *Machine) noSpec() {
	if m.spec > 0 {
		panic(specAbort{"effect"})
	}
}

func (m *Machine) cstr(v Value) string {
	s, ok := concStr(v)
	if !ok {
		b := strBytes(v)
		bs := make([]byte, len(b))
		for i := range b {
			bs[i] = byte(m.conc(b[i], 8))
		}
		return string(bs)
	}
	return s
}

func sliceOf(v Value) []Value {
	s, _ := v.p.(Slice)
	return s
}

// bytesOf returns the bytes of a string or byte slice.
func bytesOf(v Value) []Value {
	switch x := v.p.(type) {
	case Slice:
		return x
	}
	return strBytes(v)
}

func concBytes(b []Value) ([]byte, bool) {
	r := make([]byte, len(b))
	for i := range b {
		if b[i].p != nil {
			return nil, false
		}
		r[i] = byte(b[i].n)
	}
	return r, true
}

func mkBytes(b []byte) Value {
	s := make(Slice, len(b))
	for i := range b {
		s[i].n = uint64(b[i])
	}
	return Value{p: s}
}

func mkStrs(ss []string) Value {
	s := make(Slice, len(ss))
	for i := range ss {
		s[i] = mkStrC(ss[i])
	}
	return Value{p: s}
}

func tuple(vs ...Value) Value { return Value{p: Tuple(vs)} }

func (m *Machine) bool1(v Value) *Term { return m.term(v, tk{kBool, 0, false}) }

var kByte = tk{kInt, 8, false}

// mkError makes an errors.New value.
func (m *Machine) mkError(s string) Value {
	cell := &Value{p: Agg{mkStrC(s)}}
	return Value{p: &Iface{m.P.types.get(m.P.tErrorStr), Value{p: cell}}}
}

func (m *Machine) bytesEq(x, y []Value) *Term {
	if len(x) != len(y) {
		return m.tc.False
	}
	r := m.tc.True
	for i := range x {
		r = m.tc.And(r, m.tc.Eq(m.term(x[i], kByte), m.term(y[i], kByte)))
		if r == m.tc.False {
			break
		}
	}
	return r
}

// index as a nested if-then-else over the conditions.
func (m *Machine) firstTrue(cs []*Term) Value {
	tc := m.tc
	r := tc.BV(^uint64(0), 64)
	for i := len(cs) - 1; i >= 0; i-- {
		r = tc.Ite(cs[i], tc.BV(uint64(i), 64), r)
	}
	return fromTerm(r)
}

func (m *Machine) lastTrue(cs []*Term) Value {
	tc := m.tc
	r := tc.BV(^uint64(0), 64)
	for i := 0; i < len(cs); i++ {
		r = tc.Ite(cs[i], tc.BV(uint64(i), 64), r)
	}
	return fromTerm(r)
}

func (m *Machine) indexByte(b []Value, c Value) []*Term {
	cs := make([]*Term, len(b))
	ct := m.term(c, kByte)
	for i := range b {
		cs[i] = m.tc.Eq(m.term(b[i], kByte), ct)
		if k, ok := m.known(cs[i]); ok {
			cs[i] = m.tc.Bool(k)
		}
	}
	return cs
}

func (m *Machine) indexSub(b, sub []Value) []*Term {
	n := len(b) - len(sub) + 1
	if n <= 0 {
		return nil
	}
	cs := make([]*Term, n)
	for i := range cs {
		cs[i] = m.bytesEq(b[i:i+len(sub)], sub)
		if k, ok := m.known(cs[i]); ok {
			cs[i] = m.tc.Bool(k)
		}
	}
	return cs
}

func (m *Machine) token(t *Term) string {
	for s, u := range m.tokens {
		if u == t {
			return s
		}
	}
	m.ntok++
	s := fmt.Sprintf("%s%03d", tokenMark, m.ntok)
	m.tokens[s] = t
	return s
}

// isASCII tells whether every byte is known to be ASCII.
func (m *Machine) isASCII(b []Value) bool {
	for i := range b {
		if t := b[i].sym(); t != nil {
			if t.uhi >= 0x80 {
				if k, ok := m.known(m.tc.Ult(t, m.tc.BV(0x80, 8))); !ok || !k {
					return false
				}
			}
		} else if b[i].n >= 0x80 {
			return false
		}
	}
	return true
}

func (m *Machine) mapBytes(b []Value, lo, hi byte, delta uint64) Value {
	tc := m.tc
	out := make([]Value, len(b))
	for i := range b {
		if t := b[i].sym(); t != nil {
			in := tc.And(tc.Ule(tc.BV(uint64(lo), 8), t), tc.Ule(t, tc.BV(uint64(hi), 8)))
			out[i] = fromTerm(tc.Ite(in, tc.bv2(OBvAdd, t, tc.BV(delta, 8)), t))
		} else if c := byte(b[i].n); c >= lo && c <= hi {
			out[i] = Value{n: uint64(c+byte(delta)) & 0xff}
		} else {
			out[i] = b[i]
		}
	}
	return mkStr(out)
}

func (m *Machine) absTerm(t *Term) *Term {
	if t.lo >= 0 {
		return t
	}
	tc := m.tc
	return tc.Ite(tc.RLt(t, tc.Real(ratZero)), tc.realRaw(ORSub, tc.Real(ratZero), t), t)
}

// bvToReal converts a bounded non-negative bit-vector to a real.
func (m *Machine) bvToReal(t *Term) *Term {
	tc := m.tc
	if t.op == OConst {
		return tc.RealF(float64(t.c))
	}
	n := bits.Len64(t.uhi)
	if n > 20 {
		return nil
	}
	sum := tc.Real(ratZero)
	for i := 0; i < n; i++ {
		bit := tc.bv2(OBvAnd, tc.bv2(OBvLshr, t, tc.BV(uint64(i), t.s)), tc.BV(1, t.s))
		c := tc.Eq(bit, tc.BV(1, t.s))
		sum = tc.realRaw(ORAdd, sum, tc.Ite(c, tc.RealF(float64(uint64(1)<<uint(i))), tc.Real(ratZero)))
	}
	return sum
}

// floorTerm splits the path by the integral part of a real.
func (m *Machine) floorTerm(t *Term) float64 {
	tc := m.tc
	atLeast := func(k float64) bool { return m.decide(tc.RLe(tc.RealF(k), t)) }
	lo, hi := 0.0, 1.0 // lo <= t < hi
	if atLeast(0) {
		for atLeast(hi) {
			if lo, hi = hi, 2*hi; hi > 1<<24 {
				m.unsupported("integral part of a large symbolic value")
			}
		}
	} else {
		lo, hi = -1, 0
		for !atLeast(lo) {
			if hi, lo = lo, 2*lo; lo < -(1 << 24) {
				m.unsupported("integral part of a large symbolic value")
			}
		}
	}
	for hi-lo > 1 {
		if k := math.Floor((lo + hi) / 2); atLeast(k) {
			lo = k
		} else {
			hi = k
		}
	}
	return lo
}

// integral applies a rounding function to a real.
func (m *Machine) integral(name string, t *Term) float64 {
	tc := m.tc
	neg := func() *Term { return tc.realRaw(ORSub, tc.Real(ratZero), t) }
	half := func(t *Term) *Term { return tc.realRaw(ORAdd, t, tc.RealF(0.5)) }
	switch {
	case name == "Floor":
		return m.floorTerm(t)
	case name == "Ceil":
		return 0 - m.floorTerm(neg())
	case !m.decide(tc.RLt(t, tc.Real(ratZero))):
		if name == "Round" {
			t = half(t)
		}
		return m.floorTerm(t)
	default:
		n := neg()
		if name == "Round" {
			n = half(n)
		}
		return 0 - m.floorTerm(n)
	}
}

const symPkg = "github.com/mazzegi/xpdf/zzverif/sym."

func nativeTable() map[string]native {
	N := map[string]native{}
	symNatives(N)
	byteNatives(N)
	stringNatives(N)
	strconvNatives(N)
	syncNatives(N)
	osNatives(N)
	miscNatives(N)
	reflectNatives(N)
	jsonNatives(N)
	return N
}

func symNatives(N map[string]native) {
	reg := func(name string, f func(m *Machine, a []Value) Value) {
		N[symPkg+name] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
			return f(m, a), true
		}
	}
	intIn := func(m *Machine, a []Value, w uint8) Value {
		m.noSpec()
		lo, hi := int64(m.conc(a[1], 64)), int64(m.conc(a[2], 64))
		return fromTerm(m.freshInt(m.cstr(a[0]), lo, hi, w))
	}
	reg("Int", func(m *Machine, a []Value) Value { return intIn(m, a, 64) })
	reg("Byte", func(m *Machine, a []Value) Value { return intIn(m, a, 8) })
	reg("Choose", func(m *Machine, a []Value) Value {
		m.noSpec()
		n := int(m.conc(a[1], 64))
		if n <= 1 {
			m.uniq(m.cstr(a[0]))
			return Value{}
		}
		return mkInt(m.choose(m.cstr(a[0]), n))
	})
	reg("Bool", func(m *Machine, a []Value) Value {
		m.noSpec()
		t := m.freshInt(m.cstr(a[0]), 0, 1, 1)
		return fromTerm(m.tc.Eq(t, m.tc.BV(1, 1)))
	})
	reg("Float", func(m *Machine, a []Value) Value {
		m.noSpec()
		return fromTerm(m.freshFloat(m.cstr(a[0]), a[1].f64(), a[2].f64(), int(a[3].n)))
	})
	oneOf := func(m *Machine, name, set string) Value {
		t := m.freshInt(name, 0, int64(len(set)-1), 64)
		if t.op == OConst {
			return Value{n: uint64(set[0])}
		}
		cont := true
		for i := range set {
			if set[i] != set[0]+byte(i) {
				cont = false
			}
		}
		if cont {
			r := m.tc.bv2(OBvAdd, m.tc.Trunc(t, 8), m.tc.BV(uint64(set[0]), 8))
			return fromTerm(r)
		}
		return m.selectElem(strBytes(mkStrC(set)), t, kByte)
	}
	reg("OneOf", func(m *Machine, a []Value) Value {
		m.noSpec()
		return oneOf(m, m.cstr(a[0]), m.cstr(a[1]))
	})
	reg("Str", func(m *Machine, a []Value) Value {
		m.noSpec()
		n := int(m.conc(a[1], 64))
		b := make([]Value, n)
		for i := range b {
			b[i] = oneOf(m, m.cstr(a[0]), m.cstr(a[2]))
		}
		return mkStr(b)
	})
	reg("FloatText", func(m *Machine, a []Value) Value {
		if t := a[0].sym(); t != nil {
			return mkStrC(m.token(t))
		}
		return mkStrC(strconv.FormatFloat(a[0].f64(), 'f', -1, 64))
	})
	reg("IntText", func(m *Machine, a []Value) Value {
		if t := a[0].sym(); t != nil {
			return mkStrC(m.token(t))
		}
		return mkStrC(strconv.Itoa(int(a[0].n)))
	})
	reg("Assume", func(m *Machine, a []Value) Value {
		m.noSpec()
		m.assume(m.bool1(a[0]))
		return Value{}
	})
	reg("Assert", func(m *Machine, a []Value) Value {
		m.noSpec()
		t := m.bool1(a[0])
		m.assert(t, m.cstr(a[1]), m.weaken(t))
		return Value{}
	})
	reg("Reach", func(m *Machine, a []Value) Value {
		m.noSpec()
		m.reach[m.cstr(a[0])] = true
		return Value{}
	})
	reg("Note", func(m *Machine, a []Value) Value { return Value{} })
	for n, k := range map[string]string{"ObserveF": "f", "ObserveI": "i", "ObserveS": "s"} {
		reg(n, func(m *Machine, a []Value) Value {
			m.noSpec()
			m.obs = append(m.obs, obs{m.cstr(a[0]), k, a[1]})
			return Value{}
		})
	}
	reg("ObserveB", func(m *Machine, a []Value) Value {
		m.noSpec()
		v := a[1]
		if t := v.sym(); t != nil {
			v = fromTerm(m.tc.Ite(t, m.tc.BV(1, 64), m.tc.BV(0, 64)))
		}
		m.obs = append(m.obs, obs{m.cstr(a[0]), "i", v})
		return Value{}
	})
	reg("And", func(m *Machine, a []Value) Value {
		r := m.tc.True
		for _, v := range sliceOf(a[0]) {
			r = m.tc.And(r, m.bool1(v))
		}
		return fromTerm(r)
	})
	reg("Or", func(m *Machine, a []Value) Value {
		r := m.tc.False
		for _, v := range sliceOf(a[0]) {
			r = m.tc.Or(r, m.bool1(v))
		}
		return fromTerm(r)
	})
	reg("Not", func(m *Machine, a []Value) Value { return fromTerm(m.tc.Not(m.bool1(a[0]))) })
	reg("Implies", func(m *Machine, a []Value) Value {
		return fromTerm(m.tc.Or(m.tc.Not(m.bool1(a[0])), m.bool1(a[1])))
	})
	reg("Iff", func(m *Machine, a []Value) Value { return fromTerm(m.tc.Eq(m.bool1(a[0]), m.bool1(a[1]))) })
	reg("EqS", func(m *Machine, a []Value) Value { return fromTerm(m.strEq(a[0], a[1])) })
	kf := tk{kF64, 64, true}
	leq := func(m *Machine, x, y Value) *Term {
		d := m.tc.realRaw(ORSub, m.term(x, kf), m.term(y, kf))
		t := m.tc.RLe(d, m.tc.RealF(1e-6))
		if t.op != OConst {
			if m.weakOf == nil {
				m.weakOf = map[*Term]*Term{}
			}
			m.weakOf[t] = m.tc.RLe(d, m.tc.RealF(0.01))
		}
		return t
	}
	reg("Near", func(m *Machine, a []Value) Value {
		if a[0].p == nil && a[1].p == nil {
			return mkBool(math.Abs(a[0].f64()-a[1].f64()) <= 1e-6)
		}
		return fromTerm(m.tc.And(leq(m, a[0], a[1]), leq(m, a[1], a[0])))
	})
	reg("Leq", func(m *Machine, a []Value) Value {
		if a[0].p == nil && a[1].p == nil {
			return mkBool(a[0].f64() <= a[1].f64()+1e-6)
		}
		return fromTerm(leq(m, a[0], a[1]))
	})
	ite := func(k tk) func(m *Machine, a []Value) Value {
		return func(m *Machine, a []Value) Value {
			t := m.bool1(a[0])
			if b, ok := m.known(t); ok {
				if b {
					return a[1]
				}
				return a[2]
			}
			return fromTerm(m.tc.Ite(t, m.term(a[1], k), m.term(a[2], k)))
		}
	}
	reg("IteF", ite(kf))
	reg("IteI", ite(tk{kInt, 64, true}))
	minmax := func(max bool) func(m *Machine, a []Value) Value {
		return func(m *Machine, a []Value) Value {
			x, y := m.term(a[0], kf), m.term(a[1], kf)
			c := m.tc.RLt(y, x)
			if !max {
				c = m.tc.RLt(x, y)
			}
			return fromTerm(m.tc.Ite(c, x, y))
		}
	}
	reg("MaxF", minmax(true))
	reg("MinF", minmax(false))
	reg("Conc", func(m *Machine, a []Value) Value { return Value{n: m.conc(a[0], 64)} })
	reg("MapOrder", func(m *Machine, a []Value) Value { m.noSpec(); m.mapNondet = a[0].n != 0; return Value{} })
	reg("NoMerge", func(m *Machine, a []Value) Value { m.noSpec(); m.noMerge = a[0].n != 0; return Value{} })
	reg("Symbolic", func(m *Machine, a []Value) Value { return mkBool(true) })
	reg("Tier", func(m *Machine, a []Value) Value { return mkInt(m.w.ex.Tier) })
	reg("Inflate", func(m *Machine, a []Value) Value {
		m.noSpec()
		b, ok := concBytes(sliceOf(a[0]))
		if !ok {
			m.unsupported("compressed data is symbolic")
		}
		r, err := zlib.NewReader(bytes.NewReader(b))
		if err != nil {
			return Value{}
		}
		out, _ := io.ReadAll(r)
		return mkBytes(out)
	})
	reg("Scratch", func(m *Machine, a []Value) Value {
		m.noSpec()
		d := "/scratch/" + m.uniq("dir")
		m.files[d] = vdir{}
		return mkStrC(d)
	})
	delete(N, symPkg+"Main")
}

// weaken replaces the near comparisons of t by ones with a larger tolerance; nil if there are none.
func (m *Machine) weaken(t *Term) *Term {
	if len(m.weakOf) == 0 {
		return nil
	}
	memo := map[*Term]*Term{}
	changed := false
	var sub func(t *Term) *Term
	sub = func(t *Term) *Term {
		if w, ok := m.weakOf[t]; ok {
			changed = true
			return w
		}
		if t.s != SBool {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		switch t.op {
		case ONot:
			r = m.tc.Not(sub(t.a[0]))
		case OAnd:
			r = m.tc.And(sub(t.a[0]), sub(t.a[1]))
		case OOr:
			r = m.tc.Or(sub(t.a[0]), sub(t.a[1]))
		case OIte:
			r = m.tc.Ite(sub(t.a[0]), sub(t.a[1]), sub(t.a[2]))
		}
		memo[t] = r
		return r
	}
	w := sub(t)
	if !changed {
		return nil
	}
	return w
}

func byteNatives(N map[string]native) {
	p := "internal/bytealg."
	ib := func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		b := bytesOf(a[0])
		return m.firstTrue(m.indexByte(b, a[1])), true
	}
	N[p+"IndexByte"], N[p+"IndexByteString"] = ib, ib
	lb := func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		return m.lastTrue(m.indexByte(bytesOf(a[0]), a[1])), true
	}
	N[p+"LastIndexByte"], N[p+"LastIndexByteString"] = lb, lb
	cnt := func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		tc := m.tc
		r := tc.BV(0, 64)
		for _, c := range m.indexByte(bytesOf(a[0]), a[1]) {
			r = tc.bv2(OBvAdd, r, tc.Ite(c, tc.BV(1, 64), tc.BV(0, 64)))
		}
		return fromTerm(r), true
	}
	N[p+"Count"], N[p+"CountString"] = cnt, cnt
	ix := func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		return m.firstTrue(m.indexSub(bytesOf(a[0]), bytesOf(a[1]))), true
	}
	N[p+"Index"], N[p+"IndexString"] = ix, ix
	eq := func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		return fromTerm(m.bytesEq(bytesOf(a[0]), bytesOf(a[1]))), true
	}
	N[p+"Equal"], N["bytes.Equal"] = eq, eq
	cmp := func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		x, y := bytesOf(a[0]), bytesOf(a[1])
		tc := m.tc
		r := uint64(0)
		if len(x) < len(y) {
			r = ^uint64(0)
		} else if len(x) > len(y) {
			r = 1
		}
		t := tc.BV(r, 64)
		n := len(x)
		if len(y) < n {
			n = len(y)
		}
		for i := n - 1; i >= 0; i-- {
			p, q := m.term(x[i], kByte), m.term(y[i], kByte)
			t = tc.Ite(tc.Ult(p, q), tc.BV(^uint64(0), 64), tc.Ite(tc.Eq(p, q), t, tc.BV(1, 64)))
		}
		return fromTerm(t), true
	}
	N[p+"Compare"], N[p+"CompareString"], N["strings.Compare"], N["cmp.Compare[string]"] = cmp, cmp, cmp, cmp
	N[p+"MakeNoZero"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		n := int(m.conc(a[0], 64))
		return Value{p: make(Slice, n, roundCap(n, 1))}, true
	}
}

func stringNatives(N map[string]native) {
	allC := func(a []Value) ([]string, bool) {
		r := make([]string, len(a))
		for i := range a {
			s, ok := concStr(a[i])
			if !ok {
				return nil, false
			}
			r[i] = s
		}
		return r, true
	}
	ss := func(name string, f func(a, b string) Value) {
		N["strings."+name] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
			if s, ok := allC(a); ok {
				return f(s[0], s[1]), true
			}
			return Value{}, false
		}
	}
	s1 := func(name string, f func(a string) Value) {
		N["strings."+name] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
			if s, ok := allC(a); ok {
				return f(s[0]), true
			}
			return Value{}, false
		}
	}
	ss("HasPrefix", func(a, b string) Value { return mkBool(strings.HasPrefix(a, b)) })
	ss("HasSuffix", func(a, b string) Value { return mkBool(strings.HasSuffix(a, b)) })
	ss("Split", func(a, b string) Value { return mkStrs(strings.Split(a, b)) })
	ss("Trim", func(a, b string) Value { return mkStrC(strings.Trim(a, b)) })
	ss("TrimLeft", func(a, b string) Value { return mkStrC(strings.TrimLeft(a, b)) })
	ss("TrimRight", func(a, b string) Value { return mkStrC(strings.TrimRight(a, b)) })
	ss("TrimPrefix", func(a, b string) Value { return mkStrC(strings.TrimPrefix(a, b)) })
	ss("TrimSuffix", func(a, b string) Value { return mkStrC(strings.TrimSuffix(a, b)) })
	ss("LastIndex", func(a, b string) Value { return mkInt(strings.LastIndex(a, b)) })
	ss("IndexAny", func(a, b string) Value { return mkInt(strings.IndexAny(a, b)) })
	ss("ContainsAny", func(a, b string) Value { return mkBool(strings.ContainsAny(a, b)) })
	ss("Count", func(a, b string) Value { return mkInt(strings.Count(a, b)) })
	ss("EqualFold", func(a, b string) Value { return mkBool(strings.EqualFold(a, b)) })
	s1("TrimSpace", func(a string) Value { return mkStrC(strings.TrimSpace(a)) })
	s1("Fields", func(a string) Value { return mkStrs(strings.Fields(a)) })
	s1("ToUpper", func(a string) Value { return mkStrC(strings.ToUpper(a)) })
	s1("ToLower", func(a string) Value { return mkStrC(strings.ToLower(a)) })
	lower := N["strings.ToLower"]
	N["strings.ToLower"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		if v, ok := lower(m, fn, a); ok {
			return v, true
		}
		if b := strBytes(a[0]); m.isASCII(b) {
			return m.mapBytes(b, 'A', 'Z', 32), true
		}
		return Value{}, false
	}
	upper := N["strings.ToUpper"]
	N["strings.ToUpper"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		if v, ok := upper(m, fn, a); ok {
			return v, true
		}
		if b := strBytes(a[0]); m.isASCII(b) {
			return m.mapBytes(b, 'a', 'z', 0xe0), true
		}
		return Value{}, false
	}
	idx := func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		if s, ok := allC(a); ok {
			return mkInt(strings.Index(s[0], s[1])), true
		}
		return m.firstTrue(m.indexSub(strBytes(a[0]), strBytes(a[1]))), true
	}
	N["strings.Index"] = idx
	N["strings.Contains"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		if s, ok := allC(a); ok {
			return mkBool(strings.Contains(s[0], s[1])), true
		}
		r := m.tc.False
		for _, c := range m.indexSub(strBytes(a[0]), strBytes(a[1])) {
			r = m.tc.Or(r, c)
		}
		return fromTerm(r), true
	}
	repl := func(m *Machine, a []Value, n int) (Value, bool) {
		if s, ok := allC(a[:3]); ok {
			return mkStrC(strings.Replace(s[0], s[1], s[2], n)), true
		}
		o, ok1 := concStr(a[1])
		w, ok2 := concStr(a[2])
		if ok1 && ok2 && n < 0 && len(o) == 1 && len(w) == 1 {
			b := strBytes(a[0])
			out := make([]Value, len(b))
			for i := range b {
				t := m.term(b[i], kByte)
				out[i] = fromTerm(m.tc.Ite(m.tc.Eq(t, m.tc.BV(uint64(o[0]), 8)), m.tc.BV(uint64(w[0]), 8), t))
			}
			return mkStr(out), true
		}
		return Value{}, false
	}
	N["strings.Replace"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		return repl(m, a, int(int64(m.conc(a[3], 64))))
	}
	N["strings.ReplaceAll"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		return repl(m, a, -1)
	}
	N["strings.Join"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		var r Value
		for i, s := range sliceOf(a[0]) {
			if i > 0 {
				r = strCat(r, a[1])
			}
			r = strCat(r, s)
		}
		return r, true
	}
	N["strings.Repeat"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		n := int64(m.conc(a[1], 64))
		if s, ok := concStr(a[0]); ok && n >= 0 && n*int64(len(s)) < 1<<22 {
			return mkStrC(strings.Repeat(s, int(n))), true
		}
		return Value{}, false
	}
	N["strings.Clone"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) { return a[0], true }
	N["internal/stringslite.Clone"] = N["strings.Clone"]
	N["(*strings.Builder).String"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		if c, ok := a[0].p.(*Value); ok {
			if ag, ok := c.p.(Agg); ok && len(ag) == 2 {
				return mkStr(sliceOf(ag[1])), true
			}
		}
		return Value{}, false
	}
	N["bytes.Clone"] = nil
	delete(N, "bytes.Clone")

	u := "unicode/utf8."
	N[u+"DecodeRuneInString"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		if s, ok := concStr(a[0]); ok {
			r, n := utf8.DecodeRuneInString(s)
			return tuple(Value{n: uint64(uint32(r))}, mkInt(n)), true
		}
		return Value{}, false
	}
	dec := func(b []Value) (rune, int, bool) {
		if len(b) > 4 {
			b = b[:4]
		}
		bs := make([]byte, len(b))
		for i := range b {
			if b[i].p != nil {
				if i > 0 && bs[0] < 0x80 {
					bs = bs[:i]
					break
				}
				return 0, 0, false
			}
			bs[i] = byte(b[i].n)
		}
		r, n := utf8.DecodeRune(bs)
		return r, n, true
	}
	N[u+"DecodeRune"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		if r, n, ok := dec(sliceOf(a[0])); ok {
			return tuple(Value{n: uint64(uint32(r))}, mkInt(n)), true
		}
		return Value{}, false
	}
	N[u+"RuneCountInString"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		if s, ok := concStr(a[0]); ok {
			return mkInt(utf8.RuneCountInString(s)), true
		}
		if b := strBytes(a[0]); m.isASCII(b) {
			return mkInt(len(b)), true
		}
		return Value{}, false
	}
	N[u+"ValidString"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		if s, ok := concStr(a[0]); ok {
			return mkBool(utf8.ValidString(s)), true
		}
		if b := strBytes(a[0]); m.isASCII(b) {
			return mkBool(true), true
		}
		return Value{}, false
	}
	N["bufio.ScanLines"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		// a fast path for concrete input; the source is interpreted otherwise
		d := sliceOf(a[0])
		if len(d) == 0 || a[1].p != nil {
			return Value{}, false
		}
		for i := range d {
			if d[i].p != nil {
				return Value{}, false
			}
			if d[i].n == '\n' {
				j := i
				if j > 0 && d[j-1].n == '\r' {
					j--
				}
				return tuple(mkInt(i+1), Value{p: d2(d, j)}, Value{}), true
			}
		}
		return Value{}, false
	}
}

func d2(d []Value, j int) Slice { return Slice(d[0:j]) }

func strconvNatives(N map[string]native) {
	tok := func(m *Machine, v Value) *Term {
		if s, ok := concStr(v); ok && strings.HasPrefix(s, tokenMark) {
			return m.tokens[s]
		}
		return nil
	}
	N["strconv.ParseFloat"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		if t := tok(m, a[0]); t != nil {
			if t.s == SReal {
				return tuple(fromTerm(t), Value{}), true
			}
			if r := m.bvToReal(t); r != nil {
				return tuple(fromTerm(r), Value{}), true
			}
			return tuple(mkF64(float64(int64(m.concTerm(t)))), Value{}), true
		}
		s := m.cstr(a[0])
		a[0] = mkStrC(s)
		if f, err := strconv.ParseFloat(s, int(a[1].n)); err == nil {
			return tuple(mkF64(f), Value{}), true
		}
		return Value{}, false
	}
	N["internal/strconv.ParseFloat"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		s := m.cstr(a[0])
		a[0] = mkStrC(s)
		return Value{}, false
	}
	N["strconv.ParseInt"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		if t := tok(m, a[0]); t != nil {
			if t.s != SReal {
				return tuple(fromTerm(t), Value{}), true
			}
			m.unsupported("integer parse of a symbolic float")
		}
		if s, ok := concStr(a[0]); ok {
			if n, err := strconv.ParseInt(s, int(int64(a[1].n)), int(int64(a[2].n))); err == nil {
				return tuple(Value{n: uint64(n)}, Value{}), true
			}
		}
		return Value{}, false
	}
	N["strconv.Atoi"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		if t := tok(m, a[0]); t != nil {
			if t.s != SReal {
				return tuple(fromTerm(t), Value{}), true
			}
			m.unsupported("integer parse of a symbolic float")
		}
		if s, ok := concStr(a[0]); ok {
			if n, err := strconv.Atoi(s); err == nil {
				return tuple(mkInt(n), Value{}), true
			}
		}
		return Value{}, false
	}
	N["strconv.ParseUint"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		if t := tok(m, a[0]); t != nil {
			if t.s != SReal && t.uhi < 1<<62 {
				return tuple(fromTerm(t), Value{}), true
			}
			m.unsupported("unsigned parse of a symbolic number")
		}
		if s, ok := concStr(a[0]); ok {
			if n, err := strconv.ParseUint(s, int(int64(a[1].n)), int(int64(a[2].n))); err == nil {
				return tuple(Value{n: n}, Value{}), true
			}
		}
		return Value{}, false
	}
	itoa := func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		n := int64(m.conc(a[0], 64))
		base := 10
		if len(a) > 1 {
			base = int(a[1].n)
		}
		return mkStrC(strconv.FormatInt(n, base)), true
	}
	N["strconv.Itoa"], N["strconv.FormatInt"] = itoa, itoa
	N["strconv.FormatUint"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		return mkStrC(strconv.FormatUint(m.conc(a[0], 64), int(a[1].n))), true
	}
	N["strconv.AppendInt"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		m.noSpec()
		s := strconv.FormatInt(int64(m.conc(a[1], 64)), int(a[2].n))
		return Value{p: m.appendVals(sliceOf(a[0]), types.Typ[types.Byte], strBytes(mkStrC(s)))}, true
	}
	fmtF := func(m *Machine, v Value, f byte, prec, bs int) string {
		if t := v.sym(); t != nil {
			return m.token(t)
		}
		return strconv.FormatFloat(v.f64(), f, prec, bs)
	}
	N["strconv.FormatFloat"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		return mkStrC(fmtF(m, a[0], byte(a[1].n), int(int64(a[2].n)), int(a[3].n))), true
	}
	N["strconv.AppendFloat"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		m.noSpec()
		s := fmtF(m, a[1], byte(a[2].n), int(int64(a[3].n)), int(a[4].n))
		return Value{p: m.appendVals(sliceOf(a[0]), types.Typ[types.Byte], strBytes(mkStrC(s)))}, true
	}
	N["strconv.Quote"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		if s, ok := concStr(a[0]); ok {
			return mkStrC(strconv.Quote(s)), true
		}
		// only error messages quote symbolic text
		return strCat(strCat(mkStrC("\""), a[0]), mkStrC("\"")), true
	}
	N["(*fmt.fmt).fmtInteger"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		a[1] = Value{n: m.conc(a[1], 64)}
		return Value{}, false
	}
	N["(*fmt.fmt).fmtQ"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		if _, ok := concStr(a[1]); ok {
			return Value{}, false
		}
		m.noSpec()
		// *fmt.fmt: append the quoted text to the buffer
		f := a[0].p.(*Value).p.(Agg)
		buf := f[0].p.(*Value)
		q := strBytes(strCat(strCat(mkStrC("\""), a[1]), mkStrC("\"")))
		*buf = Value{p: m.appendVals(sliceOf(*buf), types.Typ[types.Byte], q)}
		return Value{}, true
	}
	// fmt
	sprintf := func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		f, ok := concStr(a[0])
		if !ok {
			return Value{}, false
		}
		return m.fastSprintf(f, sliceOf(a[1]))
	}
	N["fmt.Sprintf"] = sprintf
	none := func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		return tuple(Value{}, Value{}), true
	}
	N["fmt.Printf"], N["fmt.Println"], N["fmt.Print"] = none, none, none
}

// fastSprintf handles plain %s, %d, %q and %v of strings and integers.
func (m *Machine) fastSprintf(f string, args []Value) (Value, bool) {
	var out Value
	k := 0
	for len(f) > 0 {
		i := strings.IndexByte(f, '%')
		if i < 0 {
			out = strCat(out, mkStrC(f))
			break
		}
		out = strCat(out, mkStrC(f[:i]))
		if i+1 >= len(f) {
			return Value{}, false
		}
		verb := f[i+1]
		f = f[i+2:]
		prec := -1
		if verb == '.' && len(f) > 1 && f[0] >= '0' && f[0] <= '9' && f[1] == 'f' {
			prec, verb, f = int(f[0]-'0'), 'f', f[2:]
		}
		if verb == '%' {
			out = strCat(out, mkStrC("%"))
			continue
		}
		if k >= len(args) {
			return Value{}, false
		}
		ifc, ok := args[k].p.(*Iface)
		k++
		if !ok {
			return Value{}, false
		}
		b, ok := ifc.t.t.(*types.Basic)
		if !ok {
			return Value{}, false
		}
		switch {
		case b.Kind() == types.Float64 && verb == 'f' && prec >= 0:
			// a symbolic number keeps its exact value: readers must allow for rounding
			if t := ifc.v.sym(); t != nil {
				out = strCat(out, mkStrC(m.token(t)))
			} else {
				out = strCat(out, mkStrC(strconv.FormatFloat(ifc.v.f64(), 'f', prec, 64)))
			}
		case b.Kind() == types.String && (verb == 's' || verb == 'v'):
			out = strCat(out, ifc.v)
		case b.Kind() == types.Int && (verb == 'd' || verb == 'v'):
			out = strCat(out, mkStrC(strconv.FormatInt(int64(m.conc(ifc.v, 64)), 10)))
		case b.Kind() == types.String && verb == 'q':
			if s, ok := concStr(ifc.v); ok {
				out = strCat(out, mkStrC(strconv.Quote(s)))
			} else {
				out = strCat(strCat(strCat(out, mkStrC("\"")), ifc.v), mkStrC("\""))
			}
		default:
			return Value{}, false
		}
	}
	if k != len(args) {
		return Value{}, false
	}
	return out, true
}

func syncNatives(N map[string]native) {
	nop := func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) { return Value{}, true }
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock",
		"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.Pool).Put", "runtime.KeepAlive", "runtime.GC",
		"(*internal/sync.Mutex).Lock", "(*internal/sync.Mutex).Unlock", "runtime.SetFinalizer"} {
		N[n] = nop
	}
	N["(*sync.Mutex).TryLock"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) { return mkBool(true), true }
	N["(*sync.Pool).Get"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		ag := a[0].p.(*Value).p.(Agg)
		nf := ag[len(ag)-1]
		if nf.p == nil {
			return Value{}, true
		}
		return m.callValue(nf, nil, nil, nil), true
	}
	// sync.Map as an ordinary map
	sm := func(m *Machine, p Value) *MapV {
		c := p.p.(*Value)
		if m.side == nil {
			m.side = map[*Value]any{}
		}
		if x, ok := m.side[c].(*MapV); ok {
			return x
		}
		x := &MapV{idx: map[string]int{}, kt: types.NewInterfaceType(nil, nil)}
		m.side[c] = x
		return x
	}
	N["(*sync.Map).Load"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		mv := sm(m, a[0])
		if i := m.mapFind(mv, a[1]); i >= 0 {
			return tuple(mv.vals[i], mkBool(true)), true
		}
		return tuple(Value{}, Value{}), true
	}
	N["(*sync.Map).Store"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		m.noSpec()
		m.mapSet(sm(m, a[0]), a[1], a[2])
		return Value{}, true
	}
	N["(*sync.Map).LoadOrStore"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		m.noSpec()
		mv := sm(m, a[0])
		if i := m.mapFind(mv, a[1]); i >= 0 {
			return tuple(mv.vals[i], mkBool(true)), true
		}
		m.mapSet(mv, a[1], a[2])
		return tuple(a[2], Value{}), true
	}
	cell := func(m *Machine, v Value) *Value {
		c, ok := v.p.(*Value)
		if !ok {
			m.runtimePanic("invalid memory address or nil pointer dereference")
		}
		return c
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		w := uint8(64)
		if strings.HasSuffix(t, "32") {
			w = 32
		}
		N["sync/atomic.Load"+t] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) { return *cell(m, a[0]), true }
		N["sync/atomic.Store"+t] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
			m.noSpec()
			*cell(m, a[0]) = a[1]
			return Value{}, true
		}
		N["sync/atomic.Swap"+t] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
			m.noSpec()
			c := cell(m, a[0])
			o := *c
			*c = a[1]
			return o, true
		}
		N["sync/atomic.Add"+t] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
			m.noSpec()
			c := cell(m, a[0])
			*c = Value{n: (m.conc(*c, w) + m.conc(a[1], w)) & mask(w)}
			return *c, true
		}
		N["sync/atomic.CompareAndSwap"+t] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
			m.noSpec()
			c := cell(m, a[0])
			if c.n == a[1].n && ptrEq(*c, a[1]) {
				*c = a[2]
				return mkBool(true), true
			}
			return Value{}, true
		}
	}
	N["(*sync/atomic.Value).Load"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		return cell(m, a[0]).p.(Agg)[0], true
	}
	N["(*sync/atomic.Value).Store"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		m.noSpec()
		cell(m, a[0]).p.(Agg)[0] = a[1]
		return Value{}, true
	}
	id := func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) { return a[0], true }
	for _, n := range []string{"internal/abi.NoEscape", "internal/abi.Escape", "strings.noescape"} {
		N[n] = id
	}
	N["runtime.Callers"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) { return Value{}, true }
	N["runtime.Caller"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		return tuple(Value{}, Value{}, Value{}, Value{}), true
	}
	N["github.com/pkg/errors.callers"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		return Value{p: &Value{}}, true
	}
	N["(*internal/godebug.Setting).Value"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) { return Value{}, true }
	N["(*internal/godebug.Setting).IncNonDefault"] = nop
	N["internal/godebug.New"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		v := zero(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
		return Value{p: &v}, true
	}
	N["internal/race.Enable"], N["internal/race.Disable"] = nop, nop
}

// osFile is the state of an open virtual file.
type osFile struct {
	name   string
	data   []Value
	pos    int
	closed bool
	write  bool
	over   []Value // content being overwritten
}

// vdir marks a directory among the virtual files.
type vdir struct{}

func (m *Machine) cwd() string {
	if d, ok := m.files["."].(string); ok {
		return d
	}
	return "/cwd"
}

// path is the absolute form of a file name.
func (m *Machine) path(v Value) string {
	n := m.cstr(v)
	if !filepath.IsAbs(n) {
		n = m.cwd() + "/" + n
	}
	return filepath.Clean(n)
}

func osNatives(N map[string]native) {
	noent := func(m *Machine, op, name string) Value {
		return m.mkError(op + " " + name + ": no such file or directory")
	}
	read := func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		m.noSpec()
		name := m.path(a[0])
		if d, ok := m.files[name].([]Value); ok {
			c := make(Slice, len(d))
			copy(c, d)
			return tuple(Value{p: c}, Value{}), true
		}
		return tuple(Value{}, noent(m, "open", name)), true
	}
	N["os.ReadFile"], N["io/ioutil.ReadFile"] = read, read
	write := func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		m.noSpec()
		name := m.path(a[0])
		m.files[name] = append([]Value{}, sliceOf(a[1])...)
		return Value{}, true
	}
	N["os.WriteFile"], N["io/ioutil.WriteFile"] = write, write
	ok := func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) { return Value{}, true }
	N["os.RemoveAll"], N["os.Remove"] = ok, ok
	mkdir := func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		m.noSpec()
		for d := m.path(a[0]); d != "/"; d = filepath.Dir(d) {
			m.files[d] = vdir{}
		}
		return Value{}, true
	}
	N["os.MkdirAll"], N["os.Mkdir"] = mkdir, mkdir
	N["os.Chdir"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		m.noSpec()
		m.files["."] = m.path(a[0])
		return Value{}, true
	}
	N["os.Getwd"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		return tuple(mkStrC(m.cwd()), Value{}), true
	}
	N["os.Getpid"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) { return mkInt(1), true }
	N["os.Create"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		m.noSpec()
		name := m.path(a[0])
		_, isDir := m.files[name].(vdir)
		_, inDir := m.files[filepath.Dir(name)].(vdir)
		if isDir || !inDir && filepath.Dir(name) != m.cwd() {
			return tuple(Value{}, noent(m, "open", name)), true
		}
		m.files[name] = []Value{}
		cell := zero(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
		c := &cell
		m.osf(c, &osFile{name: name, write: true})
		return tuple(Value{p: c}, Value{}), true
	}
	N["os.Getenv"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) { return Value{}, true }
	N["os.LookupEnv"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) { return tuple(Value{}, Value{}), true }
	N["os.Open"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		m.noSpec()
		name := m.path(a[0])
		d, ok := m.files[name].([]Value)
		if !ok {
			return tuple(Value{}, noent(m, "open", name)), true
		}
		cell := zero(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
		c := &cell
		m.osf(c, &osFile{name: name, data: d})
		return tuple(Value{p: c}, Value{}), true
	}
	file := func(m *Machine, v Value) *osFile {
		c, ok := v.p.(*Value)
		if !ok {
			m.runtimePanic("invalid memory address or nil pointer dereference")
		}
		f, ok := m.side[c].(*osFile)
		if !ok {
			m.unsupported("unknown *os.File")
		}
		return f
	}
	N["(*os.File).Read"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		m.noSpec()
		f := file(m, a[0])
		if f.closed {
			return tuple(Value{}, m.mkError("read "+f.name+": file already closed")), true
		}
		d := sliceOf(a[1])
		n := copy(d, f.data[f.pos:])
		f.pos += n
		if n == 0 && len(d) > 0 {
			g := m.global(m.P.gidx[m.P.pkgs["io"].Var("EOF")])
			return tuple(Value{}, *g), true
		}
		return tuple(mkInt(n), Value{}), true
	}
	N["os.OpenFile"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		m.noSpec()
		fl := m.conc(a[1], 64)
		name := m.path(a[0])
		if int(fl)&(os.O_WRONLY|os.O_RDWR) == 0 {
			return N["os.Open"](m, m.P.pkgs["os"].Func("Open"), a[:1])
		}
		old, exists := m.files[name].([]Value)
		_, isDir := m.files[name].(vdir)
		_, inDir := m.files[filepath.Dir(name)].(vdir)
		if isDir || !exists && (int(fl)&os.O_CREATE == 0 || !inDir && filepath.Dir(name) != m.cwd()) || exists && int(fl)&os.O_EXCL != 0 {
			return tuple(Value{}, noent(m, "open", name)), true
		}
		f := &osFile{name: name, write: true}
		switch {
		case int(fl)&os.O_TRUNC != 0:
		case int(fl)&os.O_APPEND != 0:
			f.data = append(f.data, old...)
		default:
			f.over = old
		}
		m.files[name] = append(append([]Value{}, f.data...), f.over...)
		cell := zero(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
		c := &cell
		m.osf(c, f)
		return tuple(Value{p: c}, Value{}), true
	}
	put := func(m *Machine, v Value, d []Value) Value {
		m.noSpec()
		f := file(m, v)
		if f.closed || !f.write {
			return tuple(Value{}, m.mkError("write "+f.name+": bad file descriptor"))
		}
		f.data = append(f.data, d...)
		c := append([]Value{}, f.data...)
		if len(f.over) > len(c) {
			c = append(c, f.over[len(c):]...)
		}
		m.files[f.name] = c
		return tuple(mkInt(len(d)), Value{})
	}
	N["(*os.File).Write"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		return put(m, a[0], sliceOf(a[1])), true
	}
	N["(*os.File).WriteString"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		return put(m, a[0], sliceOf(mkBytes([]byte(m.cstr(a[1]))))), true
	}
	N["(*os.File).Sync"] = ok
	N["(*os.File).Close"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		m.noSpec()
		file(m, a[0]).closed = true
		return Value{}, true
	}
	N["(*os.File).Name"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		return mkStrC(file(m, a[0]).name), true
	}
	N["(*os.File).WriteTo"] = nil
	delete(N, "(*os.File).WriteTo")
	N["path/filepath.Join"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		var el []string
		for _, v := range sliceOf(a[0]) {
			s, ok := concStr(v)
			if !ok {
				return Value{}, false
			}
			el = append(el, s)
		}
		return mkStrC(filepath.Join(el...)), true
	}
	c1 := func(f func(string) string) native {
		return func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
			if s, ok := concStr(a[0]); ok {
				return mkStrC(f(s)), true
			}
			return Value{}, false
		}
	}
	N["path/filepath.Clean"], N["path/filepath.Dir"], N["path/filepath.Base"] = c1(filepath.Clean), c1(filepath.Dir), c1(filepath.Base)
}

func (m *Machine) osf(c *Value, f *osFile) {
	if m.side == nil {
		m.side = map[*Value]any{}
	}
	m.side[c] = f
}

func miscNatives(N map[string]native) {
	f1 := func(name string, f func(float64) float64) {
		N["math."+name] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
			if a[0].p == nil {
				return mkF64(f(a[0].f64())), true
			}
			switch name {
			case "Floor", "Ceil", "Trunc", "Round":
				return mkF64(m.integral(name, a[0].sym())), true
			}
			m.unsupported("math.%s of a symbolic value", name)
			return Value{}, true
		}
	}
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt,
		"Round": math.Round, "Sin": math.Sin, "Cos": math.Cos, "Tan": math.Tan, "Log": math.Log, "Log10": math.Log10, "Exp": math.Exp,
		"RoundToEven": math.RoundToEven, "Atan": math.Atan} {
		f1(n, f)
	}
	N["math.Pow"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		if a[0].p != nil || a[1].p != nil {
			m.unsupported("math.Pow of a symbolic value")
		}
		return mkF64(math.Pow(a[0].f64(), a[1].f64())), true
	}
	N["math.Abs"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		if t := a[0].sym(); t != nil {
			return fromTerm(m.absTerm(t)), true
		}
		return mkF64(math.Abs(a[0].f64())), true
	}
	mm := func(max bool) native {
		return func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
			if a[0].p == nil && a[1].p == nil {
				if max {
					return mkF64(math.Max(a[0].f64(), a[1].f64())), true
				}
				return mkF64(math.Min(a[0].f64(), a[1].f64())), true
			}
			kf := tk{kF64, 64, true}
			x, y := m.term(a[0], kf), m.term(a[1], kf)
			c := m.tc.RLt(y, x)
			if !max {
				c = m.tc.RLt(x, y)
			}
			return fromTerm(m.tc.Ite(c, x, y)), true
		}
	}
	N["math.Max"], N["math.Min"] = mm(true), mm(false)
	N["math.IsNaN"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		return mkBool(a[0].p == nil && math.IsNaN(a[0].f64())), true
	}
	N["math.IsInf"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		return mkBool(a[0].p == nil && math.IsInf(a[0].f64(), int(int64(a[1].n)))), true
	}
	bitsN := func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		if a[0].p != nil {
			m.unsupported("bits of a symbolic float")
		}
		return a[0], true
	}
	for _, n := range []string{"Float64bits", "Float64frombits", "Float32bits", "Float32frombits"} {
		N["math."+n] = bitsN
	}
	N["github.com/jung-kurt/gofpdf/v2.sliceCompress"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		m.noSpec()
		b, ok := concBytes(sliceOf(a[0]))
		if !ok {
			m.unsupported("compression of symbolic bytes")
		}
		var buf bytes.Buffer
		w, _ := zlib.NewWriterLevel(&buf, zlib.BestSpeed)
		w.Write(b)
		w.Close()
		return mkBytes(buf.Bytes()), true
	}
	N["time.Now"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		return zero(fn.Signature.Results().At(0).Type()), true
	}
	N["sort.Strings"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		s := sliceOf(a[0])
		for i := range s {
			if _, ok := concStr(s[i]); !ok {
				return Value{}, false
			}
		}
		m.noSpec()
		sort.Slice(s, func(i, j int) bool {
			x, _ := concStr(s[i])
			y, _ := concStr(s[j])
			return x < y
		})
		return Value{}, true
	}
	N["internal/reflectlite.Swapper"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		s := sliceOf(a[0].p.(*Iface).v)
		return Value{p: &nativeFn{func(m *Machine, a []Value) Value {
			m.noSpec()
			i, j := int(m.conc(a[0], 64)), int(m.conc(a[1], 64))
			x, y := copyVal(s[i]), copyVal(s[j])
			storeInto(&s[i], y)
			storeInto(&s[j], x)
			return Value{}
		}}}, true
	}
	N["internal/reflectlite.ValueOf"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		ag := zero(fn.Signature.Results().At(0).Type())
		if i, ok := a[0].p.(*Iface); ok {
			ag.p.(Agg)[1] = i.v
		}
		return ag, true
	}
	N["(internal/reflectlite.Value).Len"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		return mkInt(len(sliceOf(a[0].p.(Agg)[1]))), true
	}
	N["internal/reflectlite.TypeOf"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		i, ok := a[0].p.(*Iface)
		if !ok {
			return Value{}, true
		}
		rt := m.P.pkgs["internal/reflectlite"].Type("rtype").Type()
		return Value{p: &Iface{m.P.types.get(rt), Value{p: i.t.rt}}}, true
	}
	N["(internal/reflectlite.rtype).Comparable"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		return mkBool(types.Comparable(a[0].p.(*RType).ti.t)), true
	}
	N["(internal/reflectlite.rtype).String"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		return mkStrC(typeString(a[0].p.(*RType).ti.t)), true
	}
}
