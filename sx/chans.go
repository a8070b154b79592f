package sx

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Buffered channels used by a single goroutine. Everything that would block
// is reported as unsupported, never guessed.

type ChanV struct {
	buf    []Value
	cap    int
	closed bool
	elem   types.Type
}

// chanReady reports whether an operation on c would proceed without blocking.
func chanReady(c *ChanV, send bool) bool {
	if c == nil {
		return false
	}
	if send {
		return c.closed || len(c.buf) < c.cap
	}
	return c.closed || len(c.buf) > 0
}

func (m *Machine) chanRecv(v Value) (r Value, ok, ready bool) {
	if m.spec > 0 {
		panic(specAbort{"chan"})
	}
	c, _ := v.p.(*ChanV)
	if !chanReady(c, false) {
		return Value{}, false, false
	}
	if len(c.buf) == 0 {
		return zero(c.elem), false, true
	}
	r = c.buf[0]
	c.buf = c.buf[1:]
	return r, true, true
}

func (m *Machine) chanSend(v, x Value) bool {
	if m.spec > 0 {
		panic(specAbort{"chan"})
	}
	c, _ := v.p.(*ChanV)
	if !chanReady(c, true) {
		return false
	}
	if c.closed {
		m.runtimePanic("send on closed channel")
	}
	c.buf = append(c.buf, copyVal(x))
	return true
}

func (m *Machine) selectOp(fr *frame, in *inst) {
	if m.spec > 0 {
		panic(specAbort{"chan"})
	}
	states := in.aux.([]*ssa.SelectState)
	pick := -1
	for k, st := range states {
		c, _ := m.get(fr, &in.args[2*k]).p.(*ChanV)
		if chanReady(c, st.Dir == types.SendOnly) {
			if pick >= 0 {
				m.unsupported("select with several ready cases")
			}
			pick = k
		}
	}
	if pick < 0 && in.x == 1 {
		m.unsupported("select that blocks (one goroutine only)")
	}
	out := Tuple{mkInt(pick), mkBool(false)}
	for k, st := range states {
		if st.Dir == types.SendOnly {
			if k == pick {
				m.chanSend(m.get(fr, &in.args[2*k]), m.get(fr, &in.args[2*k+1]))
			}
			continue
		}
		if k == pick {
			v, ok, _ := m.chanRecv(m.get(fr, &in.args[2*k]))
			out[1] = mkBool(ok)
			out = append(out, v)
		} else {
			out = append(out, zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
		}
	}
	fr.regs[in.dst] = Value{p: out}
}
