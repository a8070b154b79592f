// Package c15 decides that colours decode exactly.
//
// bounds: every byte string of 0..8 bytes (all 256 values per byte), length enumerated, bytes symbolic; initial RGB components symbolic in 0..255
// outside: strings longer than 8 bytes
package c15

import (
	"github.com/mazzegi/xpdf/style"
	"github.com/mazzegi/xpdf/zzverif/sym"
)

// hexVal is the independent oracle: value of a hex digit or -1.
func hexVal(c byte) int {
	v := -1
	v = sym.IteI(sym.And(c >= '0', c <= '9'), int(c)-'0', v)
	v = sym.IteI(sym.And(c >= 'a', c <= 'f'), int(c)-'a'+10, v)
	v = sym.IteI(sym.And(c >= 'A', c <= 'F'), int(c)-'A'+10, v)
	return v
}

func HColor() {
	max := 8
	n := sym.Choose("len", max+1)
	b := make([]byte, n)
	for i := range b {
		b[i] = sym.Byte("b", 0, 255)
	}
	s := string(b)
	r0, g0, b0 := sym.Int("r0", 0, 255), sym.Int("g0", 0, 255), sym.Int("bl0", 0, 255)
	c := style.RGB{R: r0, G: g0, B: b0}
	err := c.UnmarshalStyle(s)
	sym.ObserveI("r", c.R)
	sym.ObserveI("g", c.G)
	sym.ObserveI("b", c.B)
	sym.ObserveB("err", err != nil)

	body := b
	if n > 0 && b[0] == '#' {
		body = b[1:]
	}
	valid := len(body) == 6
	var d [6]int
	if valid {
		for i := range d {
			d[i] = hexVal(body[i])
			valid = sym.And(valid, d[i] >= 0)
		}
	}
	sym.Assert(sym.Iff(valid, err == nil), "accepted exactly when six hex digits")
	if err == nil {
		sym.Reach("accepted")
		sym.Assert(sym.Implies(valid, sym.And(c.R == d[0]*16+d[1], c.G == d[2]*16+d[3], c.B == d[4]*16+d[5])), "components")
	} else {
		sym.Reach("rejected")
		sym.Assert(sym.And(c.R == r0, c.G == g0, c.B == b0), "unchanged on error")
	}
}
