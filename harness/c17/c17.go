// Package c17 decides white space normalisation.
//
// bounds: WhitespaceRectified: texts of 0..6 bytes (thorough 0..8) over blank, tab, CR, LF, backslash, two letters and two bytes of a multi-byte character; RemoveTwins: texts of 0..6 (8) bytes over two letters and twins of one or two such letters; runs of up to 18 (34) white space characters between any two characters, and of a twin; HOther: one or two other space characters (no-break, em, ideographic space, vertical tab, form feed, next line, line separator, zero width) between white space and letters
// outside: longer texts; twins longer than two bytes
package c17

import (
	"github.com/mazzegi/xpdf/text"
	"github.com/mazzegi/xpdf/zzverif/sym"
)

func isWS(c byte) bool { return sym.Or(c == ' ', c == '\t', c == '\r', c == '\n') }

// oracle computes the normalised text in one pass: each run of white space becomes one blank unless it touches an end
// or a backslash.
func oracle(s string) string {
	var out []byte
	pend := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		if isWS(c) {
			pend = true
			continue
		}
		if pend {
			if len(out) > 0 && c != '\\' && out[len(out)-1] != '\\' {
				out = append(out, ' ')
			}
			pend = false
		}
		out = append(out, c)
	}
	return string(out)
}

func HRectify() {
	max := 6
	if sym.Tier() > 0 {
		max = 8
	}
	n := sym.Choose("len", max+1)
	s := sym.Str("s", n, " \t\r\n\\ab\xc3\xbc")
	got := text.WhitespaceRectified(s)
	sym.ObserveS("out", got)
	want := oracle(s)
	sym.Assert(sym.EqS(got, want), "normalised text")
	sym.Assert(sym.EqS(text.WhitespaceRectified(got), got), "idempotent")
	if n > 3 {
		sym.Reach("longer text")
	}
}

// HRuns has longer runs of white space than HRectify.
func HRuns() {
	max := 18
	if sym.Tier() > 0 {
		max = 34
	}
	n := sym.Choose("run", max+1)
	m := sym.Choose("second", 3)
	s := sym.Str("first", 1, "a\\ \n") + sym.Str("run", n, " \t\r\n") + sym.Str("mid", 1, "b\\") + sym.Str("ws", m, " \t\r\n") + sym.Str("last", 1, "c\\ ")
	got := text.WhitespaceRectified(s)
	sym.ObserveS("out", got)
	sym.Assert(sym.EqS(got, oracle(s)), "normalised text")
}

// HTwinRuns has longer runs of a twin.
func HTwinRuns() {
	max := 18
	if sym.Tier() > 0 {
		max = 34
	}
	n := sym.Choose("run", max+1)
	tw := sym.Str("twin", 1, "ab ")
	s := "x"
	for i := 0; i < n; i++ {
		s += tw
	}
	s += sym.Str("last", 1, "ya")
	got := text.RemoveTwins(s, tw)
	sym.ObserveS("out", got)
	want := "x"
	if n > 0 {
		want += tw
	}
	if n == 0 || s[len(s)-1] != tw[0] {
		want += s[len(s)-1:]
	}
	sym.Assert(sym.EqS(got, want), "a run of the twin becomes one")
}

// squeeze is the oracle of RemoveTwins for a one-byte twin: runs of it become one.
func HTwinsSingle() {
	max := 6
	if sym.Tier() > 0 {
		max = 9
	}
	n := sym.Choose("len", max+1)
	s := sym.Str("s", n, "ab ")
	tw := sym.Str("twin", 1, "ab")
	got := text.RemoveTwins(s, tw)
	sym.ObserveS("out", got)
	var out []byte
	for i := 0; i < len(s); i++ {
		if i > 0 && s[i] == tw[0] && s[i-1] == tw[0] {
			continue
		}
		out = append(out, s[i])
	}
	sym.Assert(sym.EqS(got, string(out)), "runs of the twin become one, everything else stays")
}

func HTwinsPair() {
	max := 6
	if sym.Tier() > 0 {
		max = 8
	}
	n := sym.Choose("len", max+1)
	s := sym.Str("s", n, "abc")
	tw := sym.Str("twin", 2, "ab")
	got := text.RemoveTwins(s, tw)
	sym.ObserveS("out", got)
	for i := 0; i+4 <= len(got); i++ {
		sym.Assert(!sym.EqS(got[i:i+4], tw+tw), "no doubled twin left")
	}
	dbl := false
	for i := 0; i+4 <= n; i++ {
		dbl = sym.Or(dbl, sym.EqS(s[i:i+4], tw+tw))
	}
	sym.Assert(sym.Implies(!dbl, sym.EqS(got, s)), "unchanged without doubled twin")
	sym.Assert(sym.And((n-len(got))%2 == 0, len(got) <= n), "only whole twins removed")
}

var others = []string{"\u00a0", "\u2003", "\u3000", "\v", "\f", "\u0085", "\u2028", "\u200b", "\x00"}

// HOther: other characters that some call space stay.
func HOther() {
	ws := func() string { return sym.Str("ws", sym.Choose("n", 3), " \t\nb\\") }
	s := ws() + others[sym.Choose("other", len(others))] + ws()
	if sym.Bool("two") {
		s += others[sym.Choose("second", 3)] + ws()
	}
	got := text.WhitespaceRectified(s)
	sym.ObserveS("out", got)
	sym.Assert(sym.EqS(got, oracle(s)), "other characters stay")
}
