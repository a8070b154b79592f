// Package c18 decides that hyphenation is lossless.
//
// bounds: words of 0..4 (thorough 0..5) runes, each symbolic among a, b, B, a comma, a two-byte, a three-byte and an invalid byte and two upper case letters whose lower case is shorter or longer; pattern sets of four single-rune patterns and two two-rune patterns with all weights symbolic 0..9; blanks anywhere in the word; lengths 1..3 and 98..103 bytes
// outside: longer divisible words, larger pattern sets (the code treats positions uniformly)
package c18

import (
	"strings"
	"unicode/utf8"

	"github.com/mazzegi/xpdf/hyphenation"
	"github.com/mazzegi/xpdf/zzverif/sym"
)

func digit(name string) byte { return '0' + byte(sym.Int(name, 0, 9)) }

func pat(name string, rs ...string) string {
	b := []byte{digit(name)}
	for _, r := range rs {
		b = append(b, r...)
		b = append(b, digit(name))
	}
	return string(b) + "\n"
}

func load(txt string) *hyphenation.Hyphenator {
	h, err := hyphenation.Load(strings.NewReader(txt))
	sym.Assert(err == nil, "pattern set loads")
	if err != nil {
		sym.Assume(false)
	}
	return h
}

var runes = []string{"a", "b", "B", "\u00fc", "\u20ac", "\xff", "\u212a", "\u023a", ","}

func check(s string, parts []string) {
	joined := strings.Join(parts, "")
	sym.Assert(sym.EqS(joined, s), "joined parts are the word")
	for _, p := range parts {
		sym.Assert(sym.Or(len(p) > 0, len(s) == 0), "no empty part")
	}
}

func HLossless() {
	max := 4
	if sym.Tier() > 0 {
		max = 5
	}
	n := sym.Choose("runes", max+1)
	s := ""
	valid := true
	for i := 0; i < n; i++ {
		k := sym.Conc(sym.Int("rune", 0, len(runes)-1))
		s += runes[k]
		valid = valid && k != 5
	}
	h := load(pat("a", "a") + pat("b", "b") + pat("u", "\u00fc") + pat("e", "\u20ac") + pat("ab", "a", "b") + pat("ua", "\u00fc", "a"))
	parts := h.Hyphenate(s)
	for _, p := range parts {
		sym.ObserveS("part", p)
	}
	check(s, parts)
	if valid {
		for _, p := range parts {
			sym.Assert(utf8.ValidString(p), "no part cuts a character")
		}
	}
	if len(s) < 3 {
		sym.Assert(len(parts) == 1, "short word undivided")
	}
	if len(parts) > 1 {
		sym.Reach("divided")
	}
}

// HAscii: longer words of single-byte letters.
func HAscii() {
	max := 6
	if sym.Tier() > 0 {
		max = 8
	}
	n := sym.Choose("len", max+1)
	s := sym.Str("s", n, "ab")
	h := load(pat("a", "a") + pat("b", "b"))
	parts := h.Hyphenate(s)
	check(s, parts)
	if n < 3 {
		sym.Assert(len(parts) == 1, "short word undivided")
	}
}

// HUndivided: blanks and length limits, with a pattern set that allows a division everywhere.
func HUndivided() {
	h := load("1a1\n1b1\n1\u00fc1\n")
	switch sym.Choose("case", 3) {
	case 0:
		n := 3 + sym.Choose("len", 5)
		b := []byte(strings.Repeat("a", n))
		k := sym.Int("blank", 0, n-1)
		for i := range b {
			b[i] = byte(sym.IteI(i == k, ' ', 'a'))
		}
		s := string(b)
		parts := h.Hyphenate(s)
		sym.Assert(len(parts) == 1 && sym.EqS(parts[0], s), "text with a blank undivided")
	case 1:
		n := 98 + sym.Choose("len", 6)
		s := strings.Repeat("ab", n/2) + strings.Repeat("a", n%2)
		parts := h.Hyphenate(s)
		check(s, parts)
		if n > 100 {
			sym.Assert(len(parts) == 1, "word longer than 100 bytes undivided")
		} else {
			sym.Assert(len(parts) > 1, "word of at most 100 bytes divided")
		}
	case 2:
		n := 49 + sym.Choose("len", 4)
		s := strings.Repeat("\u00fc", n)
		parts := h.Hyphenate(s)
		check(s, parts)
		if 2*n > 100 {
			sym.Assert(len(parts) == 1, "word longer than 100 bytes undivided")
		}
		for _, p := range parts {
			sym.Assert(utf8.ValidString(p), "no part cuts a character")
		}
	}
}
