// Package c19 decides division against an independent implementation of Liang's rule.
//
// bounds: words of 3..4 (thorough 5) letters over a, b, A and a comma; two patterns of 1..2 (thorough 1..3) letters over '.', a, b, symbolic weights 0..9, written with or without a zero; distinct letters; both pattern orders
// bounds: HWhole: words of 3..4 (5) letters, a pattern of up to the whole word with its dots (all weights symbolic) and one single-letter pattern
// bounds: HLong: words of 12 to 19 letters, patterns of 9 to 12 letters anywhere in them, at the start or at the end with dots, five weights of one and two of another symbolic; words of up to eight parts
// bounds: HTwo: two pattern sets with four symbolic weights dividing two of three spellings of a word, in turn, the parts overwritten by the caller
// outside: larger pattern sets
package c19

import (
	"strings"

	"github.com/mazzegi/xpdf/hyphenation"
	"github.com/mazzegi/xpdf/zzverif/sym"
)

type pattern struct {
	letters string
	weights []int
}

func (p pattern) text() string {
	var b []byte
	for i, w := range p.weights {
		b = append(b, '0'+byte(w))
		if i < len(p.letters) {
			b = append(b, p.letters[i])
		}
	}
	return string(b)
}

// newPattern makes a pattern; one weight may be left out in the text, which means 0.
func newPattern(maxLen int, mayOmit bool) (pattern, string) {
	n := 1 + sym.Choose("plen", maxLen)
	p := pattern{letters: sym.Str("letters", n, "ab.")}
	for i := 0; i < n; i++ {
		// a dot stands for an end of the word only
		if i > 0 && i < n-1 {
			sym.Assume(p.letters[i] != '.')
		}
	}
	omit := n + 1 // nothing left out
	if mayOmit {
		omit = sym.Choose("omit", n+2)
	}
	var b []byte
	for i := 0; i <= n; i++ {
		w := 0
		if i != omit {
			w = sym.Int("w", 0, 9)
			b = append(b, '0'+byte(w))
		}
		p.weights = append(p.weights, w)
		if i < n {
			b = append(b, p.letters[i])
		}
	}
	return p, string(b)
}

func lower(c byte) byte { return byte(sym.IteI(sym.And(c >= 'A', c <= 'Z'), int(c)+32, int(c))) }

// reference returns the parts of s.
func reference(s string, ps []pattern) []string {
	n := len(s)
	ext := make([]byte, 0, n+2)
	ext = append(ext, '.')
	for i := 0; i < n; i++ {
		ext = append(ext, lower(s[i]))
	}
	ext = append(ext, '.')
	w := make([]int, n+3)
	for _, p := range ps {
		k := len(p.letters)
		for i := 0; i+k <= len(ext); i++ {
			match := sym.EqS(string(ext[i:i+k]), p.letters)
			for j, pw := range p.weights {
				w[i+j] = sym.IteI(sym.And(match, pw > w[i+j]), pw, w[i+j])
			}
		}
	}
	var parts []string
	last := 0
	for cut := 1; cut < n; cut++ {
		// between letters cut-1 and cut of s: before ext[cut+1]
		if cut-last >= 2 && n-cut >= 2 && w[cut+1]%2 == 1 {
			parts = append(parts, s[last:cut])
			last = cut
		}
	}
	return append(parts, s[last:])
}

func HLiang() {
	maxW, np, pl := 4, 2, 2
	if sym.Tier() > 0 {
		maxW, pl = 5, 3
	}
	n := 3 + sym.Choose("len", maxW-2)
	s := sym.Str("s", n, "abA,")
	var ps []pattern
	var lines []string
	for i := 0; i < np; i++ {
		p, l := newPattern(pl, i == 0)
		for _, q := range ps {
			sym.Assume(!sym.EqS(p.letters, q.letters))
		}
		ps = append(ps, p)
		lines = append(lines, l)
	}
	txt := strings.Join(lines, "\n")
	if sym.Bool("reversed") {
		txt = ""
		for i := len(lines) - 1; i >= 0; i-- {
			txt += lines[i] + "\n"
		}
	}
	h, err := hyphenation.Load(strings.NewReader(txt))
	sym.Assert(err == nil, "patterns load")
	if err != nil {
		return
	}
	got := h.Hyphenate(s)
	want := reference(s, ps)
	for _, p := range got {
		sym.ObserveS("part", p)
	}
	same := len(got) == len(want)
	if same {
		for i := range got {
			same = sym.And(same, sym.EqS(got[i], want[i]))
		}
	}
	sym.Assert(same, "divided where the patterns allow it")
	if len(want) > 1 {
		sym.Reach("divided")
	}
}

// HWhole: patterns up to the whole word with the dots at its ends.
func HWhole() {
	n := 3 + sym.Choose("len", 2+sym.Tier())
	s := sym.Str("s", n, "abA,")
	k := n - sym.Choose("short", 2+sym.Tier())
	l := sym.Str("letters", k, "ab")
	if sym.Bool("start") {
		l = "." + l
	}
	if sym.Bool("end") {
		l += "."
	}
	p := pattern{letters: l}
	for i := 0; i <= len(l); i++ {
		p.weights = append(p.weights, sym.Int("w", 0, 9))
	}
	q := pattern{letters: sym.Str("single", 1, "ab"), weights: []int{sym.Int("w", 0, 9), sym.Int("w", 0, 9)}}
	if len(l) == 1 {
		return
	}
	h, err := hyphenation.Load(strings.NewReader(p.text() + "\n" + q.text() + "\n"))
	sym.Assert(err == nil, "patterns load")
	if err != nil {
		return
	}
	got, want := h.Hyphenate(s), reference(s, []pattern{p, q})
	same := len(got) == len(want)
	if same {
		for i := range got {
			same = sym.And(same, sym.EqS(got[i], want[i]))
		}
	}
	sym.Assert(same, "divided where the patterns allow it")
}

func divides(s string, lines string, ps []pattern) {
	h, err := hyphenation.Load(strings.NewReader(lines))
	sym.Assert(err == nil, "patterns load")
	if err != nil {
		return
	}
	got, want := h.Hyphenate(s), reference(s, ps)
	same := len(got) == len(want)
	if same {
		for i := range got {
			same = sym.And(same, sym.EqS(got[i], want[i]))
		}
	}
	sym.Assert(same, "divided where the patterns allow it")
	if len(want) > 5 {
		sym.Reach("many parts")
	}
}

// HLong: long words and patterns.
func HLong() {
	s := []string{"abcdefghijklmnopqrs", "Abracadabracadabra", "aaaaaaaaaaaaaa"}[sym.Choose("word", 3)]
	k := 9 + sym.Choose("len", 4)
	at := []int{0, 1, len(s) - k}[sym.Choose("at", 3)]
	p := pattern{letters: strings.ToLower(s[at : at+k])}
	if at == 0 && sym.Bool("start") {
		p.letters = "." + p.letters
	} else if at == len(s)-k && sym.Bool("end") {
		p.letters += "."
	}
	for i := 0; i <= len(p.letters); i++ {
		w := 0
		if i == 2 || i == 4 || i == 7 || i >= 9 && i <= 10 {
			w = sym.Int("w", 0, 9)
		}
		p.weights = append(p.weights, w)
	}
	q := pattern{letters: "cd", weights: []int{sym.Int("w", 0, 9), 0, 0}}
	divides(s, p.text()+"\n"+q.text()+"\n", []pattern{p, q})
}

// HParts: words of many parts.
func HParts() {
	s := []string{"abcdabcdabcdabcd", "ababababababababab", "abcabcaBCabc"}[sym.Choose("word", 3)]
	p := pattern{letters: "ab", weights: []int{sym.Int("w", 0, 9), sym.Int("w", 0, 9), 0}}
	q := pattern{letters: "bc", weights: []int{0, sym.Int("w", 0, 9), sym.Int("w", 0, 9)}}
	r := pattern{letters: "c", weights: []int{0, sym.Int("w", 0, 9)}}
	divides(s, r.text()+"\n"+p.text()+"\r\n\n"+q.text(), []pattern{p, q, r})
}

// HTwo: two pattern sets and two spellings of a word, one after the other.
func HTwo() {
	words := []string{"abcab", "abCab", "Abcab"}
	w1, w2 := words[sym.Choose("first", 3)], words[sym.Choose("second", 3)]
	p := pattern{letters: "ab", weights: []int{sym.Int("w", 0, 9), 0, sym.Int("w", 0, 9)}}
	q := pattern{letters: "ab", weights: []int{sym.Int("w", 0, 9), 0, sym.Int("w", 0, 9)}}
	h1, err1 := hyphenation.Load(strings.NewReader(p.text()))
	h2, err2 := hyphenation.Load(strings.NewReader(q.text()))
	sym.Assert(err1 == nil && err2 == nil, "patterns load")
	if err1 != nil || err2 != nil {
		return
	}
	check := func(h *hyphenation.Hyphenator, s string, p pattern) {
		got, want := h.Hyphenate(s), reference(s, []pattern{p})
		same := len(got) == len(want)
		for i := range want {
			same = same && sym.EqS(got[i], want[i])
		}
		sym.Assert(same, "divided where the own patterns allow it")
		for i := range got {
			got[i] = ""
		}
	}
	check(h1, w1, p)
	check(h2, w2, q)
	check(h1, w2, p)
	check(h1, w1, p)
}
