// Package c02 decides that justified text is written losslessly.
//
// bounds: block-aligned texts and boxes of up to 3 (thorough 4) children and words, each word of one, two or three parts; line breaks and paragraphs (thorough: in two font sizes) anywhere; all widths (words, blank, hyphen, element) symbolic on a grid of 1/8 mm; HPatterns: patterns with symbolic weights on one long word; HOdd: six words with one of 42 other characters or marks at all their places; HMany: 33 words of up to eight parts, capitals, bold and bigger words and line breaks, widths between 6 and 250 mm
// outside: longer texts
// assume: text widths add up over the characters (true of the engine, which has no kerning)
package c02

import (
	"strings"

	. "github.com/mazzegi/xpdf/zzverif/common"
	"github.com/mazzegi/xpdf/zzverif/sym"
)

func justified(o FlowOpt) {
	e := Wide()
	f, txt, _, _ := Justified(e, o)
	Run(e, Hyphenator(HyphenPatterns()), txt)
	f.CheckJustifiedLossless(e.Of(EvText, Body))
}

func HJustified()     { justified(JustifiedText()) }
func HJustifiedBox()  { justified(JustifiedBox()) }
func HJustifiedLong() { justified(JustifiedLong()) }

// HFonts: paragraphs in another font.
func HFonts() {
	e := Wide()
	f, txt, _, _ := Justified(e, FlowOpt{Children: 2, Words: 3 + sym.Tier(), Kinds: 4, Divisible: true, Parts: 2, Big: true})
	Run(e, Hyphenator(HyphenPatterns()), txt)
	f.CheckJustifiedLossless(e.Of(EvText, Body))
}

// HPatterns: whatever patterns there are, words are only divided where they allow it.
func HPatterns() {
	e := Wide()
	e.CharW[' '] = 1
	e.CharW['-'] = 1
	word := "abcdef"
	for i := range word {
		e.CharW[word[i]] = 2
	}
	e.CharW['x'] = sym.Float("x", 1, 20, 3)
	pats := ""
	for i := 1; i < len(word)-1; i++ {
		pats += word[i:i+1] + string([]byte{'0' + byte(sym.Int("weight", 0, 9))}) + word[i+1:i+2] + "\n"
	}
	h := Hyphenator(pats)
	w := sym.Float("width", 4, 40, 3)
	Run(e, h, Doc("", `<text style="font-point-size:8;h-align:block;width:`+sym.FloatText(w)+`">x `+word+` x </text>`))
	parts := h.Hyphenate(word)
	written := ""
	for _, l := range LinesOf(e.Of(EvText, Body)) {
		t := strings.ReplaceAll(l.Text, " ", "")
		if n := strings.TrimSuffix(t, "-"); n != t {
			sofar := strings.TrimPrefix(written+n, "x")
			ok, acc := false, ""
			for _, p := range parts[:len(parts)-1] {
				acc += p
				ok = ok || acc == sofar
			}
			sym.Assert(ok, "divided where the hyphenator allows it")
			sym.Reach("divided")
			t = n
		}
		written += t
	}
	sym.Assert(written == "x"+word+"x", "every character exactly once and in order")
}

// HMany: a long text.
func HMany() {
	e := Wide()
	f, txt, _, _ := JustifiedMany(e)
	Run(e, Hyphenator(HyphenPatterns()), txt)
	f.CheckJustifiedLossless(e.Of(EvText, Body))
}

// HOdd: words of any characters.
func HOdd() {
	e := Wide()
	xml, want := Odd(e)
	w := sym.Float("width", 10, 150, 3)
	Run(e, Hyphenator("a1q"), Doc("", `<text style="font-point-size:8;h-align:block;width:`+sym.FloatText(w)+`">`+xml+"</text>"))
	got := ""
	for _, v := range e.Of(EvText, Body) {
		got += strings.ReplaceAll(v.S, " ", "")
	}
	sym.Assert(got == strings.ReplaceAll(want, " ", ""), "every character exactly once and in order")
}
