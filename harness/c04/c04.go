// Package c04 decides where aligned lines stand.
//
// bounds: HAlign: text and box elements with up to 3 (thorough 4) children and 3 (5) words, left, right and centre aligned, at a symbolic x; HJustified: block-aligned texts and boxes of up to 3 (4) words of one, two or three parts; all widths (words, blank, hyphen, element) symbolic on a grid of 1/8 mm; HMany: 33 words of up to eight parts, bold and bigger words and line breaks, widths between 6 and 250 mm
// outside: longer texts
// assume: text widths add up over the characters (true of the engine, which has no kerning)
package c04

import (
	. "github.com/mazzegi/xpdf/zzverif/common"
	"github.com/mazzegi/xpdf/zzverif/sym"
)

func HAlign() {
	e := Wide()
	f := NewFlow(e, FlowOpt{Children: 3 + sym.Tier(), Words: 3 + 2*sym.Tier(), Kinds: 5})
	align := []string{"left", "center", "right"}[sym.Choose("align", 3)]
	w := sym.Float("width", 6, 200, 3)
	x := sym.Float("x", 0, 100, 3)
	el, pad := "text", ""
	avail, x0 := w, x
	if sym.Bool("box") {
		el, pad = "box", ";padding:1,2,3,4;offset-x:7"
		avail, x0 = w-4, x+8
	}
	Run(e, nil, Doc("", `<setx x="`+sym.FloatText(x)+`"/><`+el+` style="font-point-size:8;line-spacing:2;h-align:`+align+`;width:`+sym.FloatText(w)+pad+`">`+f.XML+"</"+el+">"))
	f.CheckAlign(e.Of(EvText, Body), align, x0, avail)
}

func justified(o FlowOpt) {
	e := Wide()
	f, txt, x0, avail := Justified(e, o)
	Run(e, Hyphenator(HyphenPatterns()), txt)
	f.CheckJustifiedAlign(e.Of(EvText, Body), x0, avail)
}

func HJustified()     { justified(JustifiedText()) }
func HJustifiedBox()  { justified(JustifiedBox()) }
func HJustifiedLong() { justified(JustifiedLong()) }

// HJustifiedMany: a long text.
func HJustifiedMany() {
	e := Wide()
	f, txt, x0, avail := JustifiedMany(e)
	Run(e, Hyphenator(HyphenPatterns()), txt)
	f.CheckJustifiedAlign(e.Of(EvText, Body), x0, avail)
}

// HMany: a long text.
func HMany() {
	e := Wide()
	f := Many(e, false)
	w := sym.Float("width", 6, 250, 3)
	align := []string{"left", "center", "right"}[sym.Choose("align", 3)]
	Run(e, nil, Doc("", `<text style="font-point-size:8;line-spacing:2;h-align:`+align+`;width:`+sym.FloatText(w)+`">`+f.XML+"</text>"))
	f.CheckAlign(e.Of(EvText, Body), align, e.L, w)
}
