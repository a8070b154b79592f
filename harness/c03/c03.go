// Package c03 decides that wrapped lines fit and are filled.
//
// bounds: HFlow: text and box elements, left, right and centre aligned, up to 3 (thorough 4) children and 3 (5) words in fonts of 8 and 16 points; HJustified: block-aligned texts of up to 3 (4) words of one, two or three parts; all widths (words, blank, hyphen, element) symbolic on a grid of 1/8 mm; HMany: 33 words of up to eight parts, bold and bigger words and line breaks, widths between 6 and 250 mm
// outside: longer texts
// assume: text widths add up over the characters (true of the engine, which has no kerning)
package c03

import (
	. "github.com/mazzegi/xpdf/zzverif/common"
	"github.com/mazzegi/xpdf/zzverif/sym"
)

func HFlow() {
	e := Wide()
	f := NewFlow(e, FlowOpt{Children: 3 + sym.Tier(), Words: 3 + 2*sym.Tier(), Kinds: 5})
	align := []string{"left", "center", "right"}[sym.Choose("align", 3)]
	w := sym.Float("width", 6, 200, 3)
	el, pad := "text", ""
	avail, y0 := w, e.T
	if sym.Bool("box") {
		el, pad = "box", ";padding:1,2,3,4"
		avail, y0 = w-4, e.T+2
	}
	Run(e, nil, Doc("", "<"+el+` style="font-point-size:8;line-spacing:2;h-align:`+align+`;width:`+sym.FloatText(w)+pad+`">`+f.XML+"</"+el+">"))
	f.CheckFit(e.Of(EvText, Body), avail, y0, 6)
}

// HFonts: paragraphs in another font.
func HFonts() {
	e := Wide()
	f := NewFlow(e, FlowOpt{Children: 2 + sym.Tier(), Words: 4, Kinds: 4, Big: true})
	w := sym.Float("width", 6, 200, 3)
	Run(e, nil, Doc("", `<text style="font-point-size:8;line-spacing:0.001;width:`+sym.FloatText(w)+`">`+f.XML+"</text>"))
	f.CheckFit(e.Of(EvText, Body), w, 0, 0)
}

func justified(o FlowOpt) {
	e := Wide()
	f, txt, x0, avail := Justified(e, o)
	Run(e, Hyphenator(HyphenPatterns()), txt)
	f.CheckJustifiedFit(e.Of(EvText, Body), x0, avail)
}

func HJustified()     { justified(JustifiedText()) }
func HJustifiedBox()  { justified(JustifiedBox()) }
func HJustifiedLong() { justified(JustifiedLong()) }

// HJustifiedMany: a long text.
func HJustifiedMany() {
	e := Wide()
	f, txt, x0, avail := JustifiedMany(e)
	Run(e, Hyphenator(HyphenPatterns()), txt)
	f.CheckJustifiedFit(e.Of(EvText, Body), x0, avail)
}

// HMany: a long text.
func HMany() {
	e := Wide()
	f := Many(e, false)
	w := sym.Float("width", 6, 250, 3)
	Run(e, nil, Doc("", `<text style="font-point-size:8;line-spacing:0.001;width:`+sym.FloatText(w)+`">`+f.XML+"</text>"))
	f.CheckFit(e.Of(EvText, Body), w, 0, 0)
}
