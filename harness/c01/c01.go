// Package c01 decides that flowing text is written completely, in order and exactly once.
//
// bounds: text and box elements, left, right and centre aligned, with up to 3 (thorough 4) children, each a text block of one or two words, a paragraph of one or two words or a line break, up to 4 (6) words; symbolic word widths, blank width and available width; the same in table cells; HOdd: six words with one of 42 other characters or marks at all their places; HMany: 33 words, bold and bigger words and line breaks, widths between 6 and 250 mm
// outside: longer texts
// assume: text widths add up over the characters (true of the engine, which has no kerning)
package c01

import (
	. "github.com/mazzegi/xpdf/zzverif/common"
	"github.com/mazzegi/xpdf/zzverif/sym"
)

func HFlow() {
	e := Wide()
	f := NewFlow(e, FlowOpt{Children: 3 + sym.Tier(), Words: 4 + 2*sym.Tier(), Kinds: 5})
	align := []string{"left", "center", "right"}[sym.Choose("align", 3)]
	w := sym.Float("width", 4, 200, 3)
	el := "text"
	pad := ""
	if sym.Bool("box") {
		el = "box"
		pad = ";padding:1,2,3,4"
	}
	Run(e, nil, Doc("", "<"+el+` style="font-point-size:8;line-spacing:2;h-align:`+align+`;width:`+sym.FloatText(w)+pad+`">`+f.XML+"</"+el+">"))
	y0 := e.T
	if el == "box" {
		y0 += 2
	}
	f.CheckLossless(e.Of(EvText, Body), y0, 16*PtHeight)
}

// HCell: the same in a table cell and a box in it.
func HCell() {
	e := Wide()
	f := NewFlow(e, FlowOpt{Children: 2 + sym.Tier(), Words: 3 + sym.Tier(), Kinds: 5})
	w := sym.Float("width", 4, 200, 3)
	xml := f.XML
	if sym.Bool("box") {
		xml = "<box>" + xml + "</box>"
	}
	Run(e, nil, Doc("td{font-point-size:8;line-spacing:2;column-width:"+sym.FloatText(w)+";padding:1,1,1,1}", `<table><tr><td class="td">`+xml+"</td></tr></table>"))
	f.CheckLossless(e.Of(EvText, Body), e.T+1, 16*PtHeight)
}

// HSeveral: elements after each other do not mix, drop or repeat words.
func HSeveral() {
	e := Wide()
	e.CharW[' '] = 1
	xml, want := "", ""
	for i := 0; i < 3; i++ {
		w := letters[i : i+1]
		e.CharW[w[0]] = sym.Float("w", 1, 10, 3)
		switch sym.Choose("element", 5) {
		case 0:
			xml += "<text>" + w + "</text>"
		case 1:
			xml += "<box><p>" + w + "</p></box>"
		case 2:
			xml += "<table><tr><td>" + w + "</td></tr></table>"
		case 3:
			xml += "\n<text><br/> " + w + "<br/></text>\n"
		case 4:
			xml += "<text></text><box> </box><lf lines=\"1\"/><text>" + w + "</text>"
		}
		want += w
	}
	Run(e, nil, Doc("", xml))
	got := ""
	for _, v := range e.Of(EvText, Body) {
		got += v.S
	}
	sym.Assert(got == want, "every word exactly once and in order")
}

const letters = "abcdefgh"

// HMany: a long text.
func HMany() {
	e := Wide()
	f := Many(e, false)
	w := sym.Float("width", 6, 250, 3)
	align := []string{"left", "center", "right"}[sym.Choose("align", 3)]
	Run(e, nil, Doc("", `<text style="font-point-size:8;line-spacing:2;h-align:`+align+`;width:`+sym.FloatText(w)+`">`+f.XML+"</text>"))
	f.CheckLossless(e.Of(EvText, Body), e.T, 16*PtHeight)
}

// HOdd: words of any characters.
func HOdd() {
	e := Wide()
	xml, want := Odd(e)
	align := []string{"left", "center", "right"}[sym.Choose("align", 3)]
	w := sym.Float("width", 10, 150, 3)
	Run(e, nil, Doc("", `<text style="font-point-size:8;h-align:`+align+`;width:`+sym.FloatText(w)+`">`+xml+"</text>"))
	got := ""
	for _, l := range LinesOf(e.Of(EvText, Body)) {
		if got != "" {
			got += " "
		}
		got += l.Text
	}
	sym.Assert(got == want, "every word exactly once and in order, separated by one blank")
}
