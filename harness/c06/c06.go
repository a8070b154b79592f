// Package c06 decides when boxes start a page.
//
// bounds: one or two boxes at any symbolic cursor, with symbolic page height, margins, styled height or one to three lines of text, padding and offset, left aligned or justified; boxes followed by a box
// outside: boxes higher than the page (only that they start at most one page)
package c06

import (
	. "github.com/mazzegi/xpdf/zzverif/common"
	"github.com/mazzegi/xpdf/zzverif/sym"
)

func num(name string, lo, hi float64) float64 { return sym.Float(name, lo, hi, 3) }

// place asserts the rule for one box drawn at cursor y of page p; it returns page and bottom afterwards.
func place(e *Eng, n, p int, y, oy, full float64) {
	rects := e.Of(EvRect, Body)
	if n >= len(rects) {
		sym.Assert(false, "box is drawn")
		return
	}
	r := rects[n]
	bottom := e.PH - e.B
	fits := sym.Leq(oy+full, bottom-e.T-1e-3)
	room := sym.Leq(y+oy+full, bottom-1e-3)
	sym.Assert(sym.Or(sym.Not(fits), sym.Leq(r.Y+r.H, bottom)), "a box that fits on a page is not drawn across the bottom margin")
	sym.Assert(sym.Implies(room, r.Page == p), "a box that fits does not start a page")
	sym.Assert(r.Page <= p+1, "at most one page per box")
	top := sym.IteF(r.Page == p, y, e.T)
	sym.Assert(sym.And(sym.Leq(top+oy, r.Y), sym.Leq(r.Y, top+oy+1)), "drawn at the cursor or at the top of the new page")
	if r.Page > p {
		sym.Reach("new page")
	}
}

func HStyled() {
	e := NewEng(200, num("ph", 60, 300), 10, num("top", 0, 20), 10, num("bottom", 0, 20))
	y := num("y", 0, 280)
	h, pt, pb, oy := num("h", 1, 250), num("pt", 0, 30), num("pb", 0, 30), num("oy", 0, 30)
	Run(e, nil, Doc("", `<sety y="`+sym.FloatText(y)+`"/><box style="line-width:1;height:`+sym.FloatText(h)+";padding:0,"+sym.FloatText(pt)+",0,"+sym.FloatText(pb)+";offset-y:"+sym.FloatText(oy)+`">x</box>`))
	place(e, 0, 1, y, oy, h+pt+pb)
	sym.Assert(e.Page == e.Of(EvRect, Body)[0].Page, "no page is started after the box")
}

// HText: height given by the text.
func HText() {
	e := NewEng(200, num("ph", 60, 300), 10, num("top", 0, 20), 10, num("bottom", 0, 20))
	e.CharW[' '] = 1
	y := num("y", 0, 280)
	oy, pt := num("oy", 0, 30), num("pt", 0, 30)
	txt := ""
	n := 1 + sym.Choose("lines", 3)
	for i := 0; i < n; i++ {
		e.CharW["abc"[i]] = num("w", 1, 40)
		if i > 0 && sym.Bool("br") {
			txt += "<br/>"
		}
		txt += " " + "abc"[i:i+1]
	}
	align := []string{"left", "block"}[sym.Choose("align", 2)]
	Run(e, Hyphenator("z1z"), Doc("", `<sety y="`+sym.FloatText(y)+`"/><box style="font-point-size:16;width:50;line-width:1;padding:0,`+sym.FloatText(pt)+",0,0;offset-y:"+sym.FloatText(oy)+";h-align:"+align+`">`+txt+"</box>"))
	rects := e.Of(EvRect, Body)
	if len(rects) != 1 {
		sym.Assert(false, "one box is drawn")
		return
	}
	full := rects[0].H + 1
	place(e, 0, 1, y, oy, full)
	bottom := e.PH - e.B
	for _, t := range e.Of(EvText, Body) {
		sym.Assert(t.Page == rects[0].Page, "text and box are on the same page")
		sym.Assert(sym.Or(sym.Not(sym.Leq(oy+full, bottom-e.T-1e-3)), sym.Leq(t.Y+t.H, bottom)), "text is not written across the bottom margin")
	}
}

// HTwo: a box after a box.
func HTwo() {
	e := NewEng(200, num("ph", 60, 300), 10, num("top", 0, 20), 10, num("bottom", 0, 20))
	y := num("y", 0, 280)
	h1, h2 := num("h", 1, 250), num("h", 1, 250)
	between := ""
	if sym.Bool("text") {
		between = "<text>x</text>"
	}
	Run(e, nil, Doc("", `<sety y="`+sym.FloatText(y)+`"/><box style="line-width:1;height:`+sym.FloatText(h1)+`"/>`+between+`<box style="line-width:1;height:`+sym.FloatText(h2)+`"/>`))
	rects := e.Of(EvRect, Body)
	if len(rects) != 2 {
		sym.Assert(false, "two boxes are drawn")
		return
	}
	place(e, 0, 1, y, 0, h1)
	y2 := rects[0].Y + rects[0].H + 0.5
	if between != "" {
		y2 += 12 * PtHeight * 1.5
	}
	place(e, 1, rects[0].Page, y2, 0, h2)
}

// HHeader: the body starts below what the header callback left, which is where it began; a header box never breaks.
func HHeader() {
	e := NewEng(200, 100, 10, num("top", 0, 20), 10, num("bottom", 0, 20))
	y := num("y", 0, 90)
	h := num("h", 1, 60)
	hh := num("hh", 1, 200)
	txt := `<document><header><box style="height:` + sym.FloatText(hh) + `">H</box></header><body><sety y="` + sym.FloatText(y) + `"/><box style="line-width:1;height:` + sym.FloatText(h) + `">x</box></body></document>`
	Run(e, nil, txt)
	place(e, 0, 1, y, 0, h)
	sym.Assert(len(e.Of(EvRect, Header)) == e.Page, "one header box per page")
}
