// Package c11 decides that headers and footers leave the body alone.
//
// bounds: every pair of one of 9 header contents (text, font changes, coloured and justified text, boxes, tables with repeated headers and boxes in cells, images, cursor moves, line feeds, page breaks) and one of 9 footer contents, of symbolic heights reaching over the page and at symbolic cursors, around a body with two page breaks of four kinds (newpage, box, table, text running over the page end; quick: second one a box or text), compared with the same body without header and footer
// outside: engines that do not restore font and colours around header and footer as gofpdf does
package c11

import (
	. "github.com/mazzegi/xpdf/zzverif/common"
	"github.com/mazzegi/xpdf/zzverif/sym"
)

func num(name string, lo, hi float64) float64 { return sym.Float(name, lo, hi, 3) }

const kinds = 9

// part is the content of a header or footer; it ends with the marker.
func part(kind int, mark string) string {
	s := ""
	switch kind {
	case 0:
	case 1:
		s = `<font style="font-point-size:` + sym.FloatText(num("pt", 1, 90)) + `;font-family:q"/><text style="text-color:#102030">p</text>`
	case 2:
		s = `<box style="font-weight:bold;text-color:#ff0000;height:` + sym.FloatText(num("boxh", 1, 400)) + `;offset-y:` + sym.FloatText(num("oy", 0, 90)) + `">p</box><box>p<br/>p</box>`
	case 3:
		t := `<table repeatheader="1" style="font-style:italic">`
		for i := 0; i < 3; i++ {
			t += `<tr style="height:` + sym.FloatText(num("rowh", 1, 200)) + `"><td>p</td><td rowspan="1">p</td></tr>`
		}
		s = t + "</table>"
	case 4:
		s = "<newpage/><text>p</text><newpage/>"
	case 5:
		s = `<setx x="` + sym.FloatText(num("x", 0, 300)) + `"/><sety y="` + sym.FloatText(num("y", 0, 300)) + `"/><text>p</text><lf lines="` + sym.FloatText(num("lines", 0, 50)) + `"/>`
	case 6:
		s = `<table><tr><td>p<box style="height:` + sym.FloatText(num("boxh", 1, 400)) + `;font-point-size:30">p</box></td></tr></table><font class="big"/>`
	case 7:
		s = `<sety y="` + sym.FloatText(num("y", 0, 300)) + `"/><text style="h-align:block;font-point-size:20">p <p style="font-family:z">p</p><br/> p</text>`
	case 8:
		s = `<text/><box style="padding:3,3,3,3"/><table/><image>none.png</image><font style="font-point-size:` + sym.FloatText(num("pt", 1, 90)) + `"/>`
	}
	return s + "<text>" + mark + "</text>"
}

func brk(kind int) string {
	switch kind {
	case 0:
		return "<newpage/>"
	case 1:
		return `<box style="height:` + sym.FloatText(num("bh", 1, 70)) + `">v</box>`
	case 2:
		return `<table repeatheader="1"><tr style="height:5"><td>t</td></tr><tr style="height:` + sym.FloatText(num("th", 1, 60)) + `"><td>u</td></tr><tr style="height:` + sym.FloatText(num("th", 1, 60)) + `"><td>w</td></tr></table>`
	}
	return `<text style="font-style:italic">` + "x<br/>y<br/>z" + `</text>`
}

const sheet = "big { font-point-size:40; font-decoration:underline; text-color:#00ff00 }"

// same compares what is drawn in the body.
func same(a, b *Eng) {
	var l, r []Ev
	for _, v := range a.Evs {
		if v.Part == Body {
			l = append(l, v)
		}
	}
	for _, v := range b.Evs {
		if v.Part == Body {
			r = append(r, v)
		}
	}
	if len(l) != len(r) {
		sym.Assert(false, "the same body is drawn")
		sym.Assume(false)
	}
	for i := range l {
		x, y := l[i], r[i]
		sym.Assert(x.Kind == y.Kind && x.Page == y.Page && len(x.Segs) == len(y.Segs), "the same body is drawn in the same order on the same pages")
		sym.Assert(sym.And(sym.Near(x.X, y.X), sym.Near(x.Y, y.Y), sym.Near(x.W, y.W), sym.Near(x.H, y.H)), "at the same place")
		sym.Assert(sym.And(EqFont(x.Font, y.Font), EqRGB(x.Color, y.Color), sym.EqS(x.S, y.S), sym.Near(x.LineWidth, y.LineWidth)), "with the same font and colours")
	}
	sym.Assert(sym.And(sym.Near(a.EndX, b.EndX), sym.Near(a.EndY, b.EndY)), "the cursor ends at the same place")
}

// once: header and footer ran once on each page.
func once(e *Eng) {
	for _, v := range e.Evs {
		sym.Assert(v.Kind != EvPage || v.Part == Body, "nothing in a header or footer starts a page")
	}
	for pg := 1; pg <= e.Page; pg++ {
		var n [3]int
		for _, v := range e.Evs {
			if v.Kind == EvText && v.Page == pg {
				if v.S == "HH" {
					n[v.Part] += 1
				} else if v.S == "FF" {
					n[v.Part] += 10
				}
			}
		}
		sym.Assert(n[Header] == 1, "the header is run once on every page")
		sym.Assert(n[Footer] == 10, "the footer is run once on every page")
		sym.Assert(n[Body] == 0, "they are run as header and footer")
	}
}

func eng(auto bool) *Eng {
	e := NewEng(200, 120, 10, 15, 20, 15)
	for c := 'a'; c <= 'z'; c++ {
		e.CharW[c] = 3
	}
	e.CharW[' '] = 1
	e.AutoBreak = auto
	return e
}

func both(header, footer string, b1, b2 int) {
	auto := b1 == 3 || b2 == 3
	body := body(b1, b2)
	h := Hyphenator("z1z")
	e := eng(auto)
	doc := "<document><style>" + sheet + "</style>"
	Run(e, h, doc+"<header>"+header+"</header><footer>"+footer+"</footer><body>"+body+"</body></document>")
	once(e)
	ref := eng(auto)
	Run(ref, h, doc+"<body>"+body+"</body></document>")
	same(e, ref)
	if e.Page > 2 {
		sym.Reach("three pages")
	}
}

func body(b1, b2 int) string {
	return `<font style="font-weight:bold;font-point-size:9"/><sety y="` + sym.FloatText(num("sety", 15, 110)) + `"/><text>a</text>` + brk(b1) + `<text style="text-color:#0000ff">b</text><setx x="33"/>` + brk(b2) + `<text>c</text><box style="height:5">d</box>`
}

// HHeader: every header content and every pair of breaks.
func HHeader() {
	both(part(sym.Choose("header", kinds), "HH"), part(0, "FF"), sym.Choose("break", 4), second())
}

// HFooter: every footer content and every pair of breaks.
func HFooter() {
	both(part(0, "HH"), part(sym.Choose("footer", kinds), "FF"), sym.Choose("break", 4), second())
}

// HBoth: both at once.
func HBoth() {
	both(part(sym.Choose("header", kinds), "HH"), part(sym.Choose("footer", kinds), "FF"), sym.Choose("break", 2+2*sym.Tier()), 1)
}

// second break: a box or running text; all of them in the thorough tier.
func second() int {
	if sym.Tier() == 0 {
		return 1 + 2*sym.Choose("break", 2)
	}
	return sym.Choose("break", 4)
}
