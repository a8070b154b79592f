// Package c12 decides which font and text colour text is written with.
//
// bounds: HFlow: bodies of three (thorough four) elements out of 10 kinds (line feeds, texts and boxes with paragraphs and breaks, left or justified, nested classes, tables with row and cell styles and boxes in cells, empty elements, font changes by style or class) with symbolic point sizes and colours, every text in it; HBreak: the same with page breaks and a header using other styles
// outside: fonts and colours of boxes, borders and images (C05)
package c12

import (
	"github.com/mazzegi/xpdf/style"
	. "github.com/mazzegi/xpdf/zzverif/common"
	"github.com/mazzegi/xpdf/zzverif/sym"
)

func num(name string, lo, hi float64) float64 { return sym.Float(name, lo, hi, 3) }

const hexd = "0123456789abcdef"

// want is the font and colour some text must have.
type want struct {
	f style.Font
	c style.RGB
}

type gen struct {
	wants map[string]want
	next  int
	base  want // what elements start from
	n     int
	free  bool         // point sizes in any order
	feeds []style.Font // of line feeds
}

func newGen() *gen {
	return &gen{wants: map[string]want{}, base: want{f: style.Font{Family: "Arial", PointSize: 12, Style: "normal", Weight: "normal", Decoration: "normal"}}}
}

// word makes text that must be written as w.
func (g *gen) word(w want) string {
	s := "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"[g.next : g.next+1]
	g.next++
	g.wants[s] = w
	return s
}

// sty makes a style declaration changing some properties of w.
func (g *gen) sty(w want) (string, want) {
	g.n++
	k := g.n
	lo, hi := 1.0, 30.0
	if sym.Tier() == 0 && !g.free {
		// each in its own range, for less cases of which font is the highest
		lo = float64(2*k) + 0.25
		hi = lo + 0.5
	}
	pt := num("pt", lo, hi)
	d := sym.Int("rgb", 0, 9)
	w.f.PointSize = pt
	w.c = style.RGB{R: d, G: 3 * (k % 5), B: 0}
	s := "font-point-size:" + sym.FloatText(pt) + ";text-color:#" + string([]byte{'0', hexd[d], '0', hexd[3*(k%5)], '0', '0'})
	switch k % 4 {
	case 0:
		w.f.Weight = "bold"
		s += ";font-weight:bold"
	case 1:
		w.f.Family = "fam"
		s += ";font-family:fam"
	case 2:
		w.f.Decoration = "underline"
		s += ";font-decoration:underline"
	case 3:
		w.f.Style = "italic"
		s += ";font-style:italic"
	}
	return s, w
}

const sheet = "cls { font-family:cf; font-weight:bold; text-color:#112233 } fnt { font-style:italic; text-color:#445566; font-point-size:20 }"

func cls(w want) want {
	w.f.Family, w.f.Weight, w.c = "cf", "bold", style.RGB{R: 0x11, G: 0x22, B: 0x33}
	return w
}

const kinds = 10

func (g *gen) element(kind int) string {
	switch kind {
	case 0: // text with paragraphs
		s, w := g.sty(g.base)
		ps, pw := g.sty(w)
		return `<text style="` + s + `">` + g.word(w) + ` <p style="` + ps + `">` + g.word(pw) + "</p> " + g.word(w) + "</text>"
	case 1: // justified text
		s, w := g.sty(g.base)
		ps, pw := g.sty(w)
		return `<text style="h-align:block;` + s + `">` + g.word(w) + ` <p style="` + ps + `">` + g.word(pw) + " " + g.word(pw) + "</p><br/>" + g.word(w) + "</text>"
	case 2: // box by class
		w := cls(g.base)
		ps, pw := g.sty(w)
		return `<box class="cls">` + g.word(w) + `<p style="` + ps + `">` + g.word(pw) + "</p>" + g.word(w) + "</box>"
	case 3: // unstyled
		return "<text>" + g.word(g.base) + "</text><box>" + g.word(g.base) + "</box>"
	case 4: // table
		ts, tw := g.sty(g.base)
		rs, rw := g.sty(tw)
		cs, cw := g.sty(tw)
		return `<table style="` + ts + `"><tr style="` + rs + `"><td>` + g.word(rw) + `</td><td class="cls">` + g.word(cls(rw)) + `</td></tr><tr><td style="` + cs + `">` + g.word(cw) + "</td><td>" + g.word(tw) + "</td></tr></table>"
	case 5: // font by style
		s, w := g.sty(g.base)
		g.base.f = w.f
		return `<font style="` + s + `"/>`
	case 6: // font by class
		g.base.f.Style, g.base.f.PointSize = "italic", 20
		return `<font class="fnt"/>`
	case 7: // nothing written
		s, _ := g.sty(g.base)
		return `<text style="` + s + `"></text><box style="` + s + `"></box><table style="` + s + `"></table><text style="` + s + `"><p style="` + s + `"></p></text><table class="cls"><tr><td/></tr></table><image style="` + s + `">none</image>`
	}
	if kind == 9 { // a line feed is as high as the font selected by <font>
		g.feeds = append(g.feeds, g.base.f)
		return `<lf lines="7"/>`
	}
	// kind 8: a box in a cell; what it starts from is left open, so only the text around it is looked at
	s, w := g.sty(g.base)
	return `<table style="` + s + `"><tr><td>` + g.word(w) + `<box style="font-family:other;font-point-size:17;text-color:#777777">1</box></td><td>` + g.word(w) + "</td></tr></table>"
}

func check(e *Eng, g *gen) {
	n := 0
	for _, v := range e.Evs {
		if v.Kind != EvText || v.Part != Body {
			continue
		}
		for i := range v.S {
			w, ok := g.wants[v.S[i:i+1]]
			if !ok {
				continue
			}
			n++
			sym.Assert(EqFont(v.Font, w.f), "text is written in the font of its innermost element")
			sym.Assert(EqRGB(v.Color, w.c), "text is written in the colour of its innermost element")
		}
	}
	f := 0
	for _, v := range e.Evs {
		if v.Kind != EvFeed || v.Part != Body || v.Lines != 7 {
			continue
		}
		if f < len(g.feeds) {
			sym.Assert(EqFont(v.Font, g.feeds[f]), "a line feed goes by the font in effect outside of finished elements")
		}
		f++
	}
	sym.Assert(f == len(g.feeds), "all line feeds are done")
	sym.Assert(n == g.next, "all text is written")
}

func HFlow() {
	g := newGen()
	body := ""
	for i := 0; i < 3+sym.Tier(); i++ {
		body += g.element(sym.Choose("element", kinds))
	}
	body += "<text>" + g.word(g.base) + "</text>"
	e := NewEng(300, 8000, 10, 20, 30, 40)
	Run(e, Hyphenator("z1z"), Doc(sheet, body))
	check(e, g)
}

// HBreak: page breaks, with a header writing in other styles, between and inside of elements.
func HBreak() {
	g := newGen()
	body := g.element(sym.Choose("element", kinds))
	body += []string{"<newpage/>", `<sety y="90"/>`, `<sety y="140"/>`}[sym.Choose("break", 3)]
	body += g.element(sym.Choose("element", kinds))
	body += "<text>" + g.word(g.base) + "</text>"
	e := NewEng(300, 150, 10, 20, 30, 40)
	e.AutoBreak = true
	part := `<font style="font-family:hf;font-point-size:3"/><text style="text-color:#ff0000;font-weight:bold">2</text><box class="cls">2</box>`
	Run(e, Hyphenator("z1z"), "<document><style>"+sheet+"</style><header>"+part+"</header><footer>"+part+"</footer><body>"+body+"</body></document>")
	check(e, g)
}

// HOrder: two elements with point sizes in any order.
func HOrder() {
	g := newGen()
	g.free = true
	body := g.element(sym.Choose("element", kinds)) + g.element(sym.Choose("element", kinds)) + "<text>" + g.word(g.base) + "</text>"
	e := NewEng(300, 8000, 10, 20, 30, 40)
	Run(e, Hyphenator("z1z"), Doc(sheet, body))
	check(e, g)
}
