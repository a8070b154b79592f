// Package c27 decides how the PDF engine keeps cursor, fonts and pages.
//
// bounds: HFont: two (thorough three) font changes out of four core families, italic, bold, underlined, sizes 4 to 60; HOps: every sequence of three (thorough four) operations out of eight with symbolic coordinates, line feeds up and down, font sizes and texts on an A4 page with symbolic margins 1 to 30; HFlow: text at a symbolic position, inside of the margins or across the bottom margin
// outside: line feeds above the page; fonts but the core fonts; text wider than the rest of the line, which the PDF library breaks; the cursor after a path, which the PDF library moves
package c27

import (
	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/font"
	"github.com/mazzegi/xpdf/style"
	"github.com/mazzegi/xpdf/xdoc"
	"github.com/mazzegi/xpdf/zzverif/sym"
)

func num(name string, lo, hi float64) float64 { return sym.Float(name, lo, hi, 3) }

const mmPerPt = 25.4 / 72

// make makes an A4 engine with symbolic margins.
func make27() (*engine.FPDF, [4]float64) {
	d := &xdoc.Document{}
	d.Page.Format, d.Page.Orientation = xdoc.FormatA4, xdoc.OrientationPortrait
	m := &d.Page.Margins
	m.Left, m.Top, m.Right, m.Bottom = num("left", 1, 30), num("top", 1, 30), num("right", 1, 30), num("bottom", 1, 30)
	e, err := engine.NewFPDF(font.NewRegistry(), d)
	sym.Assert(err == nil, "the engine is made")
	sym.Assume(err == nil)
	return e, [4]float64{m.Left, m.Top, m.Right, m.Bottom}
}

// widths of some letters by family, bold and italic, in thousandths of the size (Adobe font metrics).
var fonts = []struct {
	name  string
	chars string
	w     [4][3]float64 // regular, italic, bold, bold italic
}{
	{"Arial", "Ai ", [4][3]float64{{667, 222, 278}, {667, 222, 278}, {722, 278, 278}, {722, 278, 278}}},
	{"Times", "Aem", [4][3]float64{{722, 444, 778}, {611, 444, 722}, {722, 444, 833}, {667, 444, 778}}},
	{"Courier", "Ai ", [4][3]float64{{600, 600, 600}, {600, 600, 600}, {600, 600, 600}, {600, 600, 600}}},
	{"Helvetica", "Ai ", [4][3]float64{{667, 222, 278}, {667, 222, 278}, {722, 278, 278}, {722, 278, 278}}},
}

type fnt struct {
	style.Font
	chars string
	w     [3]float64
}

func anyFont(size float64) fnt {
	f := fonts[sym.Choose("family", len(fonts))]
	r := fnt{chars: f.chars}
	k := 0
	r.Family, r.PointSize = f.name, size
	r.Style, r.Weight, r.Decoration = style.FontStyleNormal, style.FontWeightNormal, style.FontDecorationNormal
	if sym.Bool("italic") {
		r.Style = style.FontStyleItalic
		k++
	}
	if sym.Bool("bold") {
		r.Weight = style.FontWeightBold
		k += 2
	}
	if sym.Bool("underline") {
		r.Decoration = style.FontDecorationUnderline
	}
	r.w = f.w[k]
	return r
}

// width of a text made of the font's characters.
func (f *fnt) width(s string) float64 {
	w := 0.0
	for i := 0; i < len(s); i++ {
		for k := range f.w {
			if s[i] == f.chars[k] {
				w += f.w[k]
			}
		}
	}
	return w / 1000 * float64(f.PointSize) * mmPerPt
}

// HFont changes fonts.
func HFont() {
	e, _ := make27()
	if sym.Bool("page") {
		e.AddPage()
	}
	x0, y0 := e.GetXY()
	for i := 0; i < 2+sym.Tier(); i++ {
		f := anyFont(num("size", 4, 60))
		e.ChangeFont(f.Font)
		sym.Assert(e.Error() == nil, "a core font can be selected")
		sym.Assert(sym.Near(e.FontHeight(), float64(f.PointSize)*mmPerPt), "the font has the size asked for")
		for _, s := range []string{f.chars, f.chars[:1], f.chars[1:] + f.chars + f.chars[2:], ""} {
			sym.Assert(sym.Near(e.TextWidth(s), f.width(s)), "text is as wide as in the family, weight, slant and size asked for")
		}
		x, y := e.GetXY()
		sym.Assert(sym.And(sym.Near(x, x0), sym.Near(y, y0)), "changing the font and measuring does not move the cursor")
	}
}

// HOps follows the cursor.
func HOps() {
	e, m := make27()
	pageW, pageH := e.PageWidth(), e.PageHeight()
	header, footer := 0, 0
	hx, hy := num("hx", 0, 200), num("hy", 0, 200)
	e.OnHeader(func() { header++; e.SetX(hx); e.SetY(hy); e.SetX(m[0]); e.SetY(m[1]) })
	e.OnFooter(func() { footer++ })
	f := fnt{chars: "Ai ", w: [3]float64{667, 222, 278}}
	f.Family, f.PointSize = "Arial", 12
	e.ChangeFont(f.Font)
	e.AddPage()
	page := 1
	x, y := m[0], m[1]
	check := func() {
		gx, gy := e.GetXY()
		sym.Assert(e.Error() == nil, "no error")
		sym.Assert(sym.Near(gx, x), "x is where the last operation leaves it")
		sym.Assert(sym.Near(gy, y), "y is where the last operation leaves it")
		sym.Assert(e.CurrentPage() == page, "pages are counted")
		sym.Assert(sym.And(header == page, footer == page-1), "every new page runs the header, and the footer of the page before")
		sym.Assert(sym.Near(e.FontHeight(), f.PointSize*mmPerPt), "the font stays")
	}
	check()
	for i := 0; i < 3+sym.Tier(); i++ {
		switch sym.Choose("op", 8) {
		case 0:
			x = num("x", 0, 200)
			e.SetX(x)
		case 1:
			y = num("y", 0, 290)
			e.SetY(y)
		case 2:
			n := num("lines", -5, 5)
			e.LineFeed(n)
			x = m[0]
			sym.Assume(sym.Leq(0, y+n*f.PointSize*mmPerPt))
			y += n * f.PointSize * mmPerPt
		case 3:
			e.AddPage()
			x, y = m[0], m[1]
			page++
		case 4:
			f.PointSize = sizes[sym.Choose("size", len(sizes))]
			e.ChangeFont(f.Font)
		case 5:
			s := texts[sym.Choose("text", len(texts))]
			w := f.width(s)
			sym.Assume(sym.Leq(x+w, pageW-m[2]-2.01))
			sym.Assume(sym.Leq(y+f.PointSize*mmPerPt, pageH-m[3]-0.01))
			e.WriteText(s)
			x += w
		case 6:
			n := num("width", 0.1, 5)
			e.SetLineWidth(n)
			e.SetDrawColor(1, 2, 3)
			e.SetFillColor(4, 5, 6)
			e.SetTextColor(7, 8, 9)
			e.FillRect(num("rx", 0, 200), num("ry", 0, 200), n, n)
		case 7:
			e.MoveTo(num("rx", 0, 200), num("ry", 0, 200))
			e.LineTo(num("rx", 0, 200), num("ry", 0, 200))
			e.DrawPath()
			// a path moves the cursor of the PDF library
			x, y = e.GetXY()
		}
		check()
	}
}

var (
	sizes = []float64{4, 9.5, 30}
	texts = []string{"iA", " A", "Ai iA Ai", " "}
)

// HFlow fills pages with text, which must run on to the next page and line.
func HFlow() {
	e, m := make27()
	pageW, pageH := e.PageWidth(), e.PageHeight()
	f := fnt{chars: "Ai ", w: [3]float64{667, 222, 278}}
	f.Family, f.PointSize = "Arial", 12
	e.ChangeFont(f.Font)
	header, footer := 0, 0
	e.OnHeader(func() { header++; e.WriteText("A"); e.SetX(m[0]); e.SetY(m[1]) })
	e.OnFooter(func() { footer++; e.WriteText("A") })
	e.AddPage()
	h := 12 * mmPerPt
	x, y := num("x", 1, 200), num("y", 1, 290)
	e.SetX(x)
	e.SetY(y)
	s := texts[sym.Choose("text", len(texts))]
	w := f.width(s)
	sym.Assume(sym.Leq(x+w, pageW-m[2]-2.01))
	over := sym.Bool("over")
	if over {
		sym.Assume(sym.Leq(pageH-m[3]+0.01, y+h))
	} else {
		sym.Assume(sym.Leq(y+h, pageH-m[3]-0.01))
	}
	e.WriteText(s)
	gx, gy := e.GetXY()
	sym.Assert(e.Error() == nil, "no error")
	sym.Assert(sym.Near(gx, x+w), "text advances x by its width")
	if over {
		sym.Assert(sym.And(e.CurrentPage() == 2, header == 2, footer == 1), "text that would be written across the bottom margin starts a page")
		sym.Assert(sym.Near(gy, m[1]), "and is written at its top")
	} else {
		sym.Assert(sym.And(e.CurrentPage() == 1, header == 1, footer == 0), "text inside of the margins starts no page")
		sym.Assert(sym.Near(gy, y), "and keeps y")
	}
}
