// Package c33 decides that what is drawn with the PDF engine is in the PDF.
//
// bounds: every sequence of three (thorough four) operations out of: HText: text at a symbolic position, font changes (three core families, faces, symbolic size), new page; HColors: text, rectangles, lines, colors, line widths, new page; HPages: text, rectangles, lines, images, new page; and of HPairs: something, a change and twice more, in two of seven colors; HFrames: two frames with a side left out, between other operations; coordinates and sizes symbolic
// outside: fonts but the core fonts; text beyond ASCII; images but one JPEG; the bytes of the cross reference table and compression
// assume: text is painted up to 1 mm to the right of the cursor, the cell margin of the PDF library, its base line anywhere in the line
// stub: names of fonts and images in the PDF are unique names instead of hashes; numbers keep their exact value in the PDF, the harness allows for rounding
package c33

import (
	"os"
	"strconv"

	"github.com/jung-kurt/gofpdf/v2"
	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/font"
	"github.com/mazzegi/xpdf/style"
	"github.com/mazzegi/xpdf/xdoc"
	. "github.com/mazzegi/xpdf/zzverif/common"
	"github.com/mazzegi/xpdf/zzverif/sym"
)

func num(name string, lo, hi float64) float64 { return sym.Float(name, lo, hi, 3) }

const k = 72 / 25.4

type sink struct{ b []byte }

func (s *sink) Write(p []byte) (int, error) { s.b = append(s.b, p...); return len(p), nil }

func near(a, b float64) bool { return sym.And(sym.Leq(a, b+0.03), sym.Leq(b, a+0.03)) }

// color compares 0..1 with 0..255.
func color(a [3]float64, c [3]int) bool {
	r := true
	for i := range c {
		d := float64(c[i]) / 255
		r = sym.And(r, sym.Leq(a[i], d+0.002), sym.Leq(d, a[i]+0.002))
	}
	return r
}

type want struct {
	PDFOp
	fill, draw [3]int
	w          float64 // width of text
	under      bool
	page       int
}

var texts = []struct{ s, out string }{{"ab", "ab"}, {"(b) c", "(b) c"}, {`c\d)`, `c\d)`}, {"{np} e", ""}}

var families = [][2]string{{"Arial", "/Helvetica"}, {"Times", "/Times"}, {"Courier", "/Courier"}}

var colors = [][3]int{{9, 9, 9}, {255, 0, 7}}

const jpg = "\xff\xd8\xff\xe0\x00\x10JFIF\x00\x01\x01\x00\x00\x01\x00\x01\x00\x00\xff\xc0\x00\x0b\x08\x00\x08\x00\x10\x01\x01\x11\x00\xff\xd9"

func draw(n int, ops ...int) {
	script(n, func(int) int { return ops[sym.Choose("op", len(ops))] }, colors)
}

// script draws n operations.
func script(n int, op func(i int) int, colors [][3]int) {
	rgb := func(name string) [3]int { return colors[sym.Choose(name, len(colors))] }
	gofpdf.SetDefaultCompression(false)
	d := &xdoc.Document{}
	m := &d.Page.Margins
	m.Left, m.Top, m.Right, m.Bottom = 10, 11, 12, 13
	d.Page.Orientation = xdoc.OrientationPortrait
	e, err := engine.NewFPDF(font.NewRegistry(), d)
	sym.Assert(err == nil, "the engine is made")
	sym.Assume(err == nil)
	e.SetPageCountAlias("{np}")
	fn := style.Font{Family: "Arial", PointSize: 12}
	fam := "/Helvetica"
	e.ChangeFont(fn)
	e.AddPage()
	page := 1
	var ws []want
	var text, fill, pen [3]int
	lw := 0.0
	for i := 0; i < n; i++ {
		switch op(i) {
		case 0:
			x, y := num("x", 10, 150), num("y", 11, 250)
			e.SetX(x)
			e.SetY(y)
			t := texts[0]
			if len(colors) < 5 {
				t = texts[sym.Choose("text", len(texts))]
			}
			ws = append(ws, want{PDFOp: PDFOp{Kind: "text", S: t.out, X: x, Y: y, Size: fn.PointSize, Font: fam}, fill: text, page: page, w: e.TextWidth(t.s), under: fn.Decoration == style.FontDecorationUnderline})
			e.WriteText(t.s)
		case 1:
			v := want{PDFOp: PDFOp{Kind: "rect", X: num("x", 0, 100), Y: num("y", 0, 100), W: num("w", 0, 100), H: num("h", 0, 100)}, fill: fill, page: page}
			e.FillRect(v.X, v.Y, v.W, v.H)
			ws = append(ws, v)
		case 2:
			v := want{PDFOp: PDFOp{Kind: "line", X: num("x", 0, 100), Y: num("y", 0, 100), X1: num("x1", 0, 100), Y1: num("y1", 0, 100), LW: lw}, draw: pen, page: page}
			e.MoveTo(v.X, v.Y)
			e.LineTo(v.X1, v.Y1)
			e.DrawPath()
			ws = append(ws, v)
		case 3:
			fn = style.Font{Family: "Times", PointSize: num("size", 5, 30)}
			f := families[sym.Choose("family", len(families))]
			fn.Family, fam = f[0], f[1]
			italic := map[bool]string{true: "Italic", false: "Oblique"}[fam == "/Times"]
			switch sym.Choose("face", 4) {
			case 0:
				if fam == "/Times" {
					fam = "/Times-Roman"
				}
			case 1:
				fn.Weight = style.FontWeightBold
				fam += "-Bold"
			case 2:
				fn.Style = style.FontStyleItalic
				fam += "-" + italic
			case 3:
				fn.Style, fn.Weight = style.FontStyleItalic, style.FontWeightBold
				fam += "-Bold" + italic
			}
			if sym.Bool("underline") {
				fn.Decoration = style.FontDecorationUnderline
			}
			e.ChangeFont(fn)
		case 4:
			text = rgb("color")
			e.SetTextColor(text[0], text[1], text[2])
		case 5:
			fill = rgb("color")
			e.SetFillColor(fill[0], fill[1], fill[2])
		case 6:
			pen = rgb("color")
			lw = num("lw", 0.02, 5)
			e.SetDrawColor(pen[0], pen[1], pen[2])
			e.SetLineWidth(lw)
		case 7:
			e.AddPage()
			page++
		case 9: // a frame, one side of which is left out
			out := sym.Choose("out", 4)
			x0, y0, x1, y1 := num("x", 0, 100), num("y", 0, 100), num("x1", 0, 100), num("y1", 0, 100)
			c := [5][2]float64{{x0, y0}, {x1, y0}, {x1, y1}, {x0, y1}, {x0, y0}}
			e.MoveTo(c[0][0], c[0][1])
			for k := 0; k < 4; k++ {
				if k == out {
					e.MoveTo(c[k+1][0], c[k+1][1])
					continue
				}
				e.LineTo(c[k+1][0], c[k+1][1])
				ws = append(ws, want{PDFOp: PDFOp{Kind: "line", X: c[k][0], Y: c[k][1], X1: c[k+1][0], Y1: c[k+1][1], LW: lw}, draw: pen, page: page})
			}
			e.DrawPath()
		case 8:
			file := sym.Scratch() + "/i.jpg"
			if os.WriteFile(file, []byte(jpg), 0o600) != nil {
				sym.Assume(false)
			}
			v := want{PDFOp: PDFOp{Kind: "image", X: num("x", 0, 100), Y: num("y", 0, 100), W: num("w", 0.125, 100), H: num("h", 0.125, 100)}, page: page}
			e.PutImage(file, v.X, v.Y, v.W, v.H)
			ws = append(ws, v)
		}
	}
	sym.Assert(e.Error() == nil, "drawing does not fail")
	s := &sink{}
	sym.Assert(e.WritePDF(s) == nil, "the PDF is written")
	p := ParsePDF(string(s.b))
	sym.Assert(len(p.Pages) == page && p.Count == strconv.Itoa(page), "the PDF has a page for every one started")
	sym.Assume(len(p.Pages) == page)
	sym.Assert(sym.And(near(p.W, 595.28), near(p.H, 841.89)), "the pages have the size of the paper")
	pos, pg := 0, 0
	for _, w := range ws {
		for pg < w.page {
			if pg > 0 {
				sym.Assert(pos == len(p.Pages[pg-1].Ops), "nothing else is painted")
			}
			pg++
			pos = 0
		}
		ops := p.Pages[pg-1].Ops
		ok := pos < len(ops) && ops[pos].Kind == w.Kind
		sym.Assert(ok, "everything drawn is painted on its page, in order")
		sym.Assume(ok)
		o := ops[pos]
		pos++
		sym.Assert(sym.And(sym.Leq(w.X*k-0.03, o.X), sym.Leq(o.X, w.X*k+0.03+sym.IteF(w.Kind == "text", 1.01*k, 0))), "it is painted at its x")
		switch w.Kind {
		case "text":
			t := w.S
			if t == "" {
				t = strconv.Itoa(page) + " e"
			}
			sym.Assert(o.S == t, "text is painted as written, with the number of pages for its alias")
			sym.Assert(near(o.Size, w.Size), "text has the size of the font")
			sym.Assert(o.Font == w.Font, "text has the family and weight of the font")
			sym.Assert(color(o.Fill, w.fill), "text has the text color")
			base := p.H - o.Y
			sym.Assert(sym.And(sym.Leq(w.Y*k, base+0.03), sym.Leq(base, w.Y*k+w.Size+0.03)), "the base line is in the line of text")
			if w.under {
				ok := pos < len(ops) && ops[pos].Kind == "rect"
				sym.Assert(ok, "underlined text is underlined")
				sym.Assume(ok)
				sym.Assert(sym.And(near(ops[pos].X, o.X), sym.Leq(ops[pos].Y, o.Y+0.03), sym.Leq(o.Y, ops[pos].Y+w.Size)), "the underline is below the text")
				if w.S != "" {
					sym.Assert(near(ops[pos].W, w.w*k), "the underline is as wide as the text")
				}
				pos++
			}
		case "rect":
			sym.Assert(o.S == "f", "a rectangle is filled")
			sym.Assert(sym.And(near(p.H-o.Y, w.Y*k), near(o.W, w.W*k), near(-o.H, w.H*k)), "a rectangle has its place and size")
			sym.Assert(color(o.Fill, w.fill), "a rectangle has the fill color")
		case "line":
			sym.Assert(o.S == "S", "a path is stroked")
			sym.Assert(sym.And(near(p.H-o.Y, w.Y*k), near(o.X1, w.X1*k), near(p.H-o.Y1, w.Y1*k)), "a line has its ends")
			sym.Assert(color(o.Draw, w.draw), "a line has the draw color")
			if w.LW != 0 {
				sym.Assert(near(o.LW, w.LW*k), "a line has the line width")
			}
		case "image":
			sym.Assert(sym.And(near(p.H-o.Y-o.H, w.Y*k), near(o.W, w.W*k), near(o.H, w.H*k)), "an image has its place and size")
		}
	}
	for ; pg <= page; pg++ {
		if pg > 0 {
			sym.Assert(pos == len(p.Pages[pg-1].Ops), "nothing else is painted")
		}
		pos = 0
	}
}

// HPairs: something drawn in two colors.
func HPairs() {
	kind := sym.Choose("kind", 3)
	ops := []int{4 + kind, kind, []int{7, 2 - kind/2, kind}[sym.Choose("between", 3)], 4 + kind, kind, kind}
	two := [][3]int{{255, 0, 7}, {7, 255, 0}, {0, 0, 0}, {255, 255, 255}, {1, 2, 3}, {255, 0, 6}, {128, 128, 127}}
	script(len(ops), func(i int) int { return ops[i] }, two)
}

// HFrames: paths of several lines.
func HFrames() {
	ops := []int{1 + sym.Choose("before", 2), 6, 9, []int{1, 2, 6, 7}[sym.Choose("between", 4)], 9, 2}
	script(len(ops), func(i int) int { return ops[i] }, colors)
}

func HText()   { draw(3+sym.Tier(), 0, 3, 7) }
func HColors() { draw(3+sym.Tier(), 0, 1, 2, 4, 5, 6, 7) }
func HPages()  { draw(3+sym.Tier(), 0, 1, 2, 7, 8) }
