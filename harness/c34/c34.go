// Package c34 decides what the PDF of a whole document holds, made by the real engine and PDF library.
//
// bounds: HText: a text of 16 words at a symbolic height of an A5 page with symbolic margins, every alignment; HBoxes: two (thorough three) boxes of symbolic padding and height, one to twelve words and every alignment, at a symbolic height; HTable: a table of four (thorough six) rows, the first repeated or not, with column and row spans, at a symbolic height; HParts: up to four elements and page breaks between a header and a footer naming page and number of pages
// outside: fonts but the core font Helvetica; images (C25, C33); words wider than the page; text beyond ASCII
// assume: text is painted up to 1 mm to the right of the cursor, the cell margin of the PDF library
// stub: names of fonts and images in the PDF are unique names instead of hashes; numbers keep their exact value in the PDF, the harness allows for rounding
package c34

import (
	"strings"

	"github.com/jung-kurt/gofpdf/v2"
	"github.com/mazzegi/xpdf"
	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/font"
	"github.com/mazzegi/xpdf/style"
	. "github.com/mazzegi/xpdf/zzverif/common"
	"github.com/mazzegi/xpdf/zzverif/sym"
)

func num(name string, lo, hi float64) float64 { return sym.Float(name, lo, hi, 3) }

const k = 72 / 25.4

type sink struct{ b []byte }

func (s *sink) Write(p []byte) (int, error) { s.b = append(s.b, p...); return len(p), nil }

// process makes the PDF of a document.
func process(doc string) (PDFDoc, *engine.FPDF) {
	gofpdf.SetDefaultCompression(false)
	d := Load(doc)
	e, err := engine.NewFPDF(font.NewRegistry(), d)
	sym.Assert(err == nil, "the engine is made")
	sym.Assume(err == nil)
	s := &sink{}
	sym.Assert(xpdf.NewProcessor(e, Hyphenator("1q"), d, "/work").Process(s) == nil, "the document is processed")
	return ParsePDF(string(s.b)), e
}

type margins struct{ l, t, r, b float64 }

func (m margins) xml() string {
	f := sym.FloatText
	return "<page><format>a5</format><margins><left>" + f(m.l) + "</left><top>" + f(m.t) + "</top><right>" + f(m.r) + "</right><bottom>" + f(m.b) + "</bottom></margins></page>"
}

// inside asserts that all text is inside of the margins, and returns the words of every page.
func inside(p PDFDoc, e *engine.FPDF, m margins) [][]string {
	var r [][]string
	for _, pg := range p.Pages {
		s := ""
		for _, o := range pg.Ops {
			if o.Kind != "text" {
				continue
			}
			sym.Assert(sym.And(sym.Leq(m.l*k-0.03, o.X), sym.Leq(o.X+width(e, o), p.W-m.r*k+0.03)), "text is between the left and the right margin")
			sym.Assert(sym.And(sym.Leq(m.b*k-0.03, o.Y), sym.Leq(o.Y+0.5*o.Size, p.H-m.t*k+0.03)), "text is between the top and the bottom margin")
			s += " " + o.S
		}
		r = append(r, strings.Fields(s))
	}
	return r
}

// width of a painted text in points.
func width(e *engine.FPDF, o PDFOp) float64 {
	e.ChangeFont(style.Font{Family: "Arial", PointSize: o.Size})
	return e.TextWidth(o.S) * k
}

func anyMargins() margins {
	return margins{num("left", 1, 30), num("top", 1, 30), num("right", 1, 30), num("bottom", 1, 30)}
}

var aligns = []string{"left", "right", "center", "block"}

const long = "one two three four five six seven eight nine ten eleven twelve thirteen fourteen fifteen sixteen"

// HText is a stretch of text over lines and pages.
func HText() {
	m := anyMargins()
	y := num("y", 150, 180)
	al := aligns[sym.Choose("align", 4)]
	p, e := process("<document>" + m.xml() + `<body><sety y="` + sym.FloatText(y) + `"/><text style="h-align:` + al + `">` + long + `</text></body></document>`)
	var all []string
	for _, ws := range inside(p, e, m) {
		all = append(all, ws...)
	}
	sym.Assert(strings.Join(all, " ") == long, "every word is in the PDF, once and in order")
}

// HBoxes is boxes over pages.
func HBoxes() {
	m := anyMargins()
	doc := "<document>" + m.xml() + `<body><sety y="` + sym.FloatText(num("y", 150, 170)) + `"/>`
	al := aligns[sym.Choose("align", 4)]
	type box struct {
		h    float64
		pad  float64
		text string
	}
	var bs []box
	want := ""
	for i := 0; i < 2+sym.Tier(); i++ {
		b := box{pad: num("pad", 0, 8)}
		b.text = []string{"uno", long[:60]}[sym.Choose("text", 2)]
		want += " " + b.text
		f := sym.FloatText(b.pad)
		st := "line-width:0;h-align:" + al + ";padding:" + f + "," + f + "," + f + "," + f
		if sym.Bool("height") {
			b.h = num("h", 20, 40)
			st += ";height:" + sym.FloatText(b.h)
		}
		bs = append(bs, b)
		doc += `<box style="` + st + `">` + b.text + "</box>"
	}
	p, e := process(doc + "</body></document>")
	var all []string
	for _, ws := range inside(p, e, m) {
		all = append(all, ws...)
	}
	sym.Assert(strings.Join(all, " ") == want[1:], "every word is in the PDF, once and in order")
	n := 0
	var r PDFOp
	for _, pg := range p.Pages {
		for i, o := range pg.Ops {
			sym.Assert(i > 0 || o.Kind == "rect", "a page starts with a box")
			switch o.Kind {
			case "rect":
				r = o
				if n < len(bs) && bs[n].h != 0 {
					sym.Assert(sym.And(sym.Leq(-r.H-0.03, (bs[n].h+2*bs[n].pad)*k), sym.Leq((bs[n].h+2*bs[n].pad)*k, -r.H+0.03)), "a box has its height")
				}
				n++
				sym.Assert(sym.And(sym.Leq(m.b*k-0.03, r.Y+r.H), sym.Leq(r.Y, p.H-m.t*k+0.03)), "a box is between the top and the bottom margin")
			case "text":
				ok := n > 0 && n <= len(bs)
				sym.Assert(ok, "every box is painted once")
				sym.Assume(ok)
				pad := bs[n-1].pad * k
				sym.Assert(sym.And(sym.Leq(r.X+pad-0.03, o.X), sym.Leq(o.X+width(e, o), r.X+r.W-pad+1.01*k+0.03)), "text is in the padded width of its box")
				sym.Assert(sym.And(sym.Leq(r.Y+r.H+pad-0.03, o.Y), sym.Leq(o.Y+0.5*o.Size, r.Y-pad+0.03)), "text is in the padded height of its box")
			}
		}
	}
	sym.Assert(n == len(bs), "every box is painted once")
}

// HTable is a table over pages.
func HTable() {
	m := anyMargins()
	doc := "<document>" + m.xml() + `<body><sety y="` + sym.FloatText(num("y", 100, 165)) + `"/>`
	head := sym.Choose("head", 2)
	h := num("h", 10, 25)
	hs := `style="height:` + sym.FloatText(h) + `"`
	doc += `<table repeatheader="` + sym.IntText(head) + `" style="line-width:0">`
	rows := []string{
		"<tr " + hs + "><td>alpha</td><td>beta</td><td>gamma</td></tr>",
		"<tr><td>one two three four five</td><td colspan=\"2\">six seven eight nine ten eleven twelve thirteen</td></tr>",
		"<tr " + hs + "><td colspan=\"3\">fourteen</td></tr>",
		"<tr><td>fifteen</td><td>sixteen seventeen</td><td/></tr>",
		"<tr><td rowspan=\"2\">eighteen</td><td>nineteen</td><td>twenty</td></tr>",
		"<tr><td>thirty</td><td>fourty</td></tr>",
	}
	texts := []string{"alpha beta gamma", "one two three four five six seven eight nine ten eleven twelve thirteen", "fourteen", "fifteen sixteen seventeen", "eighteen nineteen twenty", "thirty fourty"}
	n := 4 + 2*sym.Tier()
	for i := 0; i < n; i++ {
		doc += rows[i]
	}
	p, e := process(doc + "</table></body></document>")
	var all []string
	for i, ws := range inside(p, e, m) {
		s := strings.Join(ws, " ")
		if s == "" {
			sym.Assert(i == 0, "no page stays empty")
			continue
		}
		if head == 1 {
			sym.Assert(strings.HasPrefix(s, texts[0]+" "), "the header row starts every page of the table and is never alone on it")
			sym.Assume(strings.HasPrefix(s, texts[0]+" "))
			s = s[len(texts[0])+1:]
		}
		all = append(all, s)
	}
	sym.Assert(strings.Join(all, " ") == strings.Join(texts[head:n], " "), "every row is in the PDF, once and in order")
}

// HParts has a header and a footer on every page.
func HParts() {
	m := margins{num("left", 1, 30), num("top", 15, 30), num("right", 1, 30), num("bottom", 15, 30)}
	doc := "<document>" + m.xml() + `<header><sety y="2"/><text style="font-weight:bold">head {cp} of {np}</text></header><footer><sety y="199"/><box>foot {cp} of {np}</box></footer><body>`
	parts := []struct{ xml, text string }{
		{"<text>some words in a text of {np}</text>", "some words in a text of {np}"}, // a text may start before the page it is painted on
		{`<box style="height:60">a box on {cp}</box>`, "a box on {cp}"},
		{"<newpage/>", "!"},
		{`<table><tr style="height:70"><td>left</td><td>right {cp}</td></tr></table>`, "left right {cp}"},
	}
	var want []string
	for i := sym.Choose("n", 5); i > 0; i-- {
		q := parts[sym.Choose("part", len(parts))]
		doc += q.xml
		want = append(want, q.text)
	}
	p, _ := process(doc + "</body></document>")
	np := sym.IntText(len(p.Pages))
	pos := 0
	for i, pg := range p.Pages {
		cp := sym.IntText(i + 1)
		s := ""
		for _, o := range pg.Ops {
			if o.Kind == "text" {
				s += " " + o.S
			}
		}
		s = strings.Join(strings.Fields(s), " ")
		num := func(s string) string { return strings.ReplaceAll(strings.ReplaceAll(s, "{cp}", cp), "{np}", np) }
		head, foot := num("head {cp} of {np}"), num("foot {cp} of {np}")
		ok := len(s) >= len(head)+len(foot) && strings.HasPrefix(s, head) && strings.HasSuffix(s, foot)
		sym.Assert(ok, "every page has header and footer with its number and the number of pages")
		sym.Assume(ok)
		s = strings.TrimSpace(s[len(head) : len(s)-len(foot)])
		forced := false
		for pos < len(want) && !forced {
			t := num(want[pos])
			switch {
			case t == "!":
				forced = true
				pos++
			case strings.HasPrefix(s, t):
				s = strings.TrimSpace(s[len(t):])
				pos++
			default:
				forced = true
			}
		}
		sym.Assert(s == "", "nothing but the body is between header and footer")
		sym.Assert(i == len(p.Pages)-1 || forced, "no page is started without need")
	}
	sym.Assert(pos == len(want), "the whole body is in the PDF, in order")
}
