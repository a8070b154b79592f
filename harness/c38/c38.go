// Package c38 decides where elements and the lines of a text follow one another.
//
// bounds: HLines: a text, box or table cell (vertically top aligned) of three (thorough four) lines, each of one to three words in the element's or a paragraph's font, ended by <br/>, any but the last one possibly empty, in any horizontal alignment, with symbolic font sizes and line spacing; HSequence: sequences of up to 3 (thorough 4) elements out of 9 kinds (texts, boxes, tables, an image, line feeds, cursor moves, a font) with symbolic numbers in header, footer or body, ended by a text
// outside: page breaks (C06, C10); boxes and images in cells
package c38

import (
	"os"

	"github.com/mazzegi/xpdf"
	. "github.com/mazzegi/xpdf/zzverif/common"
	"github.com/mazzegi/xpdf/zzverif/sym"
)

func num(name string, lo, hi float64) float64 { return sym.Float(name, lo, hi, 3) }

// exp is something that must be drawn somewhere.
type exp struct {
	s    string
	x, y float64
}

const letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"

func engine() *Eng {
	e := NewEng(300, 5000, 10, 20, 30, 40)
	for i := range letters {
		e.CharW[letters[i]] = 3
	}
	e.CharW[' '] = 1
	return e
}

type lines struct {
	next    int
	n       int
	size    float64 // of the element's font
	spacing float64
	want    []exp
}

// make makes the content of an element and where its lines are, starting at y; end is where a line after the last one would be.
func (l *lines) make(y float64) (txt string, end float64) {
	for i := 0; i < l.n; i++ {
		kinds := 5
		if i == l.n-1 {
			kinds = 4
		}
		h := 0.0
		word := func(big bool) {
			s := letters[l.next : l.next+1]
			l.next++
			size := l.size
			if big {
				size = num("size", 4, 20)
				txt += `<p style="font-point-size:` + sym.FloatText(size) + `">` + s + `</p>`
			} else {
				txt += s
			}
			l.want = append(l.want, exp{s: s, y: y})
			h = sym.MaxF(h, size*PtHeight)
		}
		switch sym.Choose("line", kinds) {
		case 0:
			word(false)
		case 1:
			word(true)
		case 2:
			word(true)
			txt += " "
			word(false)
		case 3:
			word(false)
			txt += " "
			word(false)
			txt += " "
			word(true)
		case 4: // empty
			h = l.size * PtHeight
		}
		if i < l.n-1 {
			txt += "<br/>"
		}
		y += h * l.spacing
	}
	return txt, y
}

func HLines() {
	e := engine()
	l := &lines{n: 3 + sym.Tier(), size: num("font", 4, 20), spacing: num("spacing", 0.5, 3)}
	align := []string{"left", "right", "center", "block"}[sym.Choose("align", 4)]
	sty := `style="line-spacing:` + sym.FloatText(l.spacing) + ";font-point-size:" + sym.FloatText(l.size) + ";h-align:" + align
	y := e.T
	var body string
	after := 0.0
	elem := sym.Choose("element", 3)
	pad := 0.0
	if elem > 0 {
		pad = num("padding", 0, 5)
		sty += ";padding:0," + sym.FloatText(pad) + ",0,0"
	}
	txt, end := l.make(y + pad)
	sty += `"`
	switch elem {
	case 0:
		body = "<text " + sty + ">" + txt + "</text>"
		after = end
	case 1:
		body = "<box " + sty + ">" + txt + "</box>"
	case 2:
		body = "<table><tr><td " + sty + ">" + txt + "</td></tr></table>"
	}
	body += "<text>Z</text>"
	Run(e, Hyphenator("a1a"), Doc("", body))
	got := e.Of(EvText, Body)
	ok := len(got) == len(l.want)+1
	sym.Assert(ok, "every word is written")
	sym.Assume(ok)
	for i, w := range l.want {
		sym.Assert(trim(got[i].S) == w.s, "the words are written in order")
		sym.Assert(sym.Near(got[i].Y, w.y), "lines follow one another at line spacing times the height of their highest font")
	}
	if elem == 0 {
		sym.Assert(sym.And(sym.Near(got[len(got)-1].X, e.L), sym.Near(got[len(got)-1].Y, after)), "after a text the cursor is at the left margin below its last line")
	}
}

func trim(s string) string {
	for len(s) > 0 && s[0] == ' ' {
		s = s[1:]
	}
	return s
}

// HSequence follows the cursor.
func HSequence() {
	part := sym.Choose("part", 3)
	e := engine()
	dir := sym.Scratch()
	if os.WriteFile(dir+"/p", []byte{'G', 'I', 'F', '8', '9', 'a', 96, 0, 48, 0, 0, 0, 0}, 0o600) != nil {
		sym.Assume(false)
	}
	x, y := e.L, e.T
	var before string
	if part == 2 {
		// the footer starts where the page ended
		x, y = num("fx", 0, 200), num("fy", 0, 300)
		before = `<setx x="` + sym.FloatText(x) + `"/><sety y="` + sym.FloatText(y) + `"/>`
	}
	var want []exp
	var img []exp
	next := 0
	word := func() string {
		s := letters[next : next+1]
		next++
		return s
	}
	fh := 12 * PtHeight
	xml := ""
	for i := 1 + sym.Choose("n", 3+sym.Tier()); i > 0; i-- {
		switch sym.Choose("instruction", 9) {
		case 0:
			s, sz := word(), num("size", 4, 20)
			xml += `<text style="font-point-size:` + sym.FloatText(sz) + `;line-spacing:2">` + s + "</text>"
			want = append(want, exp{s: s, x: x, y: y})
			x, y = e.L, y+2*sz*PtHeight
		case 1:
			s, h := word(), num("height", 1, 50)
			xml += `<box style="height:` + sym.FloatText(h) + `">` + s + "</box>"
			want = append(want, exp{s: s, x: x, y: y})
			x, y = e.L, y+h
		case 2:
			s, h := word(), num("row", 10, 50)
			xml += `<table><tr style="height:` + sym.FloatText(h) + `"><td>` + s + "</td></tr></table>"
			want = append(want, exp{s: s, x: x, y: y})
			y += h
		case 3:
			x = num("x", 0, 200)
			xml += `<setx x="` + sym.FloatText(x) + `"/>`
		case 4:
			y = num("y", 0, 300)
			xml += `<sety y="` + sym.FloatText(y) + `"/>`
		case 5:
			n := num("lines", 0, 9)
			xml += `<lf lines="` + sym.FloatText(n) + `"/>`
			x, y = e.L, y+fh*n
		case 6:
			xml += `<image>p</image>`
			img = append(img, exp{x: x, y: y})
		case 7:
			sz := num("font", 4, 20)
			xml += `<font style="font-point-size:` + sym.FloatText(sz) + `"/>`
			fh = sz * PtHeight
		case 8:
			xml += "<text></text>\n"
		}
	}
	s := word()
	xml += "<text>" + s + "</text>"
	want = append(want, exp{s: s, x: x, y: y})
	doc := "<document><body>" + xml + "</body></document>"
	switch part {
	case 1:
		doc = "<document><header>" + xml + "</header><body><text>Z</text></body></document>"
	case 2:
		doc = "<document><footer>" + xml + "</footer><body>" + before + "</body></document>"
	}
	sym.Assert(xpdf.NewProcessor(e, nil, Load(doc), dir).Process(&sink{}) == nil, "the document is processed")
	got, imgs := e.Of(EvText, part), e.Of(EvImage, part)
	ok := len(got) == len(want) && len(imgs) == len(img)
	sym.Assert(ok, "every element is drawn once")
	sym.Assume(ok)
	for i, w := range want {
		sym.Assert(got[i].S == w.s, "elements are drawn in order")
		sym.Assert(sym.And(sym.Near(got[i].X, w.x), sym.Near(got[i].Y, w.y)), "elements start at the cursor those before them left")
	}
	for i, w := range img {
		sym.Assert(sym.And(sym.Near(imgs[i].X, w.x), sym.Near(imgs[i].Y, w.y)), "images are put at the cursor")
	}
	sym.Assert(e.Page == 1, "no page is started")
}

type sink struct{ n int }

func (s *sink) Write(p []byte) (int, error) { s.n += len(p); return len(p), nil }
