// Package c35 decides that registered fonts are used for what they are registered for.
//
// bounds: HStyles: up to two families (names with blanks and capitals) with any subset of the four styles, each from a file of its own or all of one family from one file, selected by every family, weight and slant; HText: texts of three (thorough four) characters out of 11 of one to three bytes, including such whose code has bytes special to PDF, at a symbolic position in a symbolic size; HEmbed: two texts of one and two characters in one or two fonts, the widths, glyph numbers and outlines in the PDF; HCount and HDigits: the page count alias on the last of one to three pages; HBeyond: texts of three characters out of five, three of them beyond the basic multilingual plane; HDoc: whole documents naming fonts in styles
// outside: fonts but the made-up ones (one contour per glyph, widths above zero); characters missing in the font but those of HBeyond; right to left text
// assume: text is painted up to 1 mm to the right of the cursor, the cell margin of the PDF library
// stub: compression is done by the real library on concrete bytes
package c35

import (
	"os"
	"strconv"
	"strings"

	"github.com/jung-kurt/gofpdf/v2"
	"github.com/mazzegi/xpdf"
	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/font"
	"github.com/mazzegi/xpdf/style"
	"github.com/mazzegi/xpdf/xdoc"
	. "github.com/mazzegi/xpdf/zzverif/common"
	"github.com/mazzegi/xpdf/zzverif/sym"
)

const k = 72 / 25.4

type sink struct{ b []byte }

func (s *sink) Write(p []byte) (int, error) { s.b = append(s.b, p...); return len(p), nil }

var styles = []font.Style{font.Regular, font.Bold, font.Italic, font.BoldItalic}

// chars of every font: '(', ')', '0', '9', 'A', 'b', '\\', sharp s, codes with special bytes (0x5c28, 0x0d29), Euro.
var chars = []int{' ', '(', ')', '0', '1', '2', '3', '9', 'A', 'a', 'b', '\\', 0xdf, 0x416, 0xd29, 0x20ac, 0x5c28}

func glyphs(mark int) []Glyph {
	var r []Glyph
	for i, c := range chars {
		r = append(r, Glyph{c, 100 + 40*i + 7*mark})
	}
	return r
}

func width(s string, mark int) float64 {
	w := 0
	for _, r := range s {
		for i, c := range chars {
			if int(r) == c {
				w += 100 + 40*i + 7*mark
			}
		}
	}
	return float64(w)
}

func document() *xdoc.Document {
	d := &xdoc.Document{}
	m := &d.Page.Margins
	m.Left, m.Top, m.Right, m.Bottom = 10, 11, 12, 13
	d.Page.Orientation = xdoc.OrientationPortrait
	return d
}

var dir string

// file writes the font of a mark and names it.
func file(mark int) string {
	if dir == "" {
		dir = sym.Scratch()
	}
	f := dir + "/" + strconv.Itoa(mark) + ".ttf"
	if os.WriteFile(f, TTF(glyphs(mark), 900, mark), 0o600) != nil {
		sym.Assume(false)
	}
	return f
}

func make35(reg *font.Registry) *engine.FPDF {
	gofpdf.SetDefaultCompression(false)
	e, err := engine.NewFPDF(reg, document())
	sym.Assert(err == nil, "the engine is made")
	sym.Assume(err == nil)
	return e
}

var names = []string{"Foo Bar", "baz"}

func fnt(name string, st int) style.Font {
	f := style.Font{Family: name, PointSize: 10, Style: style.FontStyleNormal, Weight: style.FontWeightNormal, Decoration: style.FontDecorationNormal}
	if st&1 != 0 {
		f.Weight = style.FontWeightBold
	}
	if st&2 != 0 {
		f.Style = style.FontStyleItalic
	}
	return f
}

// HStyles: which file is a font.
func HStyles() {
	reg := font.NewRegistry()
	has := map[int]bool{}
	n := 1 + sym.Choose("families", 2)
	own := 1 // 0: all styles are in one file
	if n == 1 {
		own = sym.Choose("own", 2)
	}
	mark := func(i int) int { return i * own }
	for i := 0; i < n; i++ {
		set := 1 + sym.Choose("styles", 15)
		for st := 0; st < 4; st++ {
			if set&(1<<st) != 0 {
				has[4*i+st] = true
				reg.Register(font.Descriptor{Name: names[i], Style: styles[st], FilePath: file(mark(4*i + st))})
			}
		}
	}
	e := make35(reg)
	sym.Assert(e.MonoFont() == "Courier", "the mono font is Courier when none is registered")
	if n == 1 && sym.Bool("page") {
		e.ChangeFont(style.Font{Family: "Arial", PointSize: 10})
		e.AddPage()
	}
	for i := 0; i < 3-n+sym.Tier(); i++ {
		f, st := sym.Choose("family", n), sym.Choose("style", 4)
		ft := fnt(names[f], st)
		if n == 1 && sym.Bool("underline") {
			ft.Decoration = style.FontDecorationUnderline
		}
		e.ChangeFont(ft)
		if !has[4*f+st] {
			sym.Assert(e.Error() != nil, "a style that is not registered is an error")
			return
		}
		sym.Assert(e.Error() == nil, "a registered font can be selected")
		s := "A \u20acb"
		sym.Assert(sym.Near(e.TextWidth(s), width(s, mark(4*f+st))/1000*10/k), "text is as wide as in the font registered for family and style")
	}
}

// HMissing: a font that cannot be read.
func HMissing() {
	reg := font.NewRegistry()
	n, at := 1+sym.Choose("fonts", 3), sym.Choose("at", 3)
	for i := 0; i < n; i++ {
		f := file(i)
		if i == at {
			f = dir + "/none.ttf"
		}
		reg.Register(font.Descriptor{Name: "f" + strconv.Itoa(i), Style: styles[i], FilePath: f})
	}
	e, err := engine.NewFPDF(reg, document())
	if at < n {
		sym.Assert(err != nil && e == nil, "a font file that cannot be read is an error")
	} else {
		sym.Assert(err == nil && e != nil, "fonts that can be read are no error")
	}
}

// utf16 of characters of the basic plane.
func utf16(s string) string {
	var b []byte
	for _, r := range s {
		b = append(b, byte(r>>8), byte(r))
	}
	return string(b)
}

// HText: text in the PDF.
func HText() {
	reg := font.NewRegistry()
	st := sym.Choose("style", 2) * 3
	reg.Register(font.Descriptor{Name: names[0], Style: styles[st], FilePath: file(st)})
	e := make35(reg)
	f := fnt(names[0], st)
	f.PointSize = sym.Float("size", 5, 30, 3)
	e.ChangeFont(f)
	e.AddPage()
	x, y := sym.Float("x", 10, 100, 3), sym.Float("y", 11, 200, 3)
	e.SetX(x)
	e.SetY(y)
	s := ""
	for i := 0; i < 3+sym.Tier(); i++ {
		s += string(rune(chars[sym.Choose("char", len(chars))]))
	}
	w := width(s, st) / 1000 * f.PointSize / k
	sym.Assert(sym.Near(e.TextWidth(s), w), "text is as wide as its characters")
	e.WriteText(s)
	gx, gy := e.GetXY()
	sym.Assert(sym.And(sym.Near(gx, x+w), sym.Near(gy, y)), "text advances x by its width")
	o := &sink{}
	sym.Assert(e.WritePDF(o) == nil, "the PDF is written")
	p := ParsePDF(string(o.b))
	ok := len(p.Pages) == 1 && len(p.Pages[0].Ops) == 1 && p.Pages[0].Ops[0].Kind == "text"
	sym.Assert(ok, "the text is painted")
	sym.Assume(ok)
	op := p.Pages[0].Ops[0]
	sym.Assert(op.S == utf16(s), "every character is painted, in order")
	sym.Assert(sym.And(sym.Leq(x*k-0.03, op.X), sym.Leq(op.X, (x+1.01)*k+0.03)), "the text is painted at its x")
	base := p.H - op.Y
	sym.Assert(sym.And(sym.Leq(y*k, base+0.03), sym.Leq(base, y*k+f.PointSize+0.03)), "the base line is in the line of text")
	sym.Assert(sym.And(sym.Leq(op.Size, f.PointSize+0.01), sym.Leq(f.PointSize, op.Size+0.01)), "text has the size of the font")
}

// object finds the text of an object of a PDF.
func object(pdf, num string) string {
	i := strings.Index(pdf, "\n"+num+" 0 obj\n")
	sym.Assert(i >= 0, "the fonts are complete")
	sym.Assume(i >= 0)
	return pdf[i+1:]
}

// ref reads the number of the object referred to by a key.
func ref(obj, key string) string {
	_, r, ok := strings.Cut(obj, key+" ")
	sym.Assert(ok, "the fonts are complete")
	sym.Assume(ok)
	r = strings.TrimPrefix(r, "[")
	return r[:strings.IndexByte(r, ' ')]
}

// stream inflates the stream of an object.
func stream(obj string) []byte {
	n := 0
	for _, c := range strings.TrimLeft(obj[strings.Index(obj, "/Length ")+8:][:12], " ") {
		if c < '0' || c > '9' {
			break
		}
		n = 10*n + int(c-'0')
	}
	i := strings.Index(obj, "stream\n") + 7
	return sym.Inflate([]byte(obj[i : i+n]))
}

// widths reads a /W array.
func widths(w string) map[int]int {
	r := map[int]int{}
	f := strings.Fields(strings.ReplaceAll(strings.ReplaceAll(w, "[", " [ "), "]", " ] "))
	num := func(i int) int {
		if i >= len(f) {
			return -1
		}
		n, err := strconv.Atoi(f[i])
		sym.Assert(err == nil, "widths are numbers")
		return n
	}
	for i := 0; i < len(f); {
		c := num(i)
		if i+1 < len(f) && f[i+1] == "[" {
			for i += 2; i < len(f) && f[i] != "]"; i++ {
				r[c] = num(i)
				c++
			}
			i++
		} else {
			for e, w := num(i+1), num(i+2); c <= e; c++ {
				r[c] = w
			}
			i += 3
		}
	}
	return r
}

// embedded checks that a character appears as its glyph.
func embedded(pdf, base string, mark, char int) {
	i := strings.Index(pdf, "/BaseFont "+base+"\n/Encoding /Identity-H")
	sym.Assert(i >= 0, "the font is in the PDF")
	sym.Assume(i >= 0)
	cid := object(pdf, ref(pdf[i:], "/DescendantFonts"))
	_, w, _ := strings.Cut(cid, "/W [")
	w, _, _ = strings.Cut(w, "]\n/CIDToGIDMap")
	n := 0
	for n = range chars {
		if chars[n] == char {
			break
		}
	}
	got := widths(w)[char]
	sym.Assert(n < len(chars) && got == 100+40*n+7*mark, "the character has its width")
	m := stream(object(pdf, ref(cid, "/CIDToGIDMap")))
	f := stream(object(pdf, ref(object(pdf, ref(cid, "/FontDescriptor")), "/FontFile2")))
	ok := len(m) == 2*65536
	sym.Assert(ok, "characters are mapped to glyphs")
	sym.Assume(ok)
	g := int(m[2*char])<<8 + int(m[2*char+1])
	loca, glyf := FontTable(f, "loca"), FontTable(f, "glyf")
	ok = 2*g+3 < len(loca)
	sym.Assert(ok && g > 0, "the glyph of the character is in the font")
	sym.Assume(ok)
	a, b := 2*(int(loca[2*g])<<8+int(loca[2*g+1])), 2*(int(loca[2*g+2])<<8+int(loca[2*g+3]))
	want := Outline(n+1, mark)
	ok = a >= 0 && b <= len(glyf) && b-a >= len(want)
	sym.Assert(ok, "the glyph has an outline")
	sym.Assume(ok)
	sym.Assert(string(glyf[a:a+len(want)]) == string(want), "the outline is that of the character in the registered font")
}

// HEmbed: what is embedded of the fonts.
func HEmbed() {
	reg := font.NewRegistry()
	reg.Register(font.Descriptor{Name: names[0], Style: font.Regular, FilePath: file(0)})
	reg.Register(font.Descriptor{Name: names[0], Style: font.Bold, FilePath: file(1)})
	e := make35(reg)
	e.SetPageCountAlias("{np}")
	e.ChangeFont(fnt(names[0], 0))
	e.AddPage()
	type used struct{ op, mark, char int }
	var us []used
	for i := 0; i < 2; i++ {
		st := sym.Choose("style", 2)
		e.ChangeFont(fnt(names[0], st))
		s := ""
		for k := 0; k < 1+i; k++ {
			c := chars[1+sym.Choose("char", len(chars)-1)]
			if i == 1 {
				ok := false
				for _, o := range []int{'(', '9', 'A', 0xdf, 0xd29, 0x5c28}[:5+sym.Tier()] {
					ok = ok || c == o
				}
				sym.Assume(ok)
			}
			us = append(us, used{i, st, c})
			s += string(rune(c))
		}
		e.WriteText(s)
	}
	o := &sink{}
	sym.Assert(e.WritePDF(o) == nil, "the PDF is written")
	p := ParsePDF(string(o.b))
	ok := len(p.Pages) == 1 && len(p.Pages[0].Ops) == 2
	sym.Assert(ok, "the texts are painted")
	sym.Assume(ok)
	for _, u := range us {
		embedded(string(o.b), p.Pages[0].Ops[u.op].Font, u.mark, u.char)
	}
}

// HCount: the page count alias in a registered font.
func HCount() {
	reg := font.NewRegistry()
	reg.Register(font.Descriptor{Name: names[0], Style: font.Regular, FilePath: file(0)})
	e := make35(reg)
	e.SetPageCountAlias("{np}")
	e.ChangeFont(fnt(names[0], 0))
	n := 1 + sym.Choose("pages", 3)
	for i := 0; i < n; i++ {
		e.AddPage()
	}
	e.WriteText("A{np}b")
	o := &sink{}
	sym.Assert(e.WritePDF(o) == nil, "the PDF is written")
	p := ParsePDF(string(o.b))
	ok := len(p.Pages) == n && len(p.Pages[n-1].Ops) == 1
	sym.Assert(ok, "the text is painted")
	sym.Assume(ok)
	op := p.Pages[n-1].Ops[0]
	sym.Assert(op.S == utf16("A"+strconv.Itoa(n)+"b"), "the alias is painted as the number of pages")
	embedded(string(o.b), op.Font, 0, 'A')
	embedded(string(o.b), op.Font, 0, 'b')
}

// HDigits: the digits of the page count are in the font.
func HDigits() {
	reg := font.NewRegistry()
	reg.Register(font.Descriptor{Name: names[0], Style: font.Regular, FilePath: file(0)})
	e := make35(reg)
	e.SetPageCountAlias("{np}")
	e.ChangeFont(fnt(names[0], 0))
	n := 1 + sym.Choose("pages", 3)
	for i := 0; i < n; i++ {
		e.AddPage()
	}
	e.WriteText("A{np}b")
	o := &sink{}
	sym.Assert(e.WritePDF(o) == nil, "the PDF is written")
	p := ParsePDF(string(o.b))
	sym.Assume(len(p.Pages) == n && len(p.Pages[n-1].Ops) > 0)
	embedded(string(o.b), p.Pages[n-1].Ops[0].Font, 0, '0'+n)
}

// HBeyond: characters beyond the basic multilingual plane.
func HBeyond() {
	reg := font.NewRegistry()
	reg.Register(font.Descriptor{Name: names[0], Style: font.Regular, FilePath: file(0)})
	e := make35(reg)
	e.ChangeFont(fnt(names[0], 0))
	e.AddPage()
	s := ""
	n := 0
	for i := 0; i < 3; i++ {
		c := []int{'A', 0x20ac, 0x10000, 0x1f600, 0x10ffff}[sym.Choose("char", 5)]
		if c < 0x10000 {
			n++
		}
		s += string(rune(c))
	}
	sym.Assume(n < 3)
	w := e.TextWidth(s)
	sym.Assert(w >= 0, "text has a width")
	e.WriteText(s)
	sym.Assert(e.Error() == nil, "text beyond the basic plane is no error")
	o := &sink{}
	sym.Assert(e.WritePDF(o) == nil, "the PDF is written")
	p := ParsePDF(string(o.b))
	got := ""
	for _, op := range p.Pages[0].Ops {
		for i := 0; i+1 < len(op.S); i += 2 {
			if u := int(op.S[i])<<8 + int(op.S[i+1]); u == 'A' || u == 0x20ac {
				got += string(rune(u))
			}
		}
	}
	want := ""
	for _, r := range s {
		if r < 0x10000 {
			want += string(r)
		}
	}
	sym.Assert(got == want, "the other characters are painted")
}

// HDoc: fonts named in styles of a document.
func HDoc() {
	reg := font.NewRegistry()
	for st := 0; st < 4; st++ {
		reg.Register(font.Descriptor{Name: names[0], Style: styles[st], FilePath: file(st)})
	}
	st := sym.Choose("style", 4)
	sty := "font-family:Foo Bar"
	if st&1 != 0 {
		sty += ";font-weight:bold"
	}
	if st&2 != 0 {
		sty += ";font-style:italic"
	}
	s := ""
	for i := 0; i < 2+sym.Tier(); i++ {
		s += string(rune([]int{'A', 0xdf, 0x416, 0xd29, 0x20ac, 0x5c28}[sym.Choose("char", 6)]))
	}
	body := []string{`<font style="` + sty + `"/><text>` + s + `</text>`, `<text style="` + sty + `">` + s + `</text>`, `<text><p style="` + sty + `">` + s + `</p></text>`, `<box style="` + sty + `">` + s + `</box>`, `<table><tr style="` + sty + `"><td>` + s + `</td></tr></table>`}[sym.Choose("in", 5)]
	gofpdf.SetDefaultCompression(false)
	doc := Load(`<document><page><margins><left>10</left><top>11</top><right>12</right><bottom>13</bottom></margins></page><body>` + body + `</body></document>`)
	e, err := engine.NewFPDF(reg, doc)
	sym.Assert(err == nil, "the engine is made")
	sym.Assume(err == nil)
	o := &sink{}
	sym.Assert(xpdf.NewProcessor(e, nil, doc, "/").Process(o) == nil, "the document is processed")
	n := 0
	p := ParsePDF(string(o.b))
	for _, op := range p.Pages[0].Ops {
		if op.Kind == "text" {
			n++
			sym.Assert(op.S == utf16(s), "every character is painted, in order")
			for _, r := range s {
				embedded(string(o.b), op.Font, st, int(r))
			}
		}
	}
	sym.Assert(n == 1, "the text is painted once")
}
