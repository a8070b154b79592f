// Package c37 decides that what is drawn depends on the document only.
//
// bounds: documents of elements out of ten (font, plain, justified hyphenated and mixed text, boxes, a table with spans, an image, page break, grid, line feed) with header and style sheet, one character width symbolic; HAgain: two elements, drawn twice, from one loaded document or two, in between another document of one element with other class definitions, hyphenation patterns, working directory and picture of the same name, wider letters, which succeeds (and is drawn as if nothing had the same name before), fails in the engine or does not load; HNested: one element (thorough two), the other document drawn in the middle of the first, at any of the first 40 (thorough 120) calls of the engine; HOrder: five documents, every order of iterating maps
// outside: really parallel use; longer histories
package c37

import (
	"os"
	"strings"

	"github.com/mazzegi/xpdf"
	"github.com/mazzegi/xpdf/hyphenation"
	"github.com/mazzegi/xpdf/style"
	"github.com/mazzegi/xpdf/xdoc"
	. "github.com/mazzegi/xpdf/zzverif/common"
	"github.com/mazzegi/xpdf/zzverif/sym"
)

// A, B and R are letters, C and D classes, P the picture.
var frags = []string{
	`<font class="C"/>`,
	`<text class="C D">ABRA AABB {cp} A</text>`,
	`<text style="h-align:block">ABRAABRA ABRA A BBB</text>`,
	`<box style="padding:2,1,2,1;border:1,1,1,1;width:30" class="D C">ABRA<br/>B</box>`,
	`<table repeatheader="1" class="C"><tr style="font-weight:bold"><td colspan="2">A</td><td rowspan="2">ABRA</td></tr><tr><td class="C">B</td><td>R</td></tr></table>`,
	`<image style="width:20">P</image>`,
	`<text>B<p style="font-weight:bold;font-point-size:10">A</p> B<br/>ABRA</text>`,
	`<newpage/>`,
	`<grid><rows><gr>A A</gr><gr>B R</gr></rows><parts><part area="A"><text>R</text></part></parts></grid>`,
	`<lf lines="2"/>`,
}

// names gives everything named in a document its name.
func names(s string, renamed bool) string {
	n := "abrcdp"
	if renamed {
		n = "efghiq"
	}
	for i, c := range []string{"A", "B", "R", "C", "D", "P"} {
		s = strings.ReplaceAll(s, c, n[i:i+1])
	}
	return s
}

const (
	sheet1 = `C{font-point-size:12;color-text:#ff0000;padding:1,1,1,1}D{font-style:italic;h-align:right}C:first-row{font-weight:bold}`
	sheet2 = `C{font-family:Times;font-decoration:underline;width:50}D{font-point-size:6;h-align:center}C:first-row{padding:4,4,4,4}`
)

func write(w, h int) string {
	dir := sym.Scratch()
	for _, n := range []string{"/p", "/q"} {
		if os.WriteFile(dir+n, []byte{'G', 'I', 'F', '8', '9', 'a', byte(w), byte(w >> 8), byte(h), byte(h >> 8), 0, 0, 0}, 0o600) != nil {
			sym.Assume(false)
		}
	}
	return dir
}

type setup struct {
	hyph       *hyphenation.Hyphenator
	hyph2      *hyphenation.Hyphenator // of the other document
	dir1, dir2 string
	doc1, doc2 string
	wa         float64
}

func (s *setup) eng(fail bool) *Eng {
	e := NewEng(80, 90, 10, 10, 10, 10)
	for i := range e.CharW {
		e.CharW[i] = 2
	}
	e.CharW['a'], e.CharW['e'] = s.wa, s.wa
	if fail {
		e.FailAtPage = 1
	}
	return e
}

func prepare(n, other int) *setup {
	s := &setup{hyph: Hyphenator("a1b a1a e1f e1e"), hyph2: Hyphenator("r1a b1a g1e f1e"), dir1: write(40, 20), dir2: write(20, 40)}
	s.wa = sym.Float("wa", 1, 3, 1)
	b := ""
	for i := 0; i < n; i++ {
		b += frags[sym.Choose("element", len(frags))]
	}
	s.doc1 = names("<document><style>"+sheet1+"</style><header><text>{cp} A</text></header><body>"+b+"</body></document>", false)
	s.doc2 = "<document><style>" + sheet2 + "</style><footer><text>B</text></footer><body>" + frags[sym.Choose("other", other)] + "</body></document>"
	return s
}

type sink struct{ b []byte }

func (s *sink) Write(p []byte) (int, error) { s.b = append(s.b, p...); return len(p), nil }

// first draws the document.
func (s *setup) first(doc *xdoc.Document) *Eng {
	e := s.eng(false)
	sym.Assert(xpdf.NewProcessor(e, s.hyph, doc, s.dir1).Process(&sink{}) == nil, "the document is processed")
	return e
}

// other draws the other document, whose letters are wider.
func (s *setup) other(fail, renamed bool) *Eng {
	e := s.eng(fail)
	for i := range e.CharW {
		e.CharW[i] *= 1.5
	}
	err := xpdf.NewProcessor(e, s.hyph2, Load(names(s.doc2, renamed)), s.dir2).Process(&sink{})
	sym.Assert(fail == (err != nil), "the other document is processed or fails with the engine")
	return e
}

// back undoes the renaming in what was drawn.
func back(s string) string {
	if s == "" || s[0] != '/' {
		for i := range "abr" {
			s = strings.ReplaceAll(s, "efg"[i:i+1], "abr"[i:i+1])
		}
	} else if s[len(s)-1] == 'q' {
		s = s[:len(s)-1] + "p"
	}
	return s
}

func near(a, b float64) bool { return sym.Near(a, b) }

func rgb(a, b style.RGB) bool { return EqRGB(a, b) }

// same checks that two engines were asked for the same.
func same(a, b *Eng) {
	ok := len(a.Evs) == len(b.Evs)
	sym.Assert(ok, "as much is drawn")
	sym.Assume(ok)
	for i, v := range a.Evs {
		w := b.Evs[i]
		ok := v.Kind == w.Kind && back(v.S) == back(w.S) && v.Page == w.Page && v.Part == w.Part && len(v.Segs) == len(w.Segs)
		sym.Assert(ok, "the same is drawn")
		sym.Assume(ok)
		sym.Assert(sym.And(near(v.X, w.X), near(v.Y, w.Y), near(v.W, w.W), near(v.H, w.H), near(v.Lines, w.Lines), near(v.LineWidth, w.LineWidth)), "it is drawn at the same place")
		sym.Assert(sym.And(EqFont(v.Font, w.Font), rgb(v.Color, w.Color)), "it is drawn in the same font and color")
		for k, g := range v.Segs {
			h := w.Segs[k]
			sym.Assert(sym.And(near(g.X0, h.X0), near(g.Y0, h.Y0), near(g.X1, h.X1), near(g.Y1, h.Y1)), "the same lines are drawn")
		}
	}
}

// HAgain: the same document twice.
func HAgain() {
	between := sym.Choose("between", 4)
	s := prepare(2, []int{1, len(frags), 3, 1}[between])
	doc := Load(s.doc1)
	before := xdoc.Describe(doc).Dump(xdoc.DescribeXML)
	a := s.first(doc)
	switch between {
	case 1:
		// what the first document left behind would show under the same names only
		same(s.other(false, false), s.other(false, true))
	case 2:
		s.other(true, false)
	case 3:
		_, err := xdoc.Load(strings.NewReader(strings.Replace(names(s.doc2, false), "</body>", `<text style="padding:x"/></bod`, 1)))
		sym.Assert(err != nil, "the other document does not load")
	}
	sym.Assert(xdoc.Describe(doc).Dump(xdoc.DescribeXML) == before, "drawing does not change the document")
	if between == 1 && sym.Bool("reload") {
		doc = Load(s.doc1)
	}
	same(a, s.first(doc))
}

// hook runs something in the middle of drawing.
type hook struct {
	*Eng
	at int
	do func()
}

func (h *hook) tick() {
	h.at--
	if h.at == 0 {
		h.do()
	}
}

func (h *hook) TextWidth(s string) float64 { h.tick(); return h.Eng.TextWidth(s) }
func (h *hook) WriteText(s string)         { h.tick(); h.Eng.WriteText(s) }
func (h *hook) ChangeFont(f style.Font)    { h.tick(); h.Eng.ChangeFont(f) }
func (h *hook) FontHeight() float64        { h.tick(); return h.Eng.FontHeight() }
func (h *hook) CurrentPage() int           { h.tick(); return h.Eng.CurrentPage() }
func (h *hook) AddPage()                   { h.tick(); h.Eng.AddPage() }
func (h *hook) LineFeed(n float64)         { h.tick(); h.Eng.LineFeed(n) }

// HNested: one element (thorough two), the other document in the middle of the first.
func HNested() {
	s := prepare(1+sym.Tier(), len(frags))
	a := s.first(Load(s.doc1))
	e := s.eng(false)
	h := &hook{e, 1 + sym.Choose("at", 40+80*sym.Tier()), func() { s.other(false, false) }}
	sym.Assert(xpdf.NewProcessor(h, s.hyph, Load(s.doc1), s.dir1).Process(&sink{}) == nil, "the document is processed")
	sym.Assume(h.at <= 0)
	same(a, e)
}

// HOrder: maps iterated in any order.
func HOrder() {
	s := prepare(0, 1)
	b := []string{
		`<text class="c">abra {cp} a</text>`,
		`<box class="c d">abra<br/>b</box>`,
		`<table><tr class="c"><td colspan="2">a</td><td rowspan="2">abra</td></tr><tr><td>x</td><td>y</td><td rowspan="3">z</td></tr></table>`,
		`<grid><rows><gr>a a</gr><gr>b c</gr></rows><parts><part area="a"><text>p</text></part></parts></grid>`,
		`<text style="padding:1,1,1,1;font-point-size:9;color-text:#010203">b<p class="d">a</p></text>`,
	}[sym.Choose("element", 5)]
	s.doc1 = `<document><style>c{font-point-size:12;padding:2,1,2,1}d{font-weight:bold}c:first-row{width:7}</style><body>` + b + `</body></document>`
	doc := Load(s.doc1)
	a, desc := s.first(doc), xdoc.Describe(doc).Dump(xdoc.DescribeXML)
	n := 30 // maps are iterated in random order natively
	if sym.Symbolic() {
		n = 1
	}
	for i := 0; i < n; i++ {
		sym.MapOrder(true)
		doc := Load(s.doc1)
		same(a, s.first(doc))
		sym.MapOrder(false)
		sym.Assert(xdoc.Describe(doc).Dump(xdoc.DescribeXML) == desc, "the description is the same")
	}
}
