package common

import (
	"io"
	"strings"

	"github.com/mazzegi/xpdf"
	"github.com/mazzegi/xpdf/hyphenation"
	"github.com/mazzegi/xpdf/style"
	"github.com/mazzegi/xpdf/xdoc"
	"github.com/mazzegi/xpdf/zzverif/sym"
)

// Kinds of recorded events.
const (
	EvText = iota
	EvRect
	EvPath
	EvImage
	EvPage
	EvFeed
	EvWrite
)

// Parts of a page.
const (
	Body = iota
	Header
	Footer
)

type Seg struct{ X0, Y0, X1, Y1 float64 }

// Ev is one thing drawn.
type Ev struct {
	Kind       int
	S          string
	X, Y, W, H float64
	Font       style.Font
	Color      style.RGB // text colour, fill colour of a rectangle, draw colour of a path
	LineWidth  float64
	Page       int
	Part       int
	Segs       []Seg
	Lines      float64
}

// Eng records what it is asked to draw and behaves like the engine the code is written for: text advances x,
// a line feed goes to the left margin and down by font heights, a new page runs footer and header with font and colours restored.
type Eng struct {
	PW, PH, L, T, R, B float64
	X, Y               float64
	Page               int
	Part               int
	Evs                []Ev
	CharW              [256]float64 // widths at 8 points
	Font               style.Font
	Text, Draw, Fill   style.RGB
	LW                 float64
	Alias              string
	AliasPage          int // pages when the alias was announced
	AutoBreak          bool
	Fail               error
	FailAtPage         int // engine failure when this page is started
	header, footer     func()
	segs               []Seg
	px, py             float64
	Fonts              int
	EndX, EndY         float64
	Writes             int
	depth              int
}

// PtHeight is the height of a font of one point; it differs from the real one to stay exact.
const PtHeight = 0.375

func NewEng(pw, ph, l, t, r, b float64) *Eng {
	return &Eng{PW: pw, PH: ph, L: l, T: t, R: r, B: b}
}

// Wide makes an engine with a page wide and high enough for anything.
func Wide() *Eng { return NewEng(4000, 8000, 10, 20, 30, 40) }

func (e *Eng) rec(v Ev) {
	v.Page, v.Part = e.Page, e.Part
	e.Evs = append(e.Evs, v)
}

func (e *Eng) Error() error                   { return e.Fail }
func (e *Eng) SetPageCountAlias(alias string) { e.Alias, e.AliasPage = alias, e.Page }
func (e *Eng) CurrentPage() int               { return e.Page }
func (e *Eng) OnHeader(f func())              { e.header = f }
func (e *Eng) OnFooter(f func())              { e.footer = f }

func (e *Eng) run(part int, f func()) {
	if f == nil {
		return
	}
	e.Part = part
	f()
	e.Part = Body
}

func (e *Eng) AddPage() {
	e.depth++
	if e.depth > 3 {
		// a page started by a header or footer; the real engine would recurse without end
		e.rec(Ev{Kind: EvPage})
		e.depth--
		return
	}
	part := e.Part
	fnt, txt, drw, fil, lw := e.Font, e.Text, e.Draw, e.Fill, e.LW
	if e.Page > 0 {
		e.run(Footer, e.footer)
	}
	e.Font, e.Text, e.Draw, e.Fill, e.LW = fnt, txt, drw, fil, lw
	e.Page++
	if e.Page == e.FailAtPage && e.FailAtPage > 0 {
		e.Fail = io.ErrClosedPipe
	}
	e.Part = part
	e.rec(Ev{Kind: EvPage})
	e.X, e.Y = e.L, e.T
	e.run(Header, e.header)
	e.Font, e.Text, e.Draw, e.Fill, e.LW = fnt, txt, drw, fil, lw
	e.Part = part
	e.depth--
}

func (e *Eng) SetX(x float64)            { e.X = x }
func (e *Eng) SetY(y float64)            { e.Y = y }
func (e *Eng) GetXY() (float64, float64) { return e.X, e.Y }
func (e *Eng) LineFeed(lines float64) {
	e.rec(Ev{Kind: EvFeed, X: e.X, Y: e.Y, Lines: lines, H: e.FontHeight(), Font: e.Font})
	e.X = e.L
	e.Y += e.FontHeight() * lines
}
func (e *Eng) ChangeFont(fnt style.Font) { e.Font = fnt; e.Fonts++ }
func (e *Eng) PrintableArea() (x0, y0, x1, y1 float64) {
	return e.L, e.T, e.PW - e.R - 2, e.PH - e.B
}
func (e *Eng) PageWidth() float64  { return e.PW }
func (e *Eng) PageHeight() float64 { return e.PH }
func (e *Eng) PutImage(src string, x, y, width, height float64) {
	e.rec(Ev{Kind: EvImage, S: src, X: x, Y: y, W: width, H: height})
}
func (e *Eng) SetTextColor(r, g, b int) { e.Text = style.RGB{R: r, G: g, B: b} }
func (e *Eng) FontHeight() float64      { return e.Font.PointSize * PtHeight }
func (e *Eng) MonoFont() string         { return "Courier" }

// WidthOf is the width of s in a font.
func (e *Eng) WidthOf(s string, f style.Font) float64 {
	w := 0.0
	for i := 0; i < len(s); i++ {
		w += e.CharW[s[i]]
	}
	return w * (Scale(f) / 8)
}

// Scale is the size a regular font of the same width has; bold ones are wider.
func Scale(f style.Font) float64 {
	if f.Weight == style.FontWeightBold {
		return f.PointSize * 1.25
	}
	return f.PointSize
}

func (e *Eng) TextWidth(s string) float64 { return e.WidthOf(s, e.Font) }

func (e *Eng) WriteText(s string) {
	if e.AutoBreak && e.Part == Body && e.Y+e.FontHeight() > e.PH-e.B {
		x := e.X
		e.AddPage()
		e.X = x
	}
	w := e.TextWidth(s)
	e.rec(Ev{Kind: EvText, S: s, X: e.X, Y: e.Y, W: w, H: e.FontHeight(), Font: e.Font, Color: e.Text})
	e.X += w
}

func (e *Eng) Margins() (left, top, right, bottom float64) { return e.L, e.T, e.R, e.B }
func (e *Eng) SetLineWidth(w float64)                      { e.LW = w }
func (e *Eng) SetDrawColor(r, g, b int)                    { e.Draw = style.RGB{R: r, G: g, B: b} }
func (e *Eng) SetFillColor(r, g, b int)                    { e.Fill = style.RGB{R: r, G: g, B: b} }
func (e *Eng) FillRect(x, y, width, height float64) {
	e.rec(Ev{Kind: EvRect, X: x, Y: y, W: width, H: height, Color: e.Fill, LineWidth: e.LW})
}
func (e *Eng) MoveTo(x, y float64) { e.px, e.py = x, y }
func (e *Eng) LineTo(x, y float64) {
	e.segs = append(e.segs, Seg{e.px, e.py, x, y})
	e.px, e.py = x, y
}
func (e *Eng) DrawPath() {
	e.rec(Ev{Kind: EvPath, Segs: e.segs, Color: e.Draw, LineWidth: e.LW})
	e.segs = nil
}

func (e *Eng) WritePDF(w io.Writer) error {
	e.EndX, e.EndY = e.X, e.Y
	e.Writes++
	if e.Page > 0 {
		e.run(Footer, e.footer)
	}
	e.rec(Ev{Kind: EvWrite})
	_, err := w.Write([]byte("%PDF"))
	return err
}

// Of returns the events of a kind drawn in a part of the pages.
func (e *Eng) Of(kind, part int) []Ev {
	var r []Ev
	for _, v := range e.Evs {
		if v.Kind == kind && v.Part == part {
			r = append(r, v)
		}
	}
	return r
}

// Line is the text written at one height.
type Line struct {
	Text   string
	Items  []Ev
	Y      float64
	X0, X1 float64
	Page   int
}

// LinesOf groups text by height; heights must be concrete.
func LinesOf(evs []Ev) []Line {
	var r []Line
	for _, v := range evs {
		if v.Kind != EvText {
			continue
		}
		if n := len(r); n > 0 && r[n-1].Page == v.Page && r[n-1].Y == v.Y {
			l := &r[n-1]
			l.Items = append(l.Items, v)
			l.Text += v.S
			l.X1 = v.X + v.W
			continue
		}
		r = append(r, Line{Text: v.S, Items: []Ev{v}, Y: v.Y, X0: v.X, X1: v.X + v.W, Page: v.Page})
	}
	return r
}

// Doc makes a document of a body.
func Doc(sheet, body string) string {
	return "<document><style>" + sheet + "</style><body>" + body + "</body></document>"
}

// Load loads a document that must be valid.
func Load(txt string) *xdoc.Document {
	doc, err := xdoc.Load(strings.NewReader(txt))
	sym.Assert(err == nil, "document loads")
	if err != nil {
		sym.Assume(false)
	}
	return doc
}

// Hyphenator of the given patterns.
func Hyphenator(patterns string) *hyphenation.Hyphenator {
	h, err := hyphenation.Load(strings.NewReader(patterns))
	sym.Assert(err == nil, "patterns load")
	if err != nil {
		sym.Assume(false)
	}
	return h
}

type sink struct{ b []byte }

func (s *sink) Write(p []byte) (int, error) { s.b = append(s.b, p...); return len(p), nil }

// Run processes a document that must succeed.
func Run(e *Eng, h *hyphenation.Hyphenator, txt string) {
	doc := Load(txt)
	err := xpdf.NewProcessor(e, h, doc, "/work").Process(&sink{})
	sym.Assert(err == nil, "document is processed")
}

// CheckFrame: the n-th rectangle of a part fills the frame (up to its line width) and exactly the set border sides
// (left, top, right, bottom) are drawn along its edges.
func CheckFrame(e *Eng, part, n int, x0, y0, x1, y1, lw float64, fill, draw style.RGB, border [4]int) {
	rects, paths := e.Of(EvRect, part), e.Of(EvPath, part)
	if n >= len(rects) || n >= len(paths) {
		sym.Assert(false, "a rectangle and its border are drawn")
		return
	}
	r, p := rects[n], paths[n]
	sym.Assert(sym.And(sym.Leq(x0, r.X), sym.Leq(r.X, x0+lw), sym.Leq(x1-lw, r.X+r.W), sym.Leq(r.X+r.W, x1)), "the rectangle has the left and right edge demanded")
	sym.Assert(sym.And(sym.Leq(y0, r.Y), sym.Leq(r.Y, y0+lw), sym.Leq(y1-lw, r.Y+r.H), sym.Leq(r.Y+r.H, y1)), "the rectangle has the top and bottom edge demanded")
	sym.Assert(EqRGB(r.Color, fill), "filled with the background colour")
	var want []Seg
	for i, b := range border {
		if b <= 0 {
			continue
		}
		want = append(want, [4]Seg{{x0, y0, x0, y1}, {x0, y0, x1, y0}, {x1, y0, x1, y1}, {x0, y1, x1, y1}}[i])
	}
	sym.Assert(len(p.Segs) == len(want), "as many border lines as sides are set")
	for _, w := range want {
		found := false
		for _, s := range p.Segs {
			// either direction
			a := sym.And(near(s.X0, w.X0, lw), near(s.Y0, w.Y0, lw), near(s.X1, w.X1, lw), near(s.Y1, w.Y1, lw))
			b := sym.And(near(s.X1, w.X0, lw), near(s.Y1, w.Y0, lw), near(s.X0, w.X1, lw), near(s.Y0, w.Y1, lw))
			found = sym.Or(found, a, b)
		}
		sym.Assert(found, "the sides set are drawn")
	}
	if len(want) > 0 {
		sym.Assert(sym.And(EqRGB(p.Color, draw), sym.Near(p.LineWidth, lw)), "border drawn in the foreground colour and line width")
	}
}

// near: equal up to half a line width.
func near(a, b, lw float64) bool { return sym.And(sym.Leq(a, b+lw/2), sym.Leq(b, a+lw/2)) }
