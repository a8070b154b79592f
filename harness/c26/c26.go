// Package c26 decides how the page of the PDF engine is set up.
//
// bounds: HPage: all five formats, both orientations, unknown ones of up to two symbolic letters and missing ones; symbolic margins of 0 to 60 mm (each possibly missing); up to 3 (thorough 6) pages with header and footer; HMade: documents made in Go with any such setting
// outside: negative margins; formats in capital letters
// assume: paper sizes are compared to 1 mm
package c26

import (
	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/font"
	"github.com/mazzegi/xpdf/xdoc"
	. "github.com/mazzegi/xpdf/zzverif/common"
	"github.com/mazzegi/xpdf/zzverif/sym"
)

func num(name string, lo, hi float64) float64 { return sym.Float(name, lo, hi, 3) }

// within a millimeter
func mm(a, b float64) bool { return sym.And(sym.Leq(a, b+1), sym.Leq(b, a+1)) }

type setting struct {
	format, orient string
	w, h           float64
	m              [4]float64
}

func settings() setting {
	s := setting{w: 210, h: 297}
	switch sym.Choose("format", 7) {
	case 0:
		s.format, s.w, s.h = "a3", 297, 420
	case 1:
		s.format = "a4"
	case 2:
		s.format, s.w, s.h = "a5", 148, 210
	case 3:
		s.format, s.w, s.h = "letter", 215.9, 279.4
	case 4:
		s.format, s.w, s.h = "legal", 215.9, 355.6
	case 5:
		s.format = sym.Str("unknown", 2, "abz0126")
	}
	switch sym.Choose("orientation", 4) {
	case 0:
		s.orient = "portrait"
	case 1:
		s.orient = "landscape"
		s.w, s.h = s.h, s.w
	case 2:
		s.orient = sym.Str("other", 1, "plx")
	}
	return s
}

// check looks at the engine on some pages.
func check(s setting, d *xdoc.Document) {
	e, err := engine.NewFPDF(font.NewRegistry(), d)
	sym.Assert(err == nil && e != nil, "the engine is made")
	if err != nil || e == nil {
		return
	}
	in := 0
	look := func() {
		sym.Assert(e.Error() == nil, "the engine has no error")
		sym.Assert(sym.And(mm(e.PageWidth(), s.w), mm(e.PageHeight(), s.h)), "the page has the size of the paper")
		l, t, r, b := e.Margins()
		sym.Assert(sym.And(sym.Near(l, s.m[0]), sym.Near(t, s.m[1]), sym.Near(r, s.m[2]), sym.Near(b, s.m[3])), "the margins are those of the document")
		x0, y0, x1, y1 := e.PrintableArea()
		sym.Assert(sym.And(sym.Near(x0, s.m[0]), sym.Near(y0, s.m[1])), "the printable area starts at the left and top margin")
		sym.Assert(sym.Near(x1, e.PageWidth()-s.m[2]-2), "the printable area ends 2 mm inside of the right margin")
		sym.Assert(sym.Near(y1, e.PageHeight()-s.m[3]), "the printable area ends at the bottom margin")
	}
	e.OnHeader(func() { in++; look() })
	e.OnFooter(func() { in++; look() })
	look()
	for p := 1; p <= 3+3*sym.Tier(); p++ {
		e.AddPage()
		look()
		sym.Assert(e.CurrentPage() == p, "pages are counted")
		x, y := e.GetXY()
		sym.Assert(sym.And(sym.Near(x, s.m[0]), sym.Near(y, s.m[1])), "a page starts at the top left margin")
		sym.Assert(in == 2*p-1, "a page runs the header, and the footer of the page before")
	}
}

func HPage() {
	s := settings()
	page, margins := "", ""
	for i, n := range []string{"left", "top", "right", "bottom"} {
		s.m[i] = num(n, 0, 60)
	}
	skip := sym.Choose("missing", 5)
	for i, n := range []string{"left", "top", "right", "bottom"} {
		if i == skip-1 {
			s.m[i] = 0
			continue
		}
		margins += "<" + n + ">" + sym.FloatText(s.m[i]) + "</" + n + ">"
	}
	page = "<margins>" + margins + "</margins>"
	if s.format != "" {
		page = "<format>" + s.format + "</format>" + page
	}
	if s.orient != "" {
		page += "<orientation>" + s.orient + "</orientation>"
	}
	check(s, Load("<document><page>"+page+"</page><body/></document>"))
}

func HMade() {
	s := settings()
	for i, n := range []string{"left", "top", "right", "bottom"} {
		s.m[i] = num(n, 0, 60)
	}
	d := &xdoc.Document{}
	d.Page.Format = xdoc.PaperFormat(s.format)
	d.Page.Orientation = xdoc.Orientation(s.orient)
	d.Page.Margins.Left, d.Page.Margins.Top, d.Page.Margins.Right, d.Page.Margins.Bottom = s.m[0], s.m[1], s.m[2], s.m[3]
	check(s, d)
}
