// Package c30 decides which grid definitions are accepted.
//
// bounds: HLoad: grids of 0 to 3 rows of 1 to 3 symbolic area names each and 0 to 2 parts of symbolic areas holding text and boxes; HRender: grids of 1 to 3 (thorough 4) rows of 1 to 3 columns of area names out of three letters (2x2 of two-letter names), rendered between other content; HIn: a grid next to and inside of other instructions, wrapped in rows/parts elements or not
// outside: rows without area names; names separated by anything but one blank; larger grids
package c30

import (
	"strings"

	"github.com/mazzegi/log"
	"github.com/mazzegi/log/entry"
	"github.com/mazzegi/xpdf/xdoc"
	. "github.com/mazzegi/xpdf/zzverif/common"
	"github.com/mazzegi/xpdf/zzverif/sym"
)

// rows draws a grid of area names.
func rows(n int, cols func() int, set string) [][]string {
	var g [][]string
	for r := 0; r < n; r++ {
		var row []string
		for c := cols(); c > 0; c-- {
			row = append(row, sym.Str("area", 1, set))
		}
		g = append(g, row)
	}
	return g
}

func rowsXML(g [][]string) string {
	s := ""
	for _, r := range g {
		s += "<gr>"
		for i, a := range r {
			if i > 0 {
				s += " "
			}
			s += a
		}
		s += "</gr>\n"
	}
	return s
}

func named(g [][]string, a string) bool {
	ok := false
	for _, r := range g {
		for _, b := range r {
			ok = sym.Or(ok, sym.EqS(a, b))
		}
	}
	return ok
}

type part struct{ area, text string }

func HLoad() {
	g := rows(sym.Choose("rows", 4), func() int { return 1 + sym.Choose("cols", 3) }, "ab")
	var ps []part
	for i := sym.Choose("parts", 3); i > 0; i-- {
		ps = append(ps, part{sym.Str("part", 1, "abc"), sym.Str("text", 1, "xy")})
	}
	valid := len(g) > 0
	for _, r := range g {
		valid = valid && len(r) == len(g[0])
	}
	for _, p := range ps {
		valid = sym.And(valid, named(g, p.area))
	}
	doc := "<document><body><grid>" + rowsXML(g)
	for _, p := range ps {
		doc += `<part area="` + p.area + `"><box>` + p.text + `</box>` + "\n" + `<lf lines="2"/></part>`
	}
	doc += "</grid></body></document>"
	d, err := xdoc.Load(strings.NewReader(doc))
	if err != nil {
		sym.Assert(sym.Not(valid), "a consistent grid loads")
		return
	}
	sym.Assert(valid, "an inconsistent grid does not load")
	sym.Assert(len(d.Body.ISS) == 1, "the body holds the grid")
	sym.Assume(len(d.Body.ISS) == 1)
	same(d.Body.ISS[0], g, ps)
}

// same compares a loaded grid.
func same(in xdoc.Instruction, g [][]string, ps []part) {
	gr, ok := in.(*xdoc.Grid)
	sym.Assert(ok, "the instruction is the grid")
	sym.Assume(ok)
	sym.Assert(len(gr.Rows) == len(g), "every row is kept")
	sym.Assume(len(gr.Rows) == len(g))
	for i, r := range g {
		as := gr.Rows[i].Areas
		sym.Assert(len(as) == len(r), "every area of a row is kept")
		sym.Assume(len(as) == len(r))
		for k := range r {
			sym.Assert(sym.EqS(as[k], r[k]), "areas keep name and order")
		}
	}
	sym.Assert(len(gr.Parts) == len(ps), "every part is kept")
	sym.Assume(len(gr.Parts) == len(ps))
	for i, p := range ps {
		sym.Assert(sym.EqS(gr.Parts[i].Area, p.area), "parts keep area and order")
		SameISS(gr.Parts[i].ISS, []*Node{{Kind: "box", Kids: []*Node{{Kind: "#", Text: p.text}}}, {Kind: "lf", F: 2}})
	}
}

type recorder struct{ n int }

func (r *recorder) Log(e entry.Entry) {
	if e.Level == entry.LevelError {
		r.n++
	}
}

// solid tells if the places of every area are a rectangle.
func solid(g [][]string) bool {
	for _, row := range g {
		for _, a := range row {
			n, r0, r1, c0, c1 := 0, 99, -1, 99, -1
			for r := range g {
				for c := range g[r] {
					if g[r][c] == a {
						n++
						if r < r0 {
							r0 = r
						}
						if r > r1 {
							r1 = r
						}
						if c < c0 {
							c0 = c
						}
						if c > c1 {
							c1 = c
						}
					}
				}
			}
			if n != (r1-r0+1)*(c1-c0+1) {
				return false
			}
		}
	}
	return true
}

// render draws a grid between two boxes; it returns if it was refused.
func render(grid string) (bool, *Eng) {
	rec := &recorder{}
	log.Install(rec)
	e := Wide()
	Run(e, nil, Doc("", `<box style="height:5">p</box><grid>`+grid+`</grid><box style="height:5">q</box>`))
	log.Install(&recorder{})
	return rec.n > 0, e
}

func check(g [][]string, parts string) {
	refused, e := render(rowsXML(g) + parts)
	if solid(g) {
		sym.Assert(!refused, "a grid of solid rectangles is not refused")
		return
	}
	sym.Assert(refused, "a grid with an area that is no solid rectangle is refused")
	sym.Assert(e.Page == 1, "a refused grid starts no page")
	txt := e.Of(EvText, Body)
	sym.Assert(len(txt) == 2, "a refused grid draws no text")
	sym.Assume(len(txt) == 2)
	sym.Assert(len(e.Of(EvRect, Body)) == 2 && len(e.Of(EvImage, Body)) == 0, "a refused grid draws no box")
	sym.Assert(sym.And(txt[0].S == "p", txt[1].S == "q"), "content around a refused grid is kept")
	sym.Assert(sym.Near(txt[1].Y, txt[0].Y+5), "a refused grid takes no room")
}

func HRender() {
	cols := 1 + sym.Choose("cols", 3)
	g := rows(1+sym.Choose("rows", 3+sym.Tier()), func() int { return cols }, "abc")
	check(g, "")
}

// HLong has names of two letters, which may differ in one of them, and parts.
func HLong() {
	var g [][]string
	for r := 0; r < 2+sym.Tier(); r++ {
		var row []string
		for c := 0; c < 2; c++ {
			row = append(row, sym.Str("area", 1, "ab")+sym.Str("area", 1, "ab"))
		}
		g = append(g, row)
	}
	check(g, `<part area="`+g[0][0]+`"><box style="height:30">z</box></part>`)
}

// HIn loads a grid in other instructions.
func HIn() {
	g := rows(1+sym.Choose("rows", 2), func() int { return 2 }, "ab")
	ps := []part{{sym.Str("part", 1, "ab"), "x"}}
	ok := named(g, ps[0].area)
	rs, p := rowsXML(g), `<part area="`+ps[0].area+`"><box>x</box><lf lines="2"/></part>`
	if sym.Bool("wrapped") {
		rs, p = "<rows>"+rs+"</rows>", "<parts>"+p+"</parts>"
	}
	if sym.Bool("parts first") {
		rs, p = p, rs
	}
	grid := "<grid>" + rs + p + "</grid>"
	var list func(d *xdoc.Document) []xdoc.Instruction
	doc := ""
	switch sym.Choose("in", 4) {
	case 0:
		doc = "<document><header>" + `<lf lines="1"/>` + grid + "<newpage/></header></document>"
		list = func(d *xdoc.Document) []xdoc.Instruction { return d.Header.ISS }
	case 1:
		doc = "<document><body>" + `<lf lines="1"/>` + grid + "<newpage/></body></document>"
		list = func(d *xdoc.Document) []xdoc.Instruction { return d.Body.ISS }
	case 2:
		doc = "<document><body><box>" + `<lf lines="1"/>` + grid + "<newpage/></box></body></document>"
		list = func(d *xdoc.Document) []xdoc.Instruction {
			b, ok := d.Body.ISS[0].(*xdoc.Box)
			sym.Assert(ok, "the box is kept")
			sym.Assume(ok)
			return b.ISS
		}
	case 3:
		doc = "<document><body><table><tr><td>" + `<lf lines="1"/>` + grid + "<newpage/></td></tr></table></body></document>"
		list = func(d *xdoc.Document) []xdoc.Instruction {
			t, ok := d.Body.ISS[0].(*xdoc.Table)
			ok = ok && len(t.Rows) == 1 && len(t.Rows[0].Cells) == 1
			sym.Assert(ok, "the table is kept")
			sym.Assume(ok)
			return t.Rows[0].Cells[0].ISS
		}
	}
	d, err := xdoc.Load(strings.NewReader(doc))
	if err != nil {
		sym.Assert(sym.Not(ok), "a consistent grid loads")
		return
	}
	sym.Assert(ok, "an inconsistent grid does not load")
	is := list(d)
	sym.Assert(len(is) == 3, "what is around the grid is kept")
	sym.Assume(len(is) == 3)
	_, a := is[0].(*xdoc.LineFeed)
	_, b := is[2].(*xdoc.PageBreak)
	sym.Assert(a && b, "the grid keeps its place")
	same(is[1], g, ps)
}
