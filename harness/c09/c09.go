// Package c09 decides the heights of table rows.
//
// bounds: HRows: tables of 2 (thorough 3) rows of 1 to 2 cells, each cell with a symbolic styled height, one to three words of symbolic widths in fonts of 8 or 16 points (wrapping or not), vertical and horizontal padding symbolic, left aligned or justified; HSpan: a cell spanning two or three rows with text or a styled height beside single cells; HLarge: a cell spanning up to six rows and three columns of different widths beside single cells of symbolic heights, words of one symbolic width
// outside: larger tables; boxes and images as cell content do not count for the height of a row
package c09

import (
	. "github.com/mazzegi/xpdf/zzverif/common"
	"github.com/mazzegi/xpdf/zzverif/sym"
)

func num(name string, lo, hi float64) float64 { return sym.Float(name, lo, hi, 3) }

type content struct {
	styled   float64 // 0: by the text
	pt, pb   float64
	hasWords bool
	br       int
}

// fill gives a cell its content.
func fill(e *Eng, c *Cell, kinds int) *content {
	ct := &content{}
	e.CharW[c.ID[0]] = num("word", 1, 15)
	switch sym.Choose("content", kinds) {
	case 0:
		ct.styled = num("height", 1, 60)
		c.Sty += ";height:" + sym.FloatText(ct.styled)
	case 1:
		ct.pt, ct.pb = num("pt", 0, 9), num("pb", 0, 9)
		c.Sty += ";padding:1," + sym.FloatText(ct.pt) + ",2," + sym.FloatText(ct.pb)
		ct.hasWords = true
	case 2:
		c.Body = c.ID + " " + c.ID
		ct.hasWords = true
	case 3:
		c.Body = c.ID + "<br/>" + c.ID + ` <p style="font-point-size:16">` + c.ID + "</p>"
		ct.pt = num("pt", 0, 9)
		c.Sty += ";padding:0," + sym.FloatText(ct.pt) + ",0,0"
		ct.hasWords = true
	case 4:
		c.Body = c.ID + " " + c.ID + " " + c.ID
		c.Sty += ";h-align:block;font-point-size:16"
		ct.hasWords = true
	}
	return ct
}

// demand is what the cell needs, judged by the text as drawn.
func (ct *content) demand(d Drawn) float64 {
	if ct.styled != 0 {
		return ct.styled
	}
	top, bottom := d.Text[0].Y, d.Text[0].Y+d.Text[0].H
	for _, v := range d.Text {
		top = sym.MinF(top, v.Y)
		bottom = sym.MaxF(bottom, v.Y+v.H)
	}
	return bottom - top + ct.pt + ct.pb
}

// check asserts the rules for a table starting at y0.
func check(t *Table, e *Eng, cts []*content, y0 float64) {
	dr := t.DrawnCells(e)
	if len(dr) != len(t.Cells) {
		sym.Assert(false, "every cell is drawn once")
		return
	}
	spanned := map[int]bool{}
	for _, c := range t.Cells {
		for n := 0; c.RS > 1 && n < c.RS; n++ {
			spanned[c.Row+n] = true
		}
	}
	y := y0
	for r := range t.Rows {
		var rowH float64
		have := false
		max := 0.0
		for i, c := range t.Cells {
			if c.Row != r {
				continue
			}
			rc := dr[i].Rect
			dem := cts[i].demand(dr[i])
			max = sym.MaxF(max, dem)
			sym.Assert(sym.Leq(dem, rc.H), "a cell is as high as it demands")
			sym.Assert(sym.Near(rc.Y, y), "the cells of a row start where the previous row ends")
			if c.RS == 1 {
				if have {
					sym.Assert(sym.Near(rc.H, rowH), "the cells of a row share their height")
				}
				rowH, have = rc.H, true
			}
		}
		if !have {
			sym.Assume(false)
		}
		if !spanned[r] {
			sym.Assert(sym.Near(rowH, max), "a row is as high as the highest demand")
		}
		y += rowH
	}
	for i, c := range t.Cells {
		if c.RS > 1 && c.Row+c.RS == len(t.Rows) {
			sym.Assert(sym.Near(dr[i].Rect.Y+dr[i].Rect.H, y), "a spanning cell ends with its last row")
			sym.Reach("row span")
		}
	}
	sym.Assert(sym.Near(e.EndY, y), "the cursor is at the bottom of the last row")
}

func setup() *Eng {
	e := NewEng(200, 4000, 10, 20, 30, 40)
	e.CharW[' '] = 1
	e.CharW['-'] = 1
	return e
}

func run(t *Table, e *Eng, cts []*content) {
	t.Layout()
	y := num("y", 0, 100)
	Run(e, Hyphenator("z1z"), Doc("", `<sety y="`+sym.FloatText(y)+`"/>`+t.XML(`style="line-width:0;font-point-size:8;line-spacing:1.25;column-width:41"`)))
	check(t, e, cts, y)
}

func HRows() {
	e := setup()
	t := NewTable()
	var cts []*content
	for r := 0; r < 2; r++ {
		for i := 1 + sym.Choose("cells", 2); i > 0; i-- {
			cts = append(cts, fill(e, t.Add(r, 1, 1), 5))
		}
	}
	run(t, e, cts)
}

// HThree: three rows of one cell.
func HThree() {
	e := setup()
	t := NewTable()
	var cts []*content
	for r := 0; r < 3; r++ {
		cts = append(cts, fill(e, t.Add(r, 1, 1), 3+sym.Tier()))
	}
	run(t, e, cts)
}

func HSpan() {
	e := setup()
	t := NewTable()
	rs := 2 + sym.Choose("span", 2)
	var cts []*content
	first := sym.Bool("first")
	for r := 0; r < rs; r++ {
		if r == 0 && first {
			cts = append(cts, fill(e, t.Add(r, 1+sym.Choose("cols", 2), rs), 5))
		}
		k := 2
		if rs == 2 {
			k = 3
		}
		cts = append(cts, fill(e, t.Add(r, 1, 1), k))
		if r == 0 && !first {
			cts = append(cts, fill(e, t.Add(r, 1, rs), 5))
		}
	}
	run(t, e, cts)
}

// HLarge: a long text over several rows and columns of different widths.
func HLarge() {
	e := setup()
	t := NewTable()
	rs := 1 + sym.Choose("rows", 6)
	cs := 1 + sym.Choose("cols", 3)
	var cts []*content
	for r := 0; r < rs+1; r++ {
		if r == 0 {
			c := t.Add(r, cs, rs)
			e.CharW[c.ID[0]] = num("word", 1, 9)
			for i := 0; i < 12; i++ {
				c.Body += " " + c.ID
			}
			c.Sty = ";padding:1,2,2,3"
			cts = append(cts, &content{pt: 2, pb: 3, hasWords: true})
		}
		if r == rs {
			for i := 0; i < cs; i++ {
				c := t.Add(r, 1, 1)
				c.Sty = ";height:3;column-width:" + []string{"9", "17", "5"}[i]
				cts = append(cts, &content{styled: 3})
			}
		}
		c := t.Add(r, 1, 1)
		h := 2.0
		if r == 0 || r == rs {
			h = num("height", 1, 20)
		}
		c.Sty = ";height:" + sym.FloatText(h)
		cts = append(cts, &content{styled: h})
	}
	run(t, e, cts)
}
