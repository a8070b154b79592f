// Package c10 decides how tables break over pages.
//
// bounds: HPages: tables of 1 to 4 (thorough 6) rows of symbolic heights at a symbolic cursor and left edge, symbolic page height and margins, 0 to 2 repeated header rows, one or two cells per row; HSpan: a cell spanning two rows anywhere in such a table; HHeaders: three to five rows and two to four header rows; HTwo: a table after a table; HBox: rows of cells holding boxes of any height, aligned to top, middle or bottom
// outside: rows that do not fit on a page together with the repeated header; header rows higher than a page; chains of overlapping row spans
package c10

import (
	. "github.com/mazzegi/xpdf/zzverif/common"
	"github.com/mazzegi/xpdf/zzverif/sym"
)

func num(name string, lo, hi float64) float64 { return sym.Float(name, lo, hi, 3) }

func page() *Eng {
	return NewEng(200, num("ph", 60, 200), 10, num("top", 0, 20), 10, num("bottom", 0, 20))
}

// rows gives every row of t a symbolic height; all of them fit on a page with the header.
func rows(t *Table, e *Eng, rh int) []float64 {
	var h []float64
	head := 0.0
	for r := range t.Rows {
		h = append(h, num("h", 1, 100))
		t.RowAttr[r] = `style="height:` + sym.FloatText(h[r]) + `"`
		if r < rh {
			head += h[r]
		}
	}
	for r := range t.Rows {
		need := h[r]
		for _, c := range t.Cells {
			for k := 1; c.Row == r && k < c.RS; k++ {
				need += h[r+k]
			}
		}
		if r >= rh {
			need += head
		}
		sym.Assume(sym.Leq(need+0.01, e.PH-e.B-e.T))
	}
	sym.Assume(sym.Leq(head+0.01, e.PH-e.B-e.T))
	return h
}

// check walks over the drawn cells; it returns the cursor after the table.
func check(t *Table, e *Eng, dr []Drawn, h []float64, rh, page int, x, y float64) (int, float64) {
	bottom := e.PH - e.B
	if rh > len(t.Rows) {
		rh = len(t.Rows)
	}
	pos := 0
	// row draws the next cells, which must be those of row r at y of the page
	row := func(r int) {
		for _, c := range t.Cells {
			if c.Row != r {
				continue
			}
			if pos >= len(dr) {
				sym.Assert(false, "every row is drawn")
				sym.Assume(false)
			}
			d := dr[pos]
			pos++
			if d.Cell != c {
				sym.Assert(false, "rows are drawn in order, header rows repeated at the top of a page")
				sym.Assume(false)
			}
			sym.Assert(d.Rect.Page == page, "the cells of a row are on one page")
			if c.Col == 0 {
				sym.Assert(sym.Near(d.Rect.X, x), "all rows start at the left edge of the table")
			}
			sym.Assert(sym.Near(d.Rect.Y, y), "rows stack without gap from the top of the page")
			sym.Assert(sym.Leq(d.Rect.Y+d.Rect.H, bottom), "no row is drawn across the bottom margin")
			for _, v := range d.Text {
				sym.Assert(v.Page == page, "the text of a cell is on the page of the cell")
			}
		}
		y += h[r]
	}
	pageOf := make([]int, len(t.Rows))
	for r := range t.Rows {
		if len(t.Rows[r]) > 0 && pos < len(dr) && dr[pos].Rect.Page != page {
			sym.Assert(dr[pos].Rect.Page == page+1, "one page at a time")
			page++
			y = e.T
			sym.Reach("new page")
			if r > 0 && rh > 0 {
				for k := 0; k < rh; k++ {
					row(k)
				}
				sym.Reach("repeated header")
			}
		}
		pageOf[r] = page
		row(r)
	}
	sym.Assert(pos == len(dr), "nothing else is drawn")
	// the header is not left alone
	if rh > 0 && rh < len(t.Rows) {
		sym.Assert(pageOf[0] == pageOf[rh], "header rows are not left alone at the bottom of a page")
	}
	return page, y
}

func HPages() {
	e := page()
	t := NewTable()
	n := 1 + sym.Choose("rows", 6+2*sym.Tier())
	rh := sym.Choose("repeat", 3)
	two := sym.Bool("two")
	for r := 0; r < n; r++ {
		t.Add(r, 1, 1)
		if two {
			t.Add(r, 1, 1)
		}
	}
	t.Layout()
	h := rows(t, e, rh)
	x, y := num("x", 0, 40), num("y", 0, 200)
	sym.Assume(sym.Leq(e.T, y))
	Run(e, nil, Doc("", `<setx x="`+sym.FloatText(x)+`"/><sety y="`+sym.FloatText(y)+`"/>`+t.XML(`repeatheader="`+sym.IntText(rh)+`" style="line-width:0"`)))
	_, end := check(t, e, t.DrawnCells(e), h, rh, 1, x, y)
	sym.Assert(sym.Near(e.EndY, end), "the cursor is at the bottom of the last row")
}

// HSpan: rows joined by a spanning cell stay together.
func HSpan() {
	e := page()
	t := NewTable()
	n := 4 + sym.Tier()
	at := sym.Choose("at", n-1)
	rh := sym.Choose("repeat", 2)
	for r := 0; r < n; r++ {
		rs := 1
		if r == at {
			rs = 2
		}
		if r != at+1 {
			t.Add(r, 1, rs)
		}
		t.Add(r, 1, 1)
	}
	if at < rh {
		return // a span reaching out of the header
	}
	t.Layout()
	h := rows(t, e, rh)
	x, y := num("x", 0, 40), num("y", 0, 200)
	sym.Assume(sym.Leq(e.T, y))
	Run(e, nil, Doc("", `<setx x="`+sym.FloatText(x)+`"/><sety y="`+sym.FloatText(y)+`"/>`+t.XML(`repeatheader="`+sym.IntText(rh)+`" style="line-width:0"`)))
	check(t, e, t.DrawnCells(e), h, rh, 1, x, y)
}

// HTwo: a second table continues where the first ends.
func HTwo() {
	e := page()
	t1, t2 := NewTable(), NewTable()
	for r := 0; r < 3; r++ {
		t1.Add(r, 1, 1)
		t2.Add(r, 1, 1)
	}
	t1.Layout()
	t2.Layout()
	h1, h2 := rows(t1, e, 1), rows(t2, e, 1)
	Run(e, nil, Doc("", t1.XML(`repeatheader="1" style="line-width:0"`)+t2.XML(`repeatheader="1" style="line-width:0"`)))
	dr := t1.DrawnCells(e)
	// the first table ends where the second starts: at the second cell of row 0 that is no repeated header
	split := len(dr)
	for i, d := range dr {
		if i > 1 && d.Cell == t1.Cells[0] && dr[i-1].Cell == t1.Cells[2] {
			split = i
			break
		}
	}
	p, y := check(t1, e, dr[:split], h1, 1, 1, e.L, e.T)
	second := dr[split:]
	for i := range second {
		for k, c := range t1.Cells {
			if second[i].Cell == c {
				second[i].Cell = t2.Cells[k]
				break
			}
		}
	}
	_, end := check(t2, e, second, h2, 1, p, e.L, y)
	sym.Assert(sym.Near(e.EndY, end), "the cursor is at the bottom of the last table")
}

// HBox: boxes in cells do not start pages.
func HBox() {
	e := page()
	t := NewTable()
	n := 2 + sym.Tier()
	rh := sym.Choose("repeat", 2)
	at := sym.Choose("at", n)
	va := []string{"top", "middle", "bottom"}[sym.Choose("v-align", 3)]
	for r := 0; r < n; r++ {
		c := t.Add(r, 1, 1)
		if r == at || sym.Tier() > 0 {
			c.Sty = "v-align:" + va
			c.Body = c.ID + `<box style="line-width:0;padding:0,1,0,1;height:` + sym.FloatText(num("box", 1, 120)) + `">` + "Z</box>"
		}
		t.Add(r, 1, 1)
	}
	t.Layout()
	h := rows(t, e, rh)
	y := num("y", 0, 200)
	sym.Assume(sym.Leq(e.T, y))
	Run(e, nil, Doc("", `<sety y="`+sym.FloatText(y)+`"/>`+t.XML(`repeatheader="`+sym.IntText(rh)+`" style="line-width:0"`)))
	// the boxes are the rectangles without the text of a cell
	var cells []Drawn
	for _, d := range t.DrawnCells(e) {
		if d.Cell != nil {
			cells = append(cells, d)
			continue
		}
		if len(cells) > 0 {
			sym.Assert(d.Rect.Page == cells[len(cells)-1].Rect.Page, "the content of a cell is on the page of the cell")
		}
	}
	check(t, e, cells, h, rh, 1, e.L, y)
}

// HHeaders: more header rows.
func HHeaders() {
	e := page()
	t := NewTable()
	n := 3 + sym.Choose("rows", 3)
	rh := 2 + sym.Choose("repeat", 3)
	for r := 0; r < n; r++ {
		t.Add(r, 1, 1)
	}
	t.Layout()
	h := rows(t, e, rh)
	y := num("y", 0, 200)
	sym.Assume(sym.Leq(e.T, y))
	Run(e, nil, Doc("", `<sety y="`+sym.FloatText(y)+`"/>`+t.XML(`repeatheader="`+sym.IntText(rh)+`" style="line-width:0"`)))
	check(t, e, t.DrawnCells(e), h, rh, 1, e.L, y)
}
