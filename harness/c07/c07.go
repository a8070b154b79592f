// Package c07 decides which place every table cell takes.
//
// bounds: HSpans: tables of up to 3 rows and 4 (thorough 5) cells, any number of cells per row, spans of 1x1, 2x1, 1x2, 2x2 (thorough also 3 in either direction), row heights and table width symbolic; HRagged: rows without cells, spans running past the last row; HZero: span attributes 0 and 1
// outside: larger tables; the geometry of tables in which two cells claim the same place (there only that every cell is drawn once and in order)
package c07

import (
	. "github.com/mazzegi/xpdf/zzverif/common"
	"github.com/mazzegi/xpdf/zzverif/sym"
)

// check compares what was drawn with the layout; h are the heights of the rows, w the width of the table.
func check(t *Table, e *Eng, x0, y0, w float64, h []float64) {
	dr := t.DrawnCells(e)
	ok := len(dr) == len(t.Cells)
	if ok {
		for i, c := range t.Cells {
			ok = ok && dr[i].Cell == c && len(dr[i].Text) == 1 && dr[i].Text[0].S == c.ID
		}
	}
	sym.Assert(ok, "every cell is drawn exactly once, in order, with its text")
	if !ok {
		return
	}
	if t.Conflict {
		sym.Reach("conflicting spans")
		return
	}
	rowY := []float64{y0}
	for r := 0; r < t.NRows; r++ {
		rh := 0.0
		if r < len(h) {
			// a row is as high as the cells starting in it demand
			starts := false
			for _, c := range t.Cells {
				starts = starts || c.Row == r
			}
			if starts {
				rh = h[r]
			}
		}
		rowY = append(rowY, rowY[r]+rh)
	}
	cw := w / float64(t.Cols)
	for i, c := range t.Cells {
		r := dr[i].Rect
		sym.Assert(sym.And(sym.Near(r.X, x0+cw*float64(c.Col)), sym.Near(r.W, cw*float64(c.CS))), "a cell covers exactly its columns")
		sym.Assert(sym.And(sym.Near(r.Y, rowY[c.Row]), sym.Near(r.Y+r.H, rowY[c.Row+c.RS])), "a cell covers exactly its rows")
	}
	sym.Assert(sym.Near(e.EndY, rowY[t.NRows]), "the table ends below its last row")
}

var spans = [][2]int{{1, 1}, {2, 1}, {1, 2}, {2, 2}, {3, 1}, {1, 3}}

func run(t *Table, spanned bool) {
	t.Layout()
	e := Wide()
	x0 := sym.Float("x", 0, 50, 3)
	w := sym.Float("width", 30, 300, 3)
	var h []float64
	for r := range t.Rows {
		h = append(h, sym.Float("h", 1, 60, 3))
		t.RowAttr[r] = `style="height:` + sym.FloatText(h[r]) + `"`
	}
	Run(e, nil, Doc("", `<setx x="`+sym.FloatText(x0)+`"/>`+t.XML(`style="line-width:0;width:`+sym.FloatText(w)+`"`)))
	check(t, e, x0, e.T, w, h)
}

func HSpans() {
	t := NewTable()
	max, kinds := 4, 4
	if sym.Tier() > 0 {
		max, kinds = 5, 6
	}
	rows := 1 + sym.Choose("rows", 3)
	for r := 0; r < rows; r++ {
		n := sym.Choose("cells", 4)
		if len(t.Cells)+n > max {
			sym.Assume(false)
		}
		for i := 0; i < n; i++ {
			s := spans[sym.Choose("span", kinds)]
			t.Add(r, s[0], s[1])
		}
		if n == 0 {
			t.Rows = append(t.Rows, nil)
			t.RowAttr = append(t.RowAttr, "")
		}
	}
	sym.Assume(len(t.Cells) > 0)
	run(t, true)
}

// HGrid: full grids with one or two spanning cells.
func HGrid() {
	t := NewTable()
	a, b := sym.Choose("first", 5), sym.Choose("second", 5)
	k := 0
	for r := 0; r < 3; r++ {
		n := 3
		if r == 2 {
			n = 2
		}
		for i := 0; i < n; i++ {
			cs, rs := 1, 1
			if k == a {
				s := spans[sym.Choose("spana", 6)]
				cs, rs = s[0], s[1]
			} else if k == b+3 {
				s := spans[sym.Choose("spanb", 6)]
				cs, rs = s[0], s[1]
			}
			t.Add(r, cs, rs)
			k++
		}
	}
	run(t, true)
}

// HZero: 0 and 1 mean no span.
func HZero() {
	t := NewTable()
	for i := 0; i < 4; i++ {
		c := t.Add(i/2, 1, 1)
		switch sym.Choose("attr", 4) {
		case 0:
			c.Attr = ` colspan="0"`
		case 1:
			c.Attr = ` rowspan="0" colspan="1"`
		case 2:
			c.Attr = ` rowspan="1"`
		}
	}
	run(t, false)
}
