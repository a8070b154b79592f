// Package c08 decides the widths of table columns.
//
// bounds: HWidths: tables of 1 to 3 columns and 2 (thorough 3) rows, each cell with or without a symbolic column-width, table width symbolic, absent or wider than the page, x symbolic; HSpans: cells spanning columns between automatic and fixed columns; HLarge: three tables of 4 or 5 rows and up to 6 columns with spans, up to six symbolic column-widths anywhere, several in one column; HInherit: column-width set by table, row or class
// outside: larger tables; fixed columns wider than the table when others are automatic (unspecified); column-width of cells spanning columns
package c08

import (
	. "github.com/mazzegi/xpdf/zzverif/common"
	"github.com/mazzegi/xpdf/zzverif/sym"
)

func num(name string, lo, hi float64) float64 { return sym.Float(name, lo, hi, 3) }

// widths derives the column widths; ok is false when the fixed columns do not leave room.
func widths(t *Table, total float64) (cw []float64, auto int, ok bool) {
	cw = make([]float64, t.Cols)
	for _, c := range t.Cells {
		cw[c.Col] = sym.MaxF(cw[c.Col], c.ColWidth)
	}
	used := 0.0
	fixed := make([]bool, t.Cols)
	for i := range cw {
		for _, c := range t.Cells {
			fixed[i] = fixed[i] || c.Col == i && c.ColWidth != 0
		}
		if fixed[i] {
			used += cw[i]
		} else {
			auto++
		}
	}
	for i := range cw {
		if !fixed[i] {
			cw[i] = (total - used) / float64(auto)
		}
	}
	return cw, auto, auto == 0 || sym.Leq(used, total)
}

func check(t *Table, e *Eng, x0, total float64) {
	dr := t.DrawnCells(e)
	cw, auto, ok := widths(t, total)
	sym.Assume(ok)
	if len(dr) != len(t.Cells) {
		sym.Assert(false, "every cell is drawn once")
		return
	}
	sum := x0
	pos := []float64{x0}
	for _, w := range cw {
		sum += w
		pos = append(pos, sum)
	}
	for i, c := range t.Cells {
		r := dr[i].Rect
		sym.Assert(sym.Near(r.X, pos[c.Col]), "columns are laid side by side")
		sym.Assert(sym.Near(r.X+r.W, pos[c.Col+c.CS]), "columns have the demanded or an equal share of the width")
	}
	if auto > 0 {
		right := 0.0
		for _, d := range dr {
			right = sym.MaxF(right, d.Rect.X+d.Rect.W)
		}
		sym.Assert(sym.Near(right, x0+total), "columns fill the table's width")
		sym.Reach("automatic columns")
	}
}

func tableWidth(e *Eng) (string, float64) {
	printable := e.PW - e.L - e.R - 2
	if sym.Bool("noWidth") {
		return "", printable
	}
	w := num("width", 10, 500)
	return ";width:" + sym.FloatText(w), sym.IteF(w > printable, printable, w)
}

func HWidths() {
	e := NewEng(200, 4000, 10, 20, 30, 40)
	t := NewTable()
	cols := 1 + sym.Choose("cols", 3)
	for r := 0; r < 2+sym.Tier(); r++ {
		n := cols
		if r == 1 && cols > 1 && sym.Bool("short") {
			n--
		}
		for i := 0; i < n; i++ {
			c := t.Add(r, 1, 1)
			if sym.Bool("fixed") {
				c.ColWidth = num("cw", 1, 100)
				c.Sty = "column-width:" + sym.FloatText(c.ColWidth)
			}
		}
	}
	t.Layout()
	x := num("x", 0, 20)
	ws, total := tableWidth(e)
	Run(e, nil, Doc("", `<setx x="`+sym.FloatText(x)+`"/>`+t.XML(`style="line-width:0;font-point-size:8`+ws+`"`)))
	check(t, e, x, total)
}

// HSpans: spans over columns fixed by other cells.
func HSpans() {
	e := NewEng(200, 4000, 10, 20, 30, 40)
	t := NewTable()
	spans := [][2]int{{1, 1}, {2, 1}, {1, 2}}
	a, b := spans[sym.Choose("a", 3)], spans[sym.Choose("b", 3)]
	t.Add(0, a[0], a[1])
	t.Add(0, b[0], b[1])
	for i := 0; i < 3; i++ {
		c := t.Add(1, 1, 1)
		if sym.Bool("fixed") {
			c.ColWidth = num("cw", 1, 50)
			c.Sty = "column-width:" + sym.FloatText(c.ColWidth)
		}
	}
	t.Layout()
	sym.Assume(!t.Conflict)
	ws, total := tableWidth(e)
	Run(e, nil, Doc("", t.XML(`style="line-width:0;font-point-size:8`+ws+`"`)))
	check(t, e, e.L, total)
}

// HInherit: column-width inherited from row or table, or given by a class.
func HInherit() {
	e := NewEng(200, 4000, 10, 20, 30, 40)
	t := NewTable()
	tw, rw, kw := num("tw", 1, 40), num("rw", 1, 40), num("kw", 1, 40)
	tab := "line-width:0;font-point-size:8"
	fromTable, fromRow := sym.Bool("fromTable"), sym.Bool("fromRow")
	if fromTable {
		tab += ";column-width:" + sym.FloatText(tw)
	}
	for r := 0; r < 2; r++ {
		for i := 0; i < 2; i++ {
			c := t.Add(r, 1, 1)
			if fromTable {
				c.ColWidth = tw
			}
			if r == 1 && fromRow {
				c.ColWidth = rw
			}
			if i == 0 && sym.Bool("class") {
				c.Attr = ` class="k"`
				c.ColWidth = kw
			}
		}
	}
	if fromRow {
		t.RowAttr[1] = `style="column-width:` + sym.FloatText(rw) + `"`
	}
	t.Layout()
	Run(e, nil, Doc("k{column-width:"+sym.FloatText(kw)+"}", t.XML(`style="`+tab+`"`)))
	check(t, e, e.L, 158)
}

// HLarge: columns fixed by any of several rows.
func HLarge() {
	e := NewEng(400, 4000, 10, 20, 30, 40)
	t := NewTable()
	// rows of cells: f fixed, a automatic, number of columns and rows spanned
	for r, row := range [][]string{
		{"a11 f11 a11 a11", "f11 a11 a11 a11", "a11 f11 a11 f11", "f11 f11 a11 a11"},
		{"a21 a12 f11 a11 a11", "f11 a11 a11 f11 a11", "a31 f11 a11 f11", "a11 f11 a11 a11 a11 f11"},
		{"a12 a11 f11", "a11 f11", "f11 a11 a11", "a13 f11 a11", "f11 f11 a11"},
	}[sym.Choose("table", 3)] {
		for ; row != ""; row = row[min(4, len(row)):] {
			c := t.Add(r, int(row[1]-'0'), int(row[2]-'0'))
			if row[0] == 'f' {
				c.ColWidth = num("cw", 1, 40)
				c.Sty = "column-width:" + sym.FloatText(c.ColWidth)
			}
		}
	}
	t.Layout()
	sym.Assume(!t.Conflict)
	ws, total := tableWidth(e)
	Run(e, nil, Doc("", t.XML(`style="line-width:0;font-point-size:8`+ws+`"`)))
	check(t, e, e.L, total)
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
