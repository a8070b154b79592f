package common

import "github.com/mazzegi/xpdf/zzverif/sym"

// Cell of a generated table.
type Cell struct {
	ID       string // its text, one letter
	Row      int
	CS, RS   int // spans, at least 1
	Col      int // first column, given by the layout
	Attr     string
	Body     string // XML content; the ID if empty
	Sty      string
	MinH     float64 // demanded height
	ColWidth float64
}

// Table is a generated table and its layout.
type Table struct {
	Rows     [][]*Cell
	Cells    []*Cell // in document order
	Cols     int
	NRows    int  // rows including those only spanned
	Conflict bool // some place is claimed twice
	RowAttr  []string
}

const ids = "abcdefghijklmnopqrstuvwxyABCDEFGHIJKLMNOPQRSTUVWXY"

// NewTable makes an empty table.
func NewTable() *Table { return &Table{} }

func (t *Table) Add(row, cs, rs int) *Cell {
	for len(t.Rows) <= row {
		t.Rows = append(t.Rows, nil)
		t.RowAttr = append(t.RowAttr, "")
	}
	c := &Cell{ID: ids[len(t.Cells) : len(t.Cells)+1], Row: row, CS: cs, RS: rs}
	t.Rows[row] = append(t.Rows[row], c)
	t.Cells = append(t.Cells, c)
	return c
}

// Layout places the cells: each at the first column of its row that nothing before it takes.
func (t *Table) Layout() {
	taken := map[[2]int]bool{}
	t.Cols, t.NRows = 0, len(t.Rows)
	for r, row := range t.Rows {
		col := 0
		for _, c := range row {
			for taken[[2]int{r, col}] {
				col++
			}
			c.Col = col
			for i := 0; i < c.RS; i++ {
				for k := 0; k < c.CS; k++ {
					at := [2]int{r + i, col + k}
					if taken[at] {
						t.Conflict = true
					}
					taken[at] = true
				}
			}
			if r+c.RS > t.NRows {
				t.NRows = r + c.RS
			}
			if col+c.CS > t.Cols {
				t.Cols = col + c.CS
			}
			col += c.CS
		}
	}
}

// XML of the table; attrs are those of the table element.
func (t *Table) XML(attrs string) string {
	s := "<table " + attrs + ">\n"
	for r, row := range t.Rows {
		s += "<tr " + t.RowAttr[r] + ">"
		for _, c := range row {
			s += "<td"
			if c.CS != 1 {
				s += ` colspan="` + sym.IntText(c.CS) + `"`
			}
			if c.RS != 1 {
				s += ` rowspan="` + sym.IntText(c.RS) + `"`
			}
			if c.Sty != "" {
				s += ` style="` + c.Sty + `"`
			}
			b := c.Body
			if b == "" {
				b = c.ID
			}
			s += c.Attr + ">" + b + "</td>"
		}
		s += "</tr>\n"
	}
	return s + "</table>"
}

// Drawn is a cell as drawn.
type Drawn struct {
	Cell *Cell
	Rect Ev
	Text []Ev
}

// DrawnCells pairs every rectangle with the text written after it; cells must hold their ID as text.
func (t *Table) DrawnCells(e *Eng) []Drawn {
	var r []Drawn
	for _, v := range e.Evs {
		if v.Part != Body {
			continue
		}
		switch v.Kind {
		case EvRect:
			r = append(r, Drawn{Rect: v})
		case EvText:
			if len(r) == 0 {
				continue
			}
			d := &r[len(r)-1]
			d.Text = append(d.Text, v)
			if d.Cell == nil {
				for _, c := range t.Cells {
					if len(v.S) > 0 && v.S[0] == c.ID[0] {
						d.Cell = c
					}
				}
			}
		}
	}
	return r
}
