// Package c31 decides where the content of a table cell is placed.
//
// bounds: HText: a cell, beside a higher one or spanning two rows or columns, with symbolic paddings, row height and word widths, one to three words, a line break or paragraphs of two font sizes (8 and 16), justified words that may be divided, all vertical and horizontal alignments; HFit: rows sized by the text of such a cell, the text staying inside the padded area; HBoxes: a cell holding one box with a symbolic styled height or as high as its text of one or four words of symbolic width, and padding, all vertical alignments; HImage: an image of any size in such a cell; HMany: one to three boxes and images (thorough four) after text or not, in symbolic paddings, the boxes padded themselves, empty or with text
// outside: text higher than the padded cell it is in (styled heights); vertical place of several boxes in one cell
package c31

import (
	"os"
	"strings"

	"github.com/mazzegi/xpdf/hyphenation"
	. "github.com/mazzegi/xpdf/zzverif/common"
	"github.com/mazzegi/xpdf/zzverif/sym"
)

func num(name string, lo, hi float64) float64 { return sym.Float(name, lo, hi, 3) }

type pad struct{ l, t, r, b float64 }

func padding() (pad, string) {
	p := pad{num("pl", 0, 9), num("pt", 0, 9), num("pr", 0, 9), num("pb", 0, 9)}
	return p, "padding:" + sym.FloatText(p.l) + "," + sym.FloatText(p.t) + "," + sym.FloatText(p.r) + "," + sym.FloatText(p.b)
}

var (
	valigns = []string{"top", "middle", "bottom", ""}
	haligns = []string{"left", "block", "right", "center"}
)

// place makes a table with the cell under test, whose text is made of its ID, next to others.
func place(kind int, h float64) (*Table, *Cell) {
	t := NewTable()
	height := ";height:" + sym.FloatText(h)
	var c *Cell
	switch kind {
	case 0: // beside a cell with a styled height
		c = t.Add(0, 1, 1)
		t.Add(0, 1, 1).Sty = height
	case 1: // on the right, over two columns
		t.Add(0, 1, 1).Sty = height
		c = t.Add(0, 2, 1)
	case 2: // over two rows
		c = t.Add(0, 1, 2)
		t.Add(0, 1, 1).Sty = height
		t.Add(1, 1, 1).Sty = height
	}
	return t, c
}

func words(c *Cell, n int) {
	switch n {
	case 0:
		c.Body = c.ID
	case 1:
		c.Body = c.ID + " " + c.ID + " " + c.ID
	case 2:
		c.Body = c.ID + "<br/>" + c.ID
	case 3:
		c.Body = c.ID + ` <p style="font-point-size:16">` + c.ID + "</p>"
	case 4:
		c.Body = c.ID + ` <p style="font-point-size:16">` + c.ID + "</p><br/>" + c.ID
	case 5:
		c.Body = c.ID + " " + strings.Repeat(c.ID, 4) + " " + c.ID + " " + strings.Repeat(c.ID, 4)
	}
}

// find returns what was drawn of the cell.
func find(t *Table, e *Eng, c *Cell) Drawn {
	dr := t.DrawnCells(e)
	for _, d := range dr {
		if d.Cell == c {
			return d
		}
	}
	sym.Assert(false, "the cell and its text are drawn")
	sym.Assume(false)
	return Drawn{}
}

func extent(evs []Ev) (top, bottom, left, right float64) {
	top, bottom, left, right = evs[0].Y, evs[0].Y+evs[0].H, evs[0].X, evs[0].X+evs[0].W
	for _, v := range evs {
		top, bottom = sym.MinF(top, v.Y), sym.MaxF(bottom, v.Y+v.H)
		left, right = sym.MinF(left, v.X), sym.MaxF(right, v.X+v.W)
	}
	return
}

func text(kinds int, styled bool) {
	e := NewEng(104, 2000, 10, 20, 8, 40)
	p, ps := padding()
	h := 0.5
	if styled {
		h = num("height", 60, 200)
	}
	kind := sym.Choose("place", 3)
	t, c := place(kind, h)
	va, ha := valigns[sym.Choose("v-align", len(valigns))], haligns[sym.Choose("h-align", len(haligns))]
	c.Sty = ps + ";h-align:" + ha
	if va != "" {
		c.Sty += ";v-align:" + va
	}
	wk := sym.Choose("words", kinds)
	words(c, wk)
	var hyph *hyphenation.Hyphenator
	if wk == 5 {
		if ha != "block" {
			return // no words are divided
		}
		hyph = Hyphenator(c.ID + "1" + c.ID + "\n")
		e.CharW['-'] = 0.5
	}
	for i := range t.Cells {
		e.CharW[t.Cells[i].ID[0]] = 1
	}
	widest := 10.0
	if wk == 5 {
		widest = 4
	}
	e.CharW[c.ID[0]] = num("word", 1, widest)
	e.CharW[32] = num("blank", 0.5, 2)
	Run(e, hyph, Doc("", t.XML(`style="line-width:0"`)))
	d := find(t, e, c)
	r := d.Rect
	top, bottom, left, right := extent(d.Text)
	x0, x1, y0, y1 := r.X+p.l, r.X+r.W-p.r, r.Y+p.t, r.Y+r.H-p.b
	room := (y1 - y0) - (bottom - top)
	sym.Assert(sym.And(sym.Leq(y0, top), sym.Leq(bottom, y1)), "the text stays inside the padded height of a row sized for it")
	sym.Assert(sym.And(sym.Leq(x0, left), sym.Leq(right, x1)), "the text stays inside the padded width")
	switch ha {
	case "left", "block":
		sym.Assert(sym.Near(left, x0), "the text starts at the padded left edge")
	case "right":
		sym.Assert(sym.Leq(x1-right, 3*e.CharW[32]), "right aligned text ends at the padded right edge, up to a blank")
	}
	switch va {
	case "middle":
		sym.Assert(sym.Near(top-y0, room/2), "half of the room is above text aligned to the middle")
	case "bottom":
		sym.Assert(sym.Near(bottom, y1), "no room is below text aligned to the bottom")
	default:
		sym.Assert(sym.Near(top, y0), "no room is above text aligned to the top")
	}
}

func HText() { text(6, true) }
func HFit()  { text(6, false) }

// HBoxes has a single box in a cell.
func HBoxes() {
	e := NewEng(104, 2000, 10, 20, 8, 40)
	p, ps := padding()
	h := num("height", 60, 200)
	kind := sym.Choose("place", 3)
	t, c := place(kind, h)
	va := valigns[sym.Choose("v-align", len(valigns))]
	c.Sty = ps
	if va != "" {
		c.Sty += ";v-align:" + va
	}
	bh, bp, bs := num("box", 1, 15), num("bp", 0, 4), ""
	inner, txt := LineHeight, c.ID
	ww, long := 1.0, sym.Bool("long text")
	if long {
		// broken into lines as the box, whose height follows, is wide
		txt = strings.Join([]string{c.ID, c.ID, c.ID, c.ID}, " ")
		ww = num("word", 4, 10)
	} else if sym.Bool("styled box") {
		bs = "height:" + sym.FloatText(bh) + ";"
		inner = bh
	}
	c.Body = `<box style="` + bs + "line-width:0;padding:" + sym.FloatText(bp) + "," + sym.FloatText(bp) + "," + sym.FloatText(bp) + "," + sym.FloatText(bp) + `">` + txt + "</box>"
	for i := range t.Cells {
		e.CharW[t.Cells[i].ID[0]] = 1
	}
	e.CharW[c.ID[0]] = ww
	Run(e, nil, Doc("", t.XML(`style="line-width:0"`)))
	// the frame of the box is the rectangle after that of the cell
	var cell, box Ev
	n := 0
	for i, v := range e.Of(EvRect, Body) {
		switch {
		case kind == 1 && i == 1, kind != 1 && i == 0:
			cell = v
			n++
		case kind == 1 && i == 2, kind != 1 && i == 1:
			box = v
			n++
		}
	}
	sym.Assert(n == 2 && len(e.Of(EvRect, Body)) == len(t.Cells)+1, "every cell and the box are drawn")
	sym.Assume(n == 2)
	x0, y0, y1 := cell.X+p.l, cell.Y+p.t, cell.Y+cell.H-p.b
	sym.Assert(sym.Near(box.X, x0), "the box starts at the padded left edge")
	sym.Assert(sym.Near(box.X+box.W, cell.X+cell.W-p.r), "the box ends at the padded right edge")
	var tx []Ev
	for _, v := range e.Of(EvText, Body) {
		if strings.Trim(v.S, c.ID+" ") == "" && strings.Trim(v.S, " ") != "" {
			tx = append(tx, v)
		}
	}
	sym.Assert(len(tx) > 0, "the text of the box is written")
	sym.Assume(len(tx) > 0)
	if long {
		_, bottom, _, right := extent(tx)
		sym.Assert(sym.Leq(right, cell.X+cell.W-p.r-bp), "the text of the box stays inside")
		sym.Assert(sym.Near(box.H, bottom-box.Y+bp), "the box is as high as its text")
	} else {
		sym.Assert(sym.Near(box.H, inner+2*bp), "the box has its height")
	}
	switch va {
	case "middle":
		sym.Assert(sym.Near(box.Y-y0, y1-box.Y-box.H), "half of the room is above a box aligned to the middle")
	case "bottom":
		sym.Assert(sym.Near(box.Y+box.H, y1), "no room is below a box aligned to the bottom")
	default:
		sym.Assert(sym.Near(box.Y, y0), "no room is above a box aligned to the top")
	}
	sym.Assert(sym.And(sym.Near(tx[0].X, box.X+bp), sym.Near(tx[0].Y, box.Y+bp)), "the text of the box is at its padded corner")
}

// HImage has a large image in a cell.
func HImage() {
	e := NewEng(104, 2000, 10, 20, 8, 40)
	p, ps := padding()
	file := sym.Scratch() + "/i.gif"
	if os.WriteFile(file, []byte(gif), 0o600) != nil {
		sym.Assume(false)
	}
	kind := sym.Choose("place", 3)
	t, c := place(kind, num("height", 20, 200))
	c.Sty = ps
	c.Body = `<image style="width:` + sym.FloatText(num("w", 1, 300)) + ";height:" + sym.FloatText(num("h", 1, 300)) + `">` + file + "</image>"
	for i := range t.Cells {
		e.CharW[t.Cells[i].ID[0]] = 1
	}
	Run(e, nil, Doc("", t.XML(`style="line-width:0"`)))
	var cell Ev
	for i, v := range e.Of(EvRect, Body) {
		if kind == 1 && i == 1 || kind != 1 && i == 0 {
			cell = v
		}
	}
	im := e.Of(EvImage, Body)
	sym.Assert(len(im) == 1, "the image is drawn once")
	sym.Assume(len(im) == 1)
	v := im[0]
	sym.Assert(sym.And(sym.Near(v.X, cell.X+p.l), sym.Near(v.Y, cell.Y+p.t)), "every image starts at the padded corner")
	sym.Assert(sym.And(sym.Leq(v.X+v.W, cell.X+cell.W-p.r), sym.Leq(v.Y+v.H, cell.Y+cell.H-p.b)), "an image stays inside of the padded cell")
}

// LineHeight of the default font.
const LineHeight = 12 * PtHeight

const gif = "GIF89a\x10\x00\x08\x00\x00\x00\x00"

// HMany has several boxes and images in a cell.
func HMany() {
	e := NewEng(104, 2000, 10, 20, 8, 40)
	p, ps := padding()
	file := sym.Scratch() + "/i.gif"
	if os.WriteFile(file, []byte(gif), 0o600) != nil {
		sym.Assume(false)
	}
	t, c := place(sym.Choose("place", 2), 90)
	c.Sty = ps
	c.Body = ""
	hasText := sym.Bool("text")
	if hasText {
		c.Body = c.ID
	}
	n := 1 + sym.Choose("n", 3+sym.Tier())
	want := ""
	for i := 0; i < n; i++ {
		if sym.Bool("image") {
			c.Body += "<image>" + file + "</image>"
			want += "i"
		} else {
			bp := sym.FloatText(num("bp", 0, 4))
			c.Body += `<box style="width:` + sym.FloatText(num("width", 10, 20)) + `;line-width:0;height:3;padding:` + bp + ",0," + bp + `,0">` + []string{"", "z"}[sym.Choose("box text", 2)] + "</box>"
			want += "b"
		}
	}
	if !hasText && sym.Bool("text after") {
		c.Body += c.ID
	}
	for i := range t.Cells {
		e.CharW[t.Cells[i].ID[0]] = 1
	}
	Run(e, nil, Doc("", t.XML(`style="line-width:0"`)))
	var cell Ev
	got := ""
	k := 0
	for _, v := range e.Evs {
		switch {
		case v.Kind == EvRect && v.H == 3:
			got += "b"
			sym.Assert(sym.Near(v.X, cell.X+p.l), "every box starts at the padded left edge")
		case v.Kind == EvRect:
			if t.Cells[k] == c {
				cell = v
			}
			if k < len(t.Cells)-1 {
				k++
			}
		case v.Kind == EvImage:
			got += "i"
			sym.Assert(sym.Near(v.X, cell.X+p.l), "every image starts at the padded left edge")
			sym.Assert(sym.Near(v.Y, cell.Y+p.t), "every image starts at the padded top edge")
		case v.Kind == EvText && v.S == c.ID:
			sym.Assert(sym.And(sym.Near(v.X, cell.X+p.l), sym.Near(v.Y, cell.Y+p.t)), "the text starts at the padded corner")
		}
	}
	sym.Assert(got == want, "every box and image is drawn once, in order")
}
