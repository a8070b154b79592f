// Package c05 decides the size of boxes and the place of their text.
//
// bounds: HBox: a box anywhere on the page with symbolic position, width, height (or none), padding, offsets, border, line width and colours, holding nothing, one or several lines of text of symbolic widths in fonts of 8 and 16 points, left aligned or justified; followed by another element
// bounds: HBreak: a box with symbolic cursor, size, offsets and padding that starts a new page
// outside: longer texts; whether a box starts a new page (C06)
package c05

import (
	"github.com/mazzegi/xpdf/style"
	. "github.com/mazzegi/xpdf/zzverif/common"
	"github.com/mazzegi/xpdf/zzverif/sym"
)

func num(name string, lo, hi float64) float64 { return sym.Float(name, lo, hi, 3) }

func rgb(name string) (string, style.RGB) {
	d := sym.Int(name, 0, 9)
	return "#0" + string([]byte{'0' + byte(d)}) + "ff10", style.RGB{R: d, G: 255, B: 16}
}

func four(fs [4]float64) string {
	s := ""
	for i, f := range fs {
		if i > 0 {
			s += ","
		}
		s += sym.FloatText(f)
	}
	return s
}

type box struct {
	x, y, w, h     float64 // cursor and styled size
	hasW, hasH     bool
	pad            [4]float64 // left, top, right, bottom
	ox, oy, lw     float64
	border         [4]int
	fill, draw     style.RGB
	fillT, drawT   string
	align, content string
}

func (b *box) style() string {
	s := "padding:" + four(b.pad) + ";offset-x:" + sym.FloatText(b.ox) + ";offset-y:" + sym.FloatText(b.oy) + ";line-width:" + sym.FloatText(b.lw)
	if b.hasW {
		s += ";width:" + sym.FloatText(b.w)
	}
	if b.hasH {
		s += ";height:" + sym.FloatText(b.h)
	}
	bt := ""
	for i, n := range b.border {
		if i > 0 {
			bt += ","
		}
		bt += sym.IntText(n)
	}
	return s + ";border:" + bt + ";background-color:" + b.fillT + ";color:" + b.drawT + ";h-align:" + b.align
}

// HFrame: rectangle, border, colours, cursor.
func HFrame() {
	e := NewEng(200, 4000, 10, 20, 30, 40)
	b := &box{x: num("x", 0, 50), y: num("y", 0, 500), w: num("w", 1, 300), h: num("h", 1, 50), align: "left"}
	b.hasW, b.hasH = sym.Bool("hasW"), sym.Bool("hasH")
	for i := range b.pad {
		b.pad[i] = num("pad", 0, 9)
	}
	b.ox, b.oy, b.lw = num("ox", 0, 30), num("oy", 0, 30), num("lw", 0, 2)
	for i := range b.border {
		b.border[i] = sym.Int("border", 0, 9)
	}
	b.fillT, b.fill = rgb("fill")
	b.drawT, b.draw = rgb("draw")
	Run(e, nil, Doc("", `<setx x="`+sym.FloatText(b.x)+`"/><sety y="`+sym.FloatText(b.y)+`"/><box style="`+b.style()+`"></box>`))
	width := 158.0
	if b.hasW {
		width = sym.IteF(b.w > width, width, b.w)
	}
	height := e.Font.PointSize * PtHeight
	if b.hasH {
		height = b.h
	}
	height += b.pad[1] + b.pad[3]
	x0, y0 := b.x+b.ox, b.y+b.oy
	x1, y1 := x0+width, y0+height
	CheckFrame(e, Body, 0, x0, y0, x1, y1, b.lw, b.fill, b.draw, b.border)
	sym.Assert(len(e.Of(EvRect, Body)) == 1, "one rectangle")
	sym.Assert(len(e.Of(EvText, Body)) == 0, "an empty box writes no text")
	sym.Assert(sym.Near(e.EndY, y1), "the cursor is at the bottom edge")
	sym.Assert(e.Page == 1, "no page is started")
}

// HText: the text starts at the padded corner and is enclosed.
func HText() {
	e := NewEng(200, 4000, 10, 20, 30, 40)
	e.CharW[' '] = 1
	e.CharW['-'] = 1
	b := &box{x: num("x", 0, 50), y: num("y", 0, 500), w: num("w", 20, 300), h: num("h", 1, 50), align: []string{"left", "block"}[sym.Choose("align", 2)]}
	b.hasW, b.hasH = true, sym.Bool("hasH")
	for i := range b.pad {
		b.pad[i] = num("pad", 0, 9)
	}
	b.ox, b.oy, b.lw = num("ox", 0, 30), num("oy", 0, 30), 1
	b.fillT, b.fill = rgb("fill")
	b.drawT, b.draw = rgb("draw")
	words := "abcd"
	big := 0
	txt := ""
	for i := 0; i < 2+sym.Tier(); i++ {
		c := words[i : i+1]
		e.CharW[c[0]] = num("word", 1, 60)
		switch sym.Choose("child", 4) {
		case 0:
			txt += " " + c
		case 1:
			txt += "<br/>" + c
		case 2:
			txt += "<p>" + c + "</p>"
		case 3:
			txt += `<p style="font-point-size:16">` + c + "</p>"
			big++
		}
	}
	tailBreak := sym.Bool("tail")
	if tailBreak {
		txt += "<br/>"
	}
	Run(e, Hyphenator("z1z"), Doc("", `<setx x="`+sym.FloatText(b.x)+`"/><sety y="`+sym.FloatText(b.y)+`"/><box style="line-spacing:1.25;font-point-size:8;`+b.style()+`">`+txt+`</box>`))
	width := sym.IteF(b.w > 158, 158, b.w)
	x0, y0 := b.x+b.ox, b.y+b.oy
	x1 := x0 + width
	rects := e.Of(EvRect, Body)
	sym.Assert(len(rects) == 1, "one rectangle")
	texts := e.Of(EvText, Body)
	sym.Assert(len(texts) > 0, "text is written")
	if len(rects) != 1 || len(texts) == 0 {
		return
	}
	y1 := rects[0].Y + rects[0].H + b.lw/2
	if b.hasH {
		y1 = y0 + b.h + b.pad[1] + b.pad[3]
	}
	CheckFrame(e, Body, 0, x0, y0, x1, y1, b.lw, b.fill, b.draw, b.border)
	sym.Assert(sym.Near(e.EndY, y1), "the cursor is at the bottom edge")
	// the text
	first := texts[0]
	lead := 0.0
	if !startsBroken(txt) {
		over := sym.Not(sym.Leq(first.W+1*(first.Font.PointSize/8), width-b.pad[0]-b.pad[2]-1e-3)) // a first word wider than the box stands below an empty line
		sym.Assert(sym.Or(over, sym.Near(first.Y, y0+b.pad[1])), "text starts at the padded top")
	} else {
		sym.Assert(sym.Leq(y0+b.pad[1], first.Y), "text starts below the padded top")
	}
	sym.Assert(sym.Near(first.X, x0+b.pad[0]+lead), "text starts at the padded left edge")
	if !b.hasH {
		bottom := y0 + b.pad[1]
		for _, t := range texts {
			sym.Assert(sym.And(sym.Leq(y0+b.pad[1], t.Y), sym.Leq(t.Y+t.H+b.pad[3], y1)), "an automatically sized box encloses its text")
			bottom = sym.MaxF(bottom, t.Y+t.H)
		}
		if !tailBreak {
			sym.Assert(sym.Near(bottom+b.pad[3], y1), "and is not higher than that")
		}
		sym.Reach("automatic height")
	}
}

func startsBroken(s string) bool { return len(s) > 4 && s[:5] == "<br/>" }

// HBreak: a box that starts a new page stands at the cursor of that page.
func HBreak() {
	e := NewEng(200, 200, 10, 20, 30, 40)
	b := &box{x: num("x", 0, 50), y: num("y", 0, 160), w: num("w", 1, 100), h: num("h", 1, 50), hasW: true, hasH: true, align: "left"}
	for i := range b.pad {
		b.pad[i] = num("pad", 0, 9)
	}
	b.ox, b.oy, b.lw = num("ox", 0, 30), num("oy", 0, 30), 0
	b.border[sym.Choose("side", 4)] = sym.Int("border", 1, 9)
	b.fillT, b.fill = rgb("fill")
	b.drawT, b.draw = rgb("draw")
	head := ""
	const top = 20.0 // a header moves only its own cursor
	if sym.Bool("header") {
		h := num("headerEnd", 21, 60)
		head = `<header><sety y="` + sym.FloatText(h) + `"/></header>`
	}
	text := ""
	if sym.Bool("text") {
		text = "a"
		e.CharW['a'] = 1
	}
	Run(e, nil, "<document>"+head+`<body><setx x="`+sym.FloatText(b.x)+`"/><sety y="`+sym.FloatText(b.y)+`"/><box style="`+b.style()+`">`+text+`</box></body></document>`)
	x0, y0 := b.x, b.y
	if e.Page == 2 {
		x0, y0 = 10, top
		sym.Reach("on the next page")
	}
	sym.Assert(e.Page <= 2, "at most one page is started")
	x0, y0 = x0+b.ox, y0+b.oy
	x1, y1 := x0+b.w, y0+b.h+b.pad[1]+b.pad[3]
	CheckFrame(e, Body, 0, x0, y0, x1, y1, b.lw, b.fill, b.draw, b.border)
	if text != "" {
		ts := e.Of(EvText, Body)
		sym.Assert(len(ts) == 1, "its text is written once")
		if len(ts) == 1 {
			over := sym.Not(sym.Leq(2, b.w-b.pad[0]-b.pad[2]))
			sym.Assert(sym.And(ts[0].Page == e.Page, sym.Near(ts[0].X, x0+b.pad[0])), "text starts at the padded left edge")
			sym.Assert(sym.Or(over, sym.Near(ts[0].Y, y0+b.pad[1])), "text starts at the padded top")
		}
	}
	sym.Assert(sym.Near(e.EndY, y1), "the cursor is at the bottom edge")
}
