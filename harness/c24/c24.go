// Package c24 decides the place and size of images.
//
// bounds: HStyled: GIF pictures of any symbolic size (1 to 4000 pixels) styled with width and height, any cursor, offset and printable area; HOne, HPlain: GIF, PNG and JPEG pictures of 9 sizes styled with one symbolic dimension, the other absent, 0 or negative, or none; HCell: pictures in padded table cells; HUnreadable: pictures missing, empty, cut after any byte of their header or of no known format
// outside: other pixel sizes when a dimension is not styled (conversion of symbolic integers to reals is out of reach of the solver); pictures of zero width or height; offsets beyond the printable area
package c24

import (
	"hash/crc32"
	"os"

	. "github.com/mazzegi/xpdf/zzverif/common"
	"github.com/mazzegi/xpdf/zzverif/sym"
)

func num(name string, lo, hi float64) float64 { return sym.Float(name, lo, hi, 3) }

func gif(w, h int) []byte {
	return []byte{'G', 'I', 'F', '8', '9', 'a', byte(w), byte(w >> 8), byte(h), byte(h >> 8), 0, 0, 0}
}

func be(n int) []byte { return []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)} }

func png(w, h int) []byte {
	chunk := []byte("IHDR")
	chunk = append(append(append(chunk, be(w)...), be(h)...), 8, 2, 0, 0, 0)
	b := append([]byte("\x89PNG\r\n\x1a\n"), be(13)...)
	return append(append(b, chunk...), be(int(crc32.ChecksumIEEE(chunk)))...)
}

func jpeg(w, h int) []byte {
	return []byte{0xff, 0xd8, 0xff, 0xe0, 0, 16, 'J', 'F', 'I', 'F', 0, 1, 1, 0, 0, 1, 0, 1, 0, 0, 0xff, 0xc0, 0, 17, 8, byte(h >> 8), byte(h), byte(w >> 8), byte(w), 3, 1, 0x11, 0, 2, 0x11, 0, 3, 0x11, 0}
}

func write(b []byte) string {
	f := sym.Scratch() + "/pic"
	if err := os.WriteFile(f, b, 0o600); err != nil {
		panic(err)
	}
	return f
}

const mm = 25.4 / 96

type pic struct {
	x, y, ox, oy float64
	aw, ah       float64 // area less offset
	sty          string
	e            *Eng
}

// place makes an engine and a cursor.
func place() *pic {
	p := &pic{e: NewEng(num("pw", 60, 300), num("ph", 60, 300), 10, 10, 8, 10)}
	p.x, p.y, p.ox, p.oy = num("x", 0, 100), num("y", 0, 100), num("ox", 0, 30), num("oy", 0, 30)
	p.aw, p.ah = p.e.PW-20-p.ox, p.e.PH-20-p.oy
	p.sty = "offset-x:" + sym.FloatText(p.ox) + ";offset-y:" + sym.FloatText(p.oy)
	return p
}

// draw asserts the rules for a picture wanted as w x h.
func (p *pic) draw(src string, w, h float64) {
	Run(p.e, nil, Doc("", `<setx x="`+sym.FloatText(p.x)+`"/><sety y="`+sym.FloatText(p.y)+`"/><image style="`+p.sty+`">`+src+"</image>"))
	im := p.e.Of(EvImage, Body)
	if len(im) != 1 {
		sym.Assert(false, "the picture is drawn once")
		return
	}
	v := im[0]
	sym.Assert(v.S == src, "the picture is the one named")
	sym.Assert(sym.And(sym.Near(v.X, p.x+p.ox), sym.Near(v.Y, p.y+p.oy)), "the picture is at the cursor plus its offset")
	size(v, w, h, p.aw, p.ah)
}

func size(v Ev, w, h, aw, ah float64) {
	sym.Assert(sym.And(sym.Leq(v.W, aw), sym.Leq(v.H, ah)), "the picture fits the area")
	sym.Assert(sym.And(sym.Leq(v.W, w), sym.Leq(v.H, h)), "the picture is never scaled up")
	d := v.W*h - v.H*w
	tol := 1e-6 * (w*h + 1)
	sym.Assert(sym.And(d <= tol, -d <= tol), "the picture keeps its proportions")
	full := sym.And(sym.Near(v.W, w), sym.Near(v.H, h))
	sym.Assert(sym.Or(full, sym.Near(v.W, aw), sym.Near(v.H, ah)), "the picture is not scaled down more than needed")
}

func HStyled() {
	p := place()
	w, h := num("w", 1, 500), num("h", 1, 500)
	p.sty += ";width:" + sym.FloatText(w) + ";height:" + sym.FloatText(h)
	p.draw(write(gif(sym.Int("wpx", 1, 4000), sym.Int("hpx", 1, 4000))), w, h)
}

var sizes = [][2]int{{100, 100}, {640, 480}, {300, 1200}, {4000, 37}, {1, 1}, {37, 4000}, {1000, 1001}, {2, 3}, {256, 255}}

// other is how a dimension is left unstyled.
func other(name string) string {
	return []string{"", ";" + name + ":0", ";" + name + ":-1"}[sym.Choose("unstyled", 3)]
}

// HOne: one dimension follows.
func HOne() {
	p := place()
	px := sizes[sym.Choose("size", len(sizes))]
	v := num("v", 1, 500)
	f := []func(w, h int) []byte{gif, png, jpeg}[sym.Choose("format", 3)]
	ratio := float64(px[0]) / float64(px[1])
	if sym.Bool("height") {
		p.sty += other("width") + ";height:" + sym.FloatText(v)
		p.draw(write(f(px[0], px[1])), v*ratio, v)
	} else {
		p.sty += other("height") + ";width:" + sym.FloatText(v)
		p.draw(write(f(px[0], px[1])), v, v/ratio)
	}
}

// HPlain: without a styled size.
func HPlain() {
	p := place()
	px := sizes[sym.Choose("size", len(sizes))]
	f := []func(w, h int) []byte{gif, png, jpeg}[sym.Choose("format", 3)]
	if sym.Bool("negative") {
		p.sty += ";width:-1;height:0"
	}
	p.draw(write(f(px[0], px[1])), float64(px[0])*mm, float64(px[1])*mm)
}

// HCell: pictures in table cells fit the cell.
func HCell() {
	e := NewEng(222, 4000, 10, 10, 10, 10)
	px := sizes[sym.Choose("size", 3)]
	rh, w := num("rowh", 20, 200), num("w", 1, 300)
	pl, pt, pr, pb := num("pl", 0, 9), num("pt", 0, 9), num("pr", 0, 9), num("pb", 0, 9)
	src := write(gif(px[0], px[1]))
	Run(e, nil, Doc("", `<table style="line-width:0"><tr style="height:`+sym.FloatText(rh)+`"><td>x</td><td style="padding:`+sym.FloatText(pl)+","+sym.FloatText(pt)+","+sym.FloatText(pr)+","+sym.FloatText(pb)+`"><image style="width:`+sym.FloatText(w)+`;height:-1">`+src+"</image></td></tr></table>"))
	im := e.Of(EvImage, Body)
	if len(im) != 1 {
		sym.Assert(false, "the picture is drawn once")
		return
	}
	size(im[0], w, w*float64(px[1])/float64(px[0]), 100-pl-pr, rh-pt-pb)
}

// HUnreadable: nothing is drawn, everything else is.
func HUnreadable() {
	var src string
	all := [][]byte{gif(10, 10), png(10, 10), jpeg(10, 10)}
	switch k := sym.Choose("kind", 6); k {
	case 0:
		src = sym.Scratch() + "/missing"
	case 1:
		src = sym.Scratch()
	case 2:
		src = write([]byte("no picture at all, only text of some length"))
	default:
		b := all[k-3]
		n := []int{13, 33, 39}[k-3]
		src = write(b[:sym.Choose("cut", n)])
	}
	e := NewEng(200, 200, 10, 10, 10, 10)
	Run(e, nil, Doc("", `<setx x="33"/><image>`+src+`</image><text>a</text><table><tr><td>b<image>`+src+`</image></td></tr></table><text>c</text>`))
	sym.Assert(len(e.Of(EvImage, Body)) == 0, "an unreadable picture draws nothing")
	tx := e.Of(EvText, Body)
	sym.Assert(len(tx) == 3 && tx[0].X == 33 && tx[0].Y == 10, "the document goes on")
}
