// Package common holds what several harnesses share: style oracles and the recording engine.
package common

import (
	"github.com/mazzegi/xpdf/style"
	"github.com/mazzegi/xpdf/zzverif/sym"
)

// Keys are the style properties a declaration can name.
var Keys = []string{
	"font-family", "font-point-size", "font-style", "font-weight", "font-decoration",
	"border", "padding", "margin",
	"width", "height", "line-spacing", "offset-x", "offset-y",
	"column-width", "h-align", "v-align",
	"color", "text-color", "background-color", "line-width",
}

const hexd = "0123456789abcdef"

func rgb(tag string) (string, style.RGB) {
	b := make([]byte, 6)
	var d [6]int
	for i := range b {
		if Simple {
			d[i] = sym.Int(tag+"hex", 0, 9)
		} else {
			d[i] = sym.Int(tag+"hex", 0, 15)
		}
		b[i] = hexd[d[i]]
	}
	return "#" + string(b), style.RGB{R: d[0]*16 + d[1], G: d[2]*16 + d[3], B: d[4]*16 + d[5]}
}

// Simple restricts the values of declarations to positive numbers and one unknown letter.
var Simple bool

// Minus makes numbers negative.
var Minus bool

// Num is a symbolic length.
func Num(tag string) float64 {
	if Minus {
		return sym.Float(tag, -500, -1, 6)
	}
	if Simple {
		return sym.Float(tag, 1, 500, 6)
	}
	return sym.Float(tag, -500, 500, 6)
}

func four(tag string) (string, [4]float64) {
	var f [4]float64
	s := ""
	for i := range f {
		f[i] = Num(tag)
		if i > 0 {
			s += ","
		}
		s += sym.FloatText(f[i])
	}
	return s, f
}

// Decl makes a symbolic value for property k: its text and its effect on a style.
func Decl(k int, tag string) (string, func(s *style.Styles)) {
	word := func() string {
		if Simple {
			return "w" + sym.Str(tag+"word", 1, "abx-")
		}
		return sym.Str(tag+"word", 3, "abx-")
	}
	num := func(set func(*style.Styles, float64)) (string, func(*style.Styles)) {
		f := Num(tag)
		return sym.FloatText(f), func(s *style.Styles) { set(s, f) }
	}
	switch Keys[k] {
	case "font-family":
		w := word()
		return w, func(s *style.Styles) { s.Font.Family = w }
	case "font-point-size":
		return num(func(s *style.Styles, f float64) { s.Font.PointSize = f })
	case "font-style":
		w := word()
		return w, func(s *style.Styles) { s.Font.Style = style.FontStyle(w) }
	case "font-weight":
		w := word()
		return w, func(s *style.Styles) { s.Font.Weight = style.FontWeight(w) }
	case "font-decoration":
		w := word()
		return w, func(s *style.Styles) { s.Font.Decoration = style.FontDecoration(w) }
	case "border":
		var n [4]int
		t := ""
		for i := range n {
			if Simple {
				n[i] = sym.Int(tag+"border", 1, 9)
			} else {
				n[i] = sym.Int(tag+"border", -99, 99)
			}
			if i > 0 {
				t += ","
			}
			t += sym.IntText(n[i])
		}
		return t, func(s *style.Styles) {
			s.Box.Border = style.Border{Left: n[0], Top: n[1], Right: n[2], Bottom: n[3]}
		}
	case "padding":
		t, f := four(tag)
		return t, func(s *style.Styles) {
			s.Box.Padding = style.Padding{Left: f[0], Top: f[1], Right: f[2], Bottom: f[3]}
		}
	case "margin":
		t, f := four(tag)
		return t, func(s *style.Styles) {
			s.Box.Margin = style.Margin{Left: f[0], Top: f[1], Right: f[2], Bottom: f[3]}
		}
	case "width":
		return num(func(s *style.Styles, f float64) { s.Dimension.Width = f })
	case "height":
		return num(func(s *style.Styles, f float64) { s.Dimension.Height = f })
	case "line-spacing":
		return num(func(s *style.Styles, f float64) { s.Dimension.LineSpacing = f })
	case "offset-x":
		return num(func(s *style.Styles, f float64) { s.Dimension.OffsetX = f })
	case "offset-y":
		return num(func(s *style.Styles, f float64) { s.Dimension.OffsetY = f })
	case "column-width":
		return num(func(s *style.Styles, f float64) { s.Table.ColumnWidth = f })
	case "h-align":
		w := word()
		return w, func(s *style.Styles) { s.Align.HAlign = style.HAlign(w) }
	case "v-align":
		w := word()
		return w, func(s *style.Styles) { s.Align.VAlign = style.VAlign(w) }
	case "color":
		t, c := rgb(tag)
		return t, func(s *style.Styles) { s.Color.Foreground = c }
	case "text-color":
		t, c := rgb(tag)
		return t, func(s *style.Styles) { s.Color.Text = c }
	case "background-color":
		t, c := rgb(tag)
		return t, func(s *style.Styles) { s.Color.Background = c }
	case "line-width":
		return num(func(s *style.Styles, f float64) { s.Draw.LineWidth = f })
	}
	panic("key")
}

func EqRGB(a, b style.RGB) bool { return sym.And(a.R == b.R, a.G == b.G, a.B == b.B) }

// EqStyles compares all properties without branching.
func EqStyles(a, b style.Styles) bool {
	return sym.And(
		EqFont(a.Font, b.Font),
		a.Border.Left == b.Border.Left, a.Border.Top == b.Border.Top, a.Border.Right == b.Border.Right, a.Border.Bottom == b.Border.Bottom,
		a.Padding.Left == b.Padding.Left, a.Padding.Top == b.Padding.Top, a.Padding.Right == b.Padding.Right, a.Padding.Bottom == b.Padding.Bottom,
		a.Margin.Left == b.Margin.Left, a.Margin.Top == b.Margin.Top, a.Margin.Right == b.Margin.Right, a.Margin.Bottom == b.Margin.Bottom,
		a.Width == b.Width, a.Height == b.Height, a.LineSpacing == b.LineSpacing, a.OffsetX == b.OffsetX, a.OffsetY == b.OffsetY,
		a.ColumnWidth == b.ColumnWidth,
		sym.EqS(string(a.HAlign), string(b.HAlign)), sym.EqS(string(a.VAlign), string(b.VAlign)),
		EqRGB(a.Foreground, b.Foreground), EqRGB(a.Text, b.Text), EqRGB(a.Background, b.Background),
		a.LineWidth == b.LineWidth,
	)
}

func EqFont(a, b style.Font) bool {
	return sym.And(sym.EqS(a.Family, b.Family), a.PointSize == b.PointSize, sym.EqS(string(a.Style), string(b.Style)),
		sym.EqS(string(a.Weight), string(b.Weight)), sym.EqS(string(a.Decoration), string(b.Decoration)))
}

// AnyStyle is a style with symbolic numbers and distinct names everywhere.
func AnyStyle(tag string) style.Styles {
	n := func() float64 { return Num(tag) }
	c := func() style.RGB {
		return style.RGB{R: sym.Int(tag+"c", 0, 255), G: sym.Int(tag+"c", 0, 255), B: sym.Int(tag+"c", 0, 255)}
	}
	i := func() int { return sym.Int(tag+"b", 0, 9) }
	return style.Styles{
		Font:      style.Font{Family: tag + "F", PointSize: n(), Style: style.FontStyle(tag + "S"), Weight: style.FontWeight(tag + "W"), Decoration: style.FontDecoration(tag + "D")},
		Box:       style.Box{Border: style.Border{Left: i(), Top: i(), Right: i(), Bottom: i()}, Padding: style.Padding{Left: n(), Top: n(), Right: n(), Bottom: n()}, Margin: style.Margin{Left: n(), Top: n(), Right: n(), Bottom: n()}},
		Dimension: style.Dimension{Width: n(), Height: n(), LineSpacing: n(), OffsetX: n(), OffsetY: n()},
		Table:     style.Table{ColumnWidth: n()},
		Align:     style.Align{HAlign: style.HAlign(tag + "H"), VAlign: style.VAlign(tag + "V")},
		Color:     style.Color{Foreground: c(), Text: c(), Background: c()},
		Draw:      style.Draw{LineWidth: n()},
	}
}

// DefaultLike is a concrete style.
func DefaultLike() style.Styles {
	s := style.Styles{}
	s.Font.Family = "Arial"
	s.Font.PointSize = 8
	s.Width, s.Height = -1, -1
	s.HAlign = "left"
	return s
}
