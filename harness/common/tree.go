package common

import (
	"github.com/mazzegi/xpdf/style"
	"github.com/mazzegi/xpdf/xdoc"
	"github.com/mazzegi/xpdf/zzverif/sym"
)

// Node is an element of a generated document.
type Node struct {
	Kind    string // element name; "#" is text
	Text    string // text, image source, paragraph text, areas of a grid row, area of a grid part
	F       float64
	Repeat  int
	CS, RS  int
	HasSpan bool
	Classes []string
	Sty     string
	Set     func(*style.Styles)
	Kids    []*Node
}

// Tree generates nodes.
type Tree struct {
	Chars  string // alphabet of symbolic texts
	Spaces bool
	depth  int
}

func (t *Tree) text() string {
	if t.Chars == "" {
		return "abc"
	}
	return sym.Str("text", 1+sym.Choose("len", 2), t.Chars)
}

// styled may give n classes and a style.
func (t *Tree) styled(n *Node) *Node {
	switch sym.Choose("styled", 3) {
	case 0:
	case 1:
		n.Classes = []string{"k" + sym.Str("class", 1, "abx"), "other"}
	case 2:
		f := sym.Float("pt", 1, 90, 3)
		n.Sty = "font-point-size:" + sym.FloatText(f) + ";h-align:right"
		n.Set = func(s *style.Styles) { s.Font.PointSize = f; s.HAlign = "right" }
		n.Classes = []string{"k"}
	}
	return n
}

// Styled is styled for harnesses.
func (t *Tree) Styled(n *Node) *Node { return t.styled(n) }

// Leaf kinds.
const Leaves = 10

// Leaf makes an element without children.
func (t *Tree) Leaf(k int) *Node {
	switch k {
	case 0:
		return &Node{Kind: "#", Text: t.text()}
	case 1:
		return &Node{Kind: "lf", F: sym.Float("lines", -99, 99, 3)}
	case 2:
		return &Node{Kind: "setx", F: sym.Float("x", -999, 999, 3)}
	case 3:
		return &Node{Kind: "sety", F: sym.Float("y", -999, 999, 3)}
	case 4:
		return t.styled(&Node{Kind: "font"})
	case 5:
		return t.styled(&Node{Kind: "image", Text: t.text()})
	case 6:
		return t.styled(&Node{Kind: "p", Text: t.text()})
	case 7:
		return &Node{Kind: "br"}
	case 8:
		return &Node{Kind: "newpage"}
	}
	return t.styled(&Node{Kind: []string{"text", "box", "table"}[sym.Choose("empty", 3)]})
}

func esc(s string) string {
	// texts are made of characters that need no escaping
	return s
}

// XML of the node; form varies what means the same.
func (n *Node) XML(form int) string {
	if n.Kind == "#" {
		return esc(n.Text)
	}
	var at []string
	if n.Sty != "" {
		at = append(at, `style="`+n.Sty+`"`)
	}
	if len(n.Classes) > 0 {
		s := ""
		for i, c := range n.Classes {
			if i > 0 {
				s += []string{" ", "  "}[form%2]
			}
			s += c
		}
		at = append(at, `class="`+s+`"`)
	}
	switch n.Kind {
	case "lf":
		at = append(at, `lines="`+sym.FloatText(n.F)+`"`)
	case "setx":
		at = append(at, `x="`+sym.FloatText(n.F)+`"`)
	case "sety":
		at = append(at, `y="`+sym.FloatText(n.F)+`"`)
	case "table":
		if n.Repeat != 0 {
			at = append(at, `repeatheader="`+sym.IntText(n.Repeat)+`"`)
		}
	case "td":
		if n.HasSpan {
			at = append(at, `colspan="`+sym.IntText(n.CS)+`"`, `rowspan='`+sym.IntText(n.RS)+`'`)
		}
	case "part":
		at = append(at, `area="`+n.Text+`"`)
	}
	s := "<" + n.Kind
	if form%2 == 0 {
		for _, a := range at {
			s += " " + a
		}
	} else {
		for i := len(at) - 1; i >= 0; i-- {
			s += "\n" + at[i]
		}
	}
	in := ""
	switch n.Kind {
	case "image", "p", "gr":
		in = n.Text
	case "grid":
		r, p := "", ""
		for _, k := range n.Kids {
			if k.Kind == "gr" {
				r += k.XML(form)
			} else {
				p += k.XML(form)
			}
		}
		in = "<rows>" + r + "</rows>\n<parts>" + p + "</parts>"
	default:
		for _, k := range n.Kids {
			if (n.Kind == "table" || n.Kind == "tr") && form > 1 {
				in += "\n  "
			}
			in += k.XML(form)
		}
	}
	if in == "" && form%2 == 0 {
		return s + "/>"
	}
	return s + ">" + in + "</" + n.Kind + ">"
}

// SameISS compares instructions with what they were made from.
func SameISS(iss []xdoc.Instruction, ns []*Node) {
	if len(iss) != len(ns) {
		sym.Assert(false, "one instruction per child")
		return
	}
	for i, n := range ns {
		same(iss[i], n)
	}
}

func sty(s *xdoc.Styled, n *Node) {
	if len(s.Classes) != len(n.Classes) {
		sym.Assert(false, "classes are kept")
		return
	}
	for i, c := range n.Classes {
		sym.Assert(sym.EqS(s.Classes[i], c), "classes are kept in order")
	}
	a, b := DefaultLike(), DefaultLike()
	if n.Set != nil {
		n.Set(&b)
	}
	m := s.MutatedStyles(style.Classes{}, a)
	sym.Assert(EqStyles(m, b), "the inline style is kept")
}

func kind(ok bool) bool {
	sym.Assert(ok, "children keep their kind and order")
	return ok
}

func same(i xdoc.Instruction, n *Node) {
	switch n.Kind {
	case "#":
		if x, ok := i.(*xdoc.TextBlock); kind(ok) {
			sym.Assert(sym.EqS(x.Text, n.Text), "text is kept")
		}
	case "lf":
		if x, ok := i.(*xdoc.LineFeed); kind(ok) {
			sym.Assert(sym.Near(x.Lines, n.F), "line counts are kept")
		}
	case "setx":
		if x, ok := i.(*xdoc.SetX); kind(ok) {
			sym.Assert(sym.Near(x.X, n.F), "coordinates are kept")
		}
	case "sety":
		if x, ok := i.(*xdoc.SetY); kind(ok) {
			sym.Assert(sym.Near(x.Y, n.F), "coordinates are kept")
		}
	case "font":
		if x, ok := i.(*xdoc.Font); kind(ok) {
			sty(&x.Styled, n)
		}
	case "image":
		if x, ok := i.(*xdoc.Image); kind(ok) {
			sym.Assert(sym.EqS(x.Source, n.Text), "image sources are kept")
			sty(&x.Styled, n)
		}
	case "p":
		if x, ok := i.(*xdoc.Paragraph); kind(ok) {
			sym.Assert(sym.EqS(x.Text, n.Text), "paragraph texts are kept")
			sty(&x.Styled, n)
		}
	case "br":
		_, ok := i.(*xdoc.LineBreak)
		kind(ok)
	case "newpage":
		_, ok := i.(*xdoc.PageBreak)
		kind(ok)
	case "text":
		if x, ok := i.(*xdoc.Text); kind(ok) {
			sty(&x.Styled, n)
			SameISS(x.ISS, n.Kids)
		}
	case "box":
		if x, ok := i.(*xdoc.Box); kind(ok) {
			sty(&x.Styled, n)
			SameISS(x.ISS, n.Kids)
		}
	case "table":
		if x, ok := i.(*xdoc.Table); kind(ok) {
			sty(&x.Styled, n)
			sym.Assert(x.RepeatHeader == n.Repeat, "header repetition is kept")
			if len(x.Rows) != len(n.Kids) {
				sym.Assert(false, "all rows are kept")
				return
			}
			for r, row := range x.Rows {
				sty(&row.Styled, n.Kids[r])
				if len(row.Cells) != len(n.Kids[r].Kids) {
					sym.Assert(false, "all cells are kept")
					return
				}
				for c, cell := range row.Cells {
					k := n.Kids[r].Kids[c]
					sty(&cell.Styled, k)
					if k.HasSpan {
						sym.Assert(sym.And(cell.ColSpan == k.CS, cell.RowSpan == k.RS), "spans are kept")
					}
					SameISS(cell.ISS, k.Kids)
				}
			}
		}
	}
}
