// Package c21 decides that loading keeps what a document holds.
//
// bounds: HLeaves: any two (thorough three) of 10 kinds of childless elements in header, footer, body, box, text or table cell, with symbolic numbers, texts, classes and styles; HNested: boxes, texts and tables holding each other, three deep; HTables: tables of up to two rows and two cells with symbolic spans and header repetition; HParts: header, footer, body, meta data and margins in any order, present or not; HForms: other spellings of numbers; HUnknown: elements in table cells that are no instructions; HText: texts of up to 4 symbolic characters with white space, entities and CDATA; two spellings of every element (self closing or not, attribute order, white space)
// outside: comments and processing instructions inside of text; grids (C30)
package c21

import (
	"github.com/mazzegi/xpdf/xdoc"
	. "github.com/mazzegi/xpdf/zzverif/common"
	"github.com/mazzegi/xpdf/zzverif/sym"
)

const chars = "ab1 ,;"

func xml(ns []*Node, form int) string {
	s := ""
	for _, n := range ns {
		s += n.XML(form)
	}
	return s
}

// merge joins neighbouring texts, which are one stretch.
func merge(ns []*Node) []*Node {
	var r []*Node
	for _, n := range ns {
		if n.Kind == "#" && len(r) > 0 && r[len(r)-1].Kind == "#" {
			r[len(r)-1] = &Node{Kind: "#", Text: r[len(r)-1].Text + n.Text}
			continue
		}
		r = append(r, n)
	}
	return r
}

func HLeaves() {
	t := &Tree{Chars: "ab1"}
	var ns []*Node
	for i := 0; i < 2+sym.Tier(); i++ {
		ns = append(ns, t.Leaf(sym.Choose("leaf", Leaves)))
	}
	form := sym.Choose("form", 2)
	in := xml(ns, form)
	ns = merge(ns)
	switch sym.Choose("in", 3) {
	case 0:
		SameISS(Load("<document><body>"+in+"</body></document>").Body.ISS, ns)
	case 1:
		d := Load("<document><header><box>" + in + "</box></header><footer><text>" + in + "</text></footer></document>")
		SameISS(d.Header.ISS, []*Node{{Kind: "box", Kids: ns}})
		SameISS(d.Footer.ISS, []*Node{{Kind: "text", Kids: ns}})
		sym.Assert(len(d.Body.ISS) == 0, "nothing is added")
	case 2:
		d := Load("<document><body><table><tr><td>" + in + "</td></tr></table></body></document>")
		SameISS(d.Body.ISS, []*Node{{Kind: "table", Kids: []*Node{{Kind: "tr", Kids: []*Node{{Kind: "td", Kids: ns}}}}}})
	}
}

var holders = []string{"box", "text", "td"}

func hold(t *Tree, k int, ns []*Node) *Node {
	if k < 2 {
		return t.Styled(&Node{Kind: holders[k], Kids: ns})
	}
	return &Node{Kind: "table", Kids: []*Node{{Kind: "tr", Kids: []*Node{t.Styled(&Node{Kind: "td", Kids: ns}), {Kind: "td"}}}}}
}

func HNested() {
	t := &Tree{}
	in := []*Node{t.Leaf(0), hold(t, sym.Choose("hold", 3), []*Node{{Kind: "br"}, {Kind: "#", Text: "q"}, {Kind: "box"}}), {Kind: "#", Text: "z"}}
	mid := []*Node{hold(t, sym.Choose("hold", 3), in), {Kind: "#", Text: "m"}, {Kind: "setx", F: sym.Float("x", -9, 9, 3)}}
	ns := []*Node{{Kind: "p", Text: "first"}, hold(t, sym.Choose("hold", 3), mid), {Kind: "newpage"}}
	SameISS(Load("<document><body>"+xml(ns, sym.Choose("form", 4))+"</body></document>").Body.ISS, ns)
}

func HTables() {
	t := &Tree{}
	tab := t.Styled(&Node{Kind: "table", Repeat: sym.Int("repeat", 0, 10)})
	spans, text := sym.Bool("spans"), sym.Bool("text")
	flip := func(b *bool) bool {
		*b = !*b
		return *b
	}
	for r := sym.Choose("rows", 3); r > 0; r-- {
		row := &Node{Kind: "tr"}
		t.Styled(row)
		for c := sym.Choose("cells", 3); c > 0; c-- {
			cell := &Node{Kind: "td", HasSpan: flip(&spans)}
			if cell.HasSpan {
				cell.CS, cell.RS = sym.Int("cs", -9, 99), sym.Int("rs", -9, 99)
			}
			if flip(&text) {
				cell.Kids = []*Node{{Kind: "#", Text: "t"}}
			}
			row.Kids = append(row.Kids, cell)
		}
		tab.Kids = append(tab.Kids, row)
	}
	ns := []*Node{tab, {Kind: "br"}}
	SameISS(Load("<document><body>"+xml(ns, sym.Choose("form", 4))+"</body></document>").Body.ISS, ns)
}

// HParts: the parts of a document in any order.
func HParts() {
	head, foot, body := &Node{Kind: "setx", F: sym.Float("h", -9, 9, 3)}, &Node{Kind: "setx", F: sym.Float("f", -9, 9, 3)}, &Node{Kind: "setx", F: sym.Float("b", -9, 9, 3)}
	m := [4]float64{sym.Float("left", 0, 99, 3), sym.Float("top", 0, 99, 3), sym.Float("right", 0, 99, 3), sym.Float("bottom", 0, 99, 3)}
	names := [4]string{"left", "top", "right", "bottom"}
	or, fm := sym.Str("orient", 2, "abL"), sym.Str("format", 2, "a45")
	au, cr, su := sym.Str("author", 2, "ab c"), sym.Str("creator", 2, "ab c"), sym.Str("subject", 2, "ab c")
	mar := ""
	first := sym.Choose("margin", 4)
	for i := 0; i < 4; i++ {
		k := (i + first) % 4
		mar += "<" + names[k] + ">" + sym.FloatText(m[k]) + "</" + names[k] + ">"
	}
	parts := []string{
		"<meta><subject>" + su + "</subject><author>" + au + "</author><creator>" + cr + "</creator></meta>",
		"<page><format>" + fm + "</format><orientation>" + or + "</orientation><margins>" + mar + "</margins></page>",
		"<style>k{width:" + sym.FloatText(m[0]) + "}</style>",
		"<header>" + head.XML(0) + "</header>",
		"<footer>" + foot.XML(0) + "</footer>",
		"<body>" + body.XML(0) + "</body>",
	}
	s := "<document>"
	skip := sym.Choose("skip", 7)
	at, dir := sym.Choose("first", 6), 1+4*sym.Choose("back", 2)
	for i := 0; i < 6; i++ {
		if k := (at + i*dir) % 6; k != skip {
			s += parts[k] + "\n"
		}
	}
	d := Load(s + "</document>")
	iss := func(k int, is xdoc.Instructions, n *Node) {
		if k == skip {
			sym.Assert(len(is.ISS) == 0, "nothing is added")
			return
		}
		SameISS(is.ISS, []*Node{n})
	}
	iss(3, d.Header, head)
	iss(4, d.Footer, foot)
	iss(5, d.Body, body)
	if skip != 0 {
		sym.Assert(sym.And(sym.EqS(d.Meta.Author, au), sym.EqS(d.Meta.Creator, cr), sym.EqS(d.Meta.Subject, su)), "meta data is kept")
	}
	if skip != 1 {
		g := d.Page.Margins
		sym.Assert(sym.And(sym.Near(g.Left, m[0]), sym.Near(g.Top, m[1]), sym.Near(g.Right, m[2]), sym.Near(g.Bottom, m[3])), "margins are kept")
		sym.Assert(sym.And(sym.EqS(string(d.Page.Orientation), or), sym.EqS(string(d.Page.Format), fm)), "orientation and format are kept")
	}
	if skip != 2 {
		sty := DefaultLike()
		d.StyleClasses().Mutate(&sty, "k")
		sym.Assert(sym.Near(sty.Width, m[0]), "the style sheet is kept")
	}
}

// HText: character data with entities, CDATA and white space.
func HText() {
	txt := ""
	raw := ""
	for i := 1 + sym.Choose("n", 2+sym.Tier()); i > 0; i-- {
		switch sym.Choose("piece", 4) {
		case 0:
			s := sym.Str("t", 2, "a \n\t")
			txt += s
			raw += s
		case 1:
			k := sym.Choose("entity", 5)
			txt += []string{"&", "<", "A", "é", "\""}[k]
			raw += []string{"&amp;", "&lt;", "&#65;", "&#xe9;", "&quot;"}[k]
		case 2:
			txt += "äß€"
			raw += "äß€"
		case 3:
			txt += ">b"
			raw += ">b"
		}
	}
	ns := []*Node{{Kind: "br"}, {Kind: "#", Text: txt}, {Kind: "br"}}
	switch sym.Choose("in", 3) {
	case 0:
		SameISS(Load("<document><body><br/>"+raw+"<br/></body></document>").Body.ISS, ns)
	case 1:
		SameISS(Load("<document><body><text><p>"+raw+"</p></text></body></document>").Body.ISS, []*Node{{Kind: "text", Kids: []*Node{{Kind: "p", Text: txt}}}})
	case 2:
		SameISS(Load("<document><body><table>\n<tr>\n<td><br/>"+raw+"<br/></td> </tr></table></body></document>").Body.ISS, []*Node{{Kind: "table", Kids: []*Node{{Kind: "tr", Kids: []*Node{{Kind: "td", Kids: ns}}}}}})
	}
}

// HForms: other spellings of numbers.
func HForms() {
	ints := []struct {
		s string
		n int
	}{{"012", 12}, {"+4", 4}, {"08", 8}, {"-0", 0}, {"-3", -3}}
	a, b := ints[sym.Choose("a", len(ints))], ints[sym.Choose("b", len(ints))]
	flts := []struct {
		s string
		f float64
	}{{"1e1", 10}, {"+.5", .5}, {"012", 12}, {" 3\n", 3}, {"-2.50", -2.5}}
	f, g := flts[sym.Choose("f", len(flts))], flts[sym.Choose("g", len(flts))]
	d := Load(`<document><page><margins><top>` + g.s + `</top></margins></page><body><setx x="` + f.s + `"/><lf lines='` + f.s + `'/><table><tr><td rowspan="` + a.s + `" colspan="` + b.s + `"/></tr></table></body></document>`)
	sym.Assert(sym.Near(d.Page.Margins.Top, g.f), "margins are kept")
	SameISS(d.Body.ISS, []*Node{{Kind: "setx", F: f.f}, {Kind: "lf", F: f.f}, {Kind: "table", Kids: []*Node{{Kind: "tr", Kids: []*Node{{Kind: "td", HasSpan: true, CS: b.n, RS: a.n}}}}}})
}

// HUnknown: what elements that are no instructions hold in a cell stays there.
func HUnknown() {
	t := &Tree{Chars: "ab "}
	in := []*Node{{Kind: "#", Text: sym.Str("t", 1+sym.Choose("n", 2), "a \n")}}
	raw := xml(in, 0)
	for i := 0; i < 2; i++ {
		k := sym.Choose("child", 4)
		if k == 3 {
			continue
		}
		name := "b" + sym.Str("name", 1, "xyz")
		n := t.Leaf([]int{0, 1, 4}[k])
		raw += "<" + name + ">"
		if i == 1 && sym.Bool("nested") {
			raw += "<i class='x'>" + n.XML(0) + "</i>"
		} else {
			raw += n.XML(0)
		}
		in = append(in, n, &Node{Kind: "#", Text: "q"})
		raw += "</" + name + ">q"
	}
	var want []*Node
	for _, n := range in {
		// text on either side of a tag are two stretches
		want = append(want, n)
	}
	SameISS(Load("<document><body><table><tr><td>"+raw+"</td><td/></tr></table></body></document>").Body.ISS,
		[]*Node{{Kind: "table", Kids: []*Node{{Kind: "tr", Kids: []*Node{{Kind: "td", Kids: want}, {Kind: "td"}}}}}})
}
