// Package c23 decides what the description of a document says.
//
// bounds: HPage: any meta data, orientation, format and margins (symbolic); HItems: any two (thorough three) of 10 kinds of childless elements in header, footer, body, box, text or cell, boxes and texts and tables nested, symbolic values; HTable: tables and grids; HDiffs: a style property and three others (thorough: any two) with symbolic values by class, inline style or both
// bounds: HText: texts of up to 6 letters, blanks and line breaks; HMany: boxes, texts and cells of seven elements
// outside: names of items and paths of differences beyond the property's name
package c23

import (
	"strings"

	"github.com/mazzegi/xpdf/style"
	"github.com/mazzegi/xpdf/xdoc"
	. "github.com/mazzegi/xpdf/zzverif/common"
	"github.com/mazzegi/xpdf/zzverif/sym"
)

func item(d *xdoc.Description, name string) []xdoc.DescribeItem {
	for _, i := range d.Items {
		if i.Name == name {
			return i.Items
		}
	}
	sym.Assert(false, "every part is described")
	return nil
}

func value(is []xdoc.DescribeItem, name string) interface{} {
	for _, i := range is {
		if i.Name == name {
			return i.Value
		}
	}
	sym.Assert(false, "every property of a part is described")
	return nil
}

func text(v interface{}) string {
	switch v := v.(type) {
	case string:
		return v
	case xdoc.Orientation:
		return string(v)
	case xdoc.PaperFormat:
		return string(v)
	}
	sym.Assert(false, "texts are described as such")
	return ""
}

func number(v interface{}) float64 {
	f, ok := v.(float64)
	sym.Assert(ok, "numbers are described as such")
	return f
}

func HPage() {
	n := func(s string) float64 { return sym.Float(s, 0, 99, 3) }
	m := [4]float64{n("left"), n("top"), n("right"), n("bottom")}
	var s [5]string
	for i, k := range []string{"author", "creator", "subject", "orientation", "format"} {
		s[i] = sym.Str(k, 2, "ab c")
	}
	d := xdoc.Describe(Load("<document><meta><author>" + s[0] + "</author><creator>" + s[1] + "</creator><subject>" + s[2] + "</subject></meta><page><orientation>" + s[3] + "</orientation><format>" + s[4] + "</format><margins><left>" +
		sym.FloatText(m[0]) + "</left><top>" + sym.FloatText(m[1]) + "</top><right>" + sym.FloatText(m[2]) + "</right><bottom>" + sym.FloatText(m[3]) + "</bottom></margins></page></document>"))
	for i, k := range []string{"author", "creator", "subject"} {
		sym.Assert(sym.EqS(text(value(item(d, "meta"), k)), s[i]), "meta data is described with its value")
	}
	pg := item(d, "page")
	for i, k := range []string{"orientation", "format"} {
		sym.Assert(sym.EqS(text(value(pg, k)), s[3+i]), "orientation and format are described with their value")
	}
	for _, i := range pg {
		if i.Name == "margins" {
			sym.Assert(len(i.Items) == 4, "four margins are described")
			for k, nm := range []string{"left", "top", "right", "bottom"} {
				sym.Assert(sym.Near(number(value(i.Items, nm)), m[k]), "margins are described with their value")
			}
			sym.Reach("margins")
		}
	}
}

// items compares items with the instructions they describe.
func items(is []xdoc.DescribeItem, ns []*Node) {
	if len(is) != len(ns) {
		sym.Assert(false, "one item per instruction")
		return
	}
	for i, n := range ns {
		d := is[i]
		switch n.Kind {
		case "#", "p":
			sym.Assert(d.Name == map[string]string{"#": "text-block", "p": "paragraph"}[n.Kind], "items are in order")
			sym.Assert(sym.EqS(text(d.Value), n.Text), "texts are described")
		case "image":
			sym.Assert(d.Name == "image" && sym.EqS(text(d.Value), n.Text), "image sources are described")
		case "lf", "setx", "sety":
			sym.Assert(d.Name == map[string]string{"lf": "line-feed", "setx": "setx", "sety": "sety"}[n.Kind], "items are in order")
			sym.Assert(sym.Near(number(d.Value), n.F), "numbers are described")
		case "font":
			sym.Assert(d.Name == "font", "items are in order")
		case "br":
			sym.Assert(d.Name == "line-break", "items are in order")
		case "newpage":
			sym.Assert(d.Name == "page-break", "items are in order")
		case "text", "box", "table":
			sym.Assert(d.Name == n.Kind, "items are in order")
			items(d.Items, n.Kids)
		case "tr":
			sym.Assert(d.Name == "table-row", "items are in order")
			items(d.Items, n.Kids)
		case "td":
			sym.Assert(strings.HasPrefix(d.Name, "table-cell"), "items are in order")
			if n.HasSpan {
				sym.Assert(strings.Contains(d.Name, "colspan="+sym.IntText(n.CS)+" ") && strings.HasSuffix(d.Name, "rowspan="+sym.IntText(n.RS)), "spans are described")
			}
			items(d.Items, n.Kids)
		case "grid":
			sym.Assert(d.Name == "grid", "items are in order")
			items(d.Items, n.Kids)
		case "gr":
			sym.Assert(d.Name == "grid-row" && text(d.Value) == n.Text, "grid rows are described")
		case "part":
			sym.Assert(d.Name == "grid-part" && text(d.Value) == n.Text, "grid parts are described")
			items(d.Items, n.Kids)
		}
		if n.Set != nil {
			sym.Assert(len(d.StyleDiffs) == 2, "style differences are described")
		} else {
			sym.Assert(len(d.StyleDiffs) == 0, "no other style differences are described")
		}
	}
}

func xml(ns []*Node) string {
	s := ""
	for _, n := range ns {
		s += n.XML(0)
	}
	return s
}

func HItems() {
	t := &Tree{Chars: "ab1"}
	var ns []*Node
	for i := 0; i < 2+sym.Tier(); i++ {
		n := t.Leaf(sym.Choose("leaf", Leaves))
		if n.Kind == "#" && i > 0 {
			ns = append(ns, &Node{Kind: "br"})
		}
		ns = append(ns, n)
	}
	in := xml(ns)
	hold := []*Node{{Kind: "setx", F: sym.Float("x", -9, 9, 3)}}
	all := [3][]*Node{hold, hold, hold}
	part := sym.Choose("part", 3)
	switch sym.Choose("in", 3) {
	case 0:
		all[part] = ns
	case 1:
		all[part] = []*Node{{Kind: "box", Kids: []*Node{{Kind: "text", Kids: ns}, {Kind: "br"}}}}
	case 2:
		all[part] = []*Node{{Kind: "table", Kids: []*Node{{Kind: "tr"}, {Kind: "tr", Kids: []*Node{{Kind: "td"}, {Kind: "td", HasSpan: true, CS: 3, RS: 12, Kids: ns}}}}}}
	}
	_ = in
	names := [3]string{"header", "footer", "body"}
	s := "<document>"
	for i, p := range all {
		s += "<" + names[i] + ">" + xml(p) + "</" + names[i] + ">"
	}
	d := xdoc.Describe(Load(s + "</document>"))
	for i, p := range all {
		items(item(d, names[i]), p)
	}
}

// HGrid: grids among other elements.
func HGrid() {
	t := &Tree{}
	rows := []*Node{{Kind: "gr", Text: "a b"}, {Kind: "gr", Text: "a c"}}
	g := t.Styled(&Node{Kind: "grid", Kids: rows})
	for _, a := range []string{"a", "b", "c"} {
		if sym.Bool("part") {
			g.Kids = append(g.Kids, t.Styled(&Node{Kind: "part", Text: a, Kids: []*Node{t.Leaf(sym.Choose("leaf", 4)), {Kind: "text", Kids: []*Node{{Kind: "br"}}}}[1:]}))
		}
	}
	ns := []*Node{{Kind: "br"}, g, {Kind: "newpage"}}
	items(item(xdoc.Describe(Load("<document><body>"+xml(ns)+"</body></document>")), "body"), ns)
}

// leaves are the single values of a style, by the name of their property.
func leaves(s style.Styles) (names []string, nums []float64, txts []string) {
	num := func(n string, f float64) {
		names, nums, txts = append(names, n), append(nums, f), append(txts, "")
	}
	txt := func(n string, t string) {
		names, nums, txts = append(names, n), append(nums, 0), append(txts, t)
	}
	txt("Family", s.Font.Family)
	num("PointSize", s.Font.PointSize)
	txt("Style", string(s.Font.Style))
	txt("Weight", string(s.Font.Weight))
	txt("Decoration", string(s.Font.Decoration))
	for _, b := range []struct {
		n string
		v [4]float64
	}{
		{"Border", [4]float64{float64(s.Border.Left), float64(s.Border.Top), float64(s.Border.Right), float64(s.Border.Bottom)}},
		{"Padding", [4]float64{s.Padding.Left, s.Padding.Top, s.Padding.Right, s.Padding.Bottom}},
		{"Margin", [4]float64{s.Margin.Left, s.Margin.Top, s.Margin.Right, s.Margin.Bottom}},
	} {
		for i, k := range []string{"Left", "Top", "Right", "Bottom"} {
			num(b.n+":"+k, b.v[i])
		}
	}
	num("Width", s.Width)
	num("Height", s.Height)
	num("LineSpacing", s.LineSpacing)
	num("OffsetX", s.OffsetX)
	num("OffsetY", s.OffsetY)
	num("ColumnWidth", s.ColumnWidth)
	txt("HAlign", string(s.HAlign))
	txt("VAlign", string(s.VAlign))
	for _, c := range []struct {
		n string
		v style.RGB
	}{{"Foreground", s.Foreground}, {"Text", s.Text}, {"Background", s.Background}} {
		num(c.n+":R", float64(c.v.R))
		num(c.n+":G", float64(c.v.G))
		num(c.n+":B", float64(c.v.B))
	}
	num("LineWidth", s.LineWidth)
	return
}

// HDiffs: the differences are the properties changed.
func HDiffs() {
	Simple, Minus = true, sym.Bool("minus")
	k1 := sym.Choose("key", len(Keys))
	k2 := (k1 + []int{0, 1, 7}[sym.Choose("other", 3)]) % len(Keys)
	if sym.Tier() > 0 {
		k2 = sym.Choose("key", len(Keys))
	}
	t1, f1 := Decl(k1, "a")
	t2, f2 := Decl(k2, "b")
	want := style.Styles{}
	f1(&want)
	f2(&want)
	inline := ""
	if sym.Bool("inline") {
		inline = ` style="` + Keys[k2] + ":" + t2 + `"`
	} else {
		inline = ` class="k l"`
	}
	if !strings.Contains(inline, "class") {
		inline += ` class="k"`
	}
	kind := (k1 + k2) % 3
	el := [][2]string{{"<text", ">x</text>"}, {"<font", "/>"}, {"<table", "/>"}}[kind]
	doc := Load("<document><style>k{" + Keys[k1] + ":" + t1 + "}l{" + Keys[k2] + ":" + t2 + "}</style><body>" + el[0] + inline + el[1] + "</body></document>")
	is := item(xdoc.Describe(doc), "body")
	if len(is) != 1 {
		sym.Assert(false, "one item per instruction")
		return
	}
	names, nums, txts := leaves(want)
	n := 0
	for i, nm := range names {
		changed := sym.Or(nums[i] != 0, txts[i] != "")
		var d *xdoc.Diff
		for j := range is[0].StyleDiffs {
			p := is[0].StyleDiffs[j].Path
			if strings.HasSuffix(p, ":"+nm) {
				d = &is[0].StyleDiffs[j]
			}
		}
		if d == nil {
			sym.Assert(sym.Not(changed), "every property changed is listed")
			continue
		}
		n++
		sym.Assert(changed, "only properties changed are listed")
		if txts[i] != "" {
			sym.Assert(sym.EqS(text(d.Mod), txts[i]) && text(d.Org) == "", "texts are listed with old and new value")
		} else {
			sym.Assert(sym.And(sym.Near(number(d.Mod), nums[i]), number(d.Org) == 0), "numbers are listed with old and new value")
		}
	}
	sym.Assert(n == len(is[0].StyleDiffs), "nothing else is listed")
}

// HText: texts are described with their words apart.
func HText() {
	s := sym.Str("text", 1+sym.Choose("len", 6), "ab \n")
	kind := sym.Choose("kind", 2)
	el := []string{s, "<p>" + s + "</p>"}[kind]
	is := item(xdoc.Describe(Load("<document><body><text>"+el+"</text></body></document>")), "body")
	if len(is) != 1 || len(is[0].Items) != 1 {
		sym.Assert(false, "one item per instruction")
		return
	}
	var words []byte
	blank := false
	for i := 0; i < len(s); i++ {
		if s[i] == ' ' || s[i] == '\n' {
			blank = true
			continue
		}
		if blank && len(words) > 0 {
			words = append(words, ' ')
		}
		blank = false
		words = append(words, s[i])
	}
	sym.Assert(sym.EqS(text(is[0].Items[0].Value), string(words)), "texts are described")
}

// HMany: more elements.
func HMany() {
	t := &Tree{Chars: "ab1"}
	var ns []*Node
	first := []int{0, 4, 7}[sym.Choose("first", 3)]
	for i := 0; i < 7; i++ {
		n := t.Leaf((first + i) % Leaves)
		if n.Kind == "#" && i > 0 {
			ns = append(ns, &Node{Kind: "br"})
		}
		ns = append(ns, n)
	}
	h := []string{"box", "text", "table"}[sym.Choose("in", 3)]
	p := []*Node{{Kind: h, Kids: ns}}
	if h == "table" {
		p[0].Kids = []*Node{{Kind: "tr", Kids: []*Node{{Kind: "td"}, {Kind: "td", Kids: ns}, {Kind: "td"}}}}
	}
	items(item(xdoc.Describe(Load("<document><body>"+xml(p)+"</body></document>")), "body"), p)
}
