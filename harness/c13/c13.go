// Package c13 decides the cascade of styles.
//
// bounds: HCascade: two classes and an inline style, each setting any non-empty subset of three properties with symbolic values, class lists of 0..2 names out of the two and an unknown one in any order (repetitions included), all symbolic inherited numbers; HSelector: two classes with or without a rule for any of the four selectors, used with any selector or none; HInline: several style attributes
// bounds: HTable: tables of 1..3 (thorough 4) rows with 1..3 cells, the second row may have one less or one more, class rules with all, some or no selectors used by rows, cells or both, two classes per row, with inline styles; the text and background colours cells are drawn with, rule values symbolic
// outside: more than two classes per element (HThree: three, setting one property)
package c13

import (
	"encoding/xml"
	"strings"

	"github.com/mazzegi/xpdf/style"
	"github.com/mazzegi/xpdf/xdoc"
	. "github.com/mazzegi/xpdf/zzverif/common"
	"github.com/mazzegi/xpdf/zzverif/sym"
)

// KeyNo of the properties used here.
func keyNo(name string) int {
	for i, k := range Keys {
		if k == name {
			return i
		}
	}
	panic(name)
}

var props = []string{"width", "text-color", "h-align"}

type rule struct {
	text  string
	apply func(s *style.Styles)
}

func newRule(tag string, mask int) rule {
	r := rule{apply: func(s *style.Styles) {}}
	for i, p := range props {
		if mask>>uint(i)&1 == 0 {
			continue
		}
		v, a := Decl(keyNo(p), tag)
		r.text += p + ":" + v + ";"
		prev := r.apply
		r.apply = func(s *style.Styles) { prev(s); a(s) }
	}
	return r
}

func attr(name, val string) xml.Attr { return xml.Attr{Name: xml.Name{Local: name}, Value: val} }

func styled(attrs ...xml.Attr) (*xdoc.Styled, bool) {
	st := &xdoc.Styled{}
	err := st.DecodeAttrs(attrs)
	sym.Assert(err == nil, "attributes decode")
	return st, err == nil
}

func sheet(txt string) (style.Classes, bool) {
	cs, err := style.DecodeClasses(strings.NewReader(txt))
	sym.Assert(err == nil, "sheet decodes")
	return cs, err == nil
}

func HCascade() {
	Simple = true
	mask := func(name string) int {
		if sym.Tier() == 0 {
			return []int{1, 3, 6, 5}[sym.Choose(name, 4)]
		}
		return 1 + sym.Choose(name, 7)
	}
	ra := newRule("a", mask("maska"))
	rb := newRule("b", mask("maskb"))
	n := sym.Choose("inline", 2)
	ri := rule{apply: func(*style.Styles) {}}
	if n == 1 {
		ri = newRule("i", mask("maski"))
	}
	cs, ok := sheet("a{" + ra.text + "}\nb{" + rb.text + "}")
	if !ok {
		return
	}
	base := AnyStyle("base")
	want := base
	var names []string
	for k := sym.Choose("classes", 3); k > 0; k-- {
		switch sym.Choose("class", 3) {
		case 0:
			names = append(names, "a")
			ra.apply(&want)
		case 1:
			names = append(names, "b")
			rb.apply(&want)
		default:
			names = append(names, "unknown")
		}
	}
	ri.apply(&want)
	var attrs []xml.Attr
	if sym.Bool("styleFirst") {
		attrs = append(attrs, attr("style", ri.text), attr("class", "\t"+strings.Join(names, "\t")+"\r\n"))
	} else {
		attrs = append(attrs, attr("class", strings.Join(names, "  ")), attr("style", ri.text))
	}
	st, ok := styled(attrs...)
	if !ok {
		return
	}
	inherited := base
	got := st.MutatedStyles(cs, inherited)
	sym.ObserveF("w", got.Width)
	sym.Assert(EqStyles(got, want), "inherited, classes in order, inline")
	sym.Assert(EqStyles(inherited, base), "the inherited style is not altered")
	// another element of class a afterwards, and the same again
	other, ok := styled(attr("class", "a"))
	if !ok {
		return
	}
	w2 := base
	ra.apply(&w2)
	sym.Assert(EqStyles(other.MutatedStyles(cs, inherited), w2), "no trace in another element")
	sym.Assert(EqStyles(st.MutatedStyles(cs, inherited), want), "computing it again gives the same")
}

var selectors = []string{"first-row", "last-row", "first-cell", "last-cell"}

func HSelector() {
	Simple = true
	cases := 2
	if sym.Tier() > 0 {
		cases = 4
	}
	mask := func(name string) int { return []int{3, 5, 6, 1}[sym.Choose(name, cases)] }
	ra := newRule("a", mask("maska"))
	rb := newRule("b", mask("maskb"))
	txt := "a{" + ra.text + "} b{" + rb.text + "}"
	sa, sb := -1, -1
	var rsa, rsb rule
	if k := sym.Choose("sela", 5); k < 4 {
		sa = k
		rsa = newRule("sa", mask("masksa"))
		txt += "a:" + selectors[k] + "{" + rsa.text + "}"
	}
	if k := sym.Choose("selb", 3); k < 2 {
		sb = k * 3
		rsb = newRule("sb", 2)
		txt += " b:" + selectors[k*3] + " {" + rsb.text + "}"
	}
	cs, ok := sheet(txt)
	if !ok {
		return
	}
	st, ok := styled(attr("class", "b x a"), attr("style", "height:7"))
	if !ok {
		return
	}
	base := DefaultLike()
	use := sym.Choose("use", 5)
	want := base
	if use < 4 && use == sb {
		rsb.apply(&want)
	} else {
		rb.apply(&want)
	}
	if use < 4 && use == sa {
		rsa.apply(&want)
		sym.Reach("selector rule")
	} else {
		ra.apply(&want)
	}
	want.Height = 7
	var got style.Styles
	if use < 4 {
		got = st.MutatedStylesWithSelector(selectors[use], cs, base)
	} else {
		got = st.MutatedStyles(cs, base)
	}
	sym.Assert(EqStyles(got, want), "a selector rule replaces the class rule where the class defines it")
	plain := base
	rb.apply(&plain)
	ra.apply(&plain)
	plain.Height = 7
	sym.Assert(EqStyles(st.MutatedStyles(cs, base), plain), "and nowhere else")
}

// HThree: three classes fighting for one property, and two style attributes.
func HThree() {
	Simple = true
	var rs [5]rule
	for i := range rs {
		rs[i] = newRule("r", 1)
	}
	cs, ok := sheet("a{" + rs[0].text + "}b{" + rs[1].text + "}c{" + rs[2].text + "}")
	if !ok {
		return
	}
	var names []string
	base := DefaultLike()
	want := base
	for i := 0; i < 3; i++ {
		k := sym.Choose("class", 3)
		names = append(names, "abc"[k:k+1])
		rs[k].apply(&want)
	}
	attrs := []xml.Attr{attr("class", strings.Join(names, "\n ")), attr("id", "x")}
	for i := 0; i < 2; i++ {
		if sym.Bool("style") {
			attrs = append(attrs, attr("style", rs[3+i].text))
			rs[3+i].apply(&want)
		}
	}
	st, ok := styled(attrs...)
	if !ok {
		return
	}
	sym.Assert(EqStyles(st.MutatedStyles(cs, base), want), "the last class and then the last inline style win")
}

// HTable: the styles rows and cells are drawn with.
func HTable() {
	type val struct{ text, back style.RGB }
	sheet := ""
	n := 0
	col := func() (string, style.RGB) {
		n++
		d := sym.Int("colour", 0, 9)
		t := string([]byte{'0' + byte(n/10), '0' + byte(n%10), '0', '0' + byte(d), '0', '7'})
		return "#" + t, style.RGB{R: n/10*16 + n%10, G: d, B: 7}
	}
	// rule makes a declaration block setting the text colour and, maybe, the background
	rule := func(back bool) (string, func(*val)) {
		t, tc := col()
		s := "text-color:" + t
		if !back {
			return s, func(v *val) { v.text = tc }
		}
		b, bc := col()
		return s + ";background-color:" + b, func(v *val) { v.text, v.back = tc, bc }
	}
	kinds := []string{"", ":first-row", ":last-row", ":first-cell", ":last-cell"}
	class := func(name string, with int) map[string]func(*val) {
		m := map[string]func(*val){}
		for i, k := range kinds {
			if i > 0 && with&(1<<uint(i)) == 0 {
				continue
			}
			s, f := rule(i != 2)
			sheet += name + k + "{" + s + "}\n"
			m[k] = f
		}
		return m
	}
	r := class("r", []int{6, 30, 2, 4, 0}[sym.Choose("rowRules", 3+2*sym.Tier())])
	c := class("c", []int{24, 30, 8, 16, 0}[sym.Choose("cellRules", 3+2*sym.Tier())])
	ts, tf := rule(true)
	is, inf := rule(false)
	rows := 1 + sym.Choose("rows", 3+sym.Tier())
	cells := 1 + sym.Choose("cells", 3)
	shape := sym.Choose("shape", 3) // all rows alike, shorter or longer second row
	if rows < 2 && shape > 0 {
		return
	}
	rowCls := sym.Choose("rowClass", 4)
	inlineRow := sym.Choose("inlineRow", rows+1)
	cellCls := sym.Choose("cellClass", 3)
	all := cells
	xml := `<table style="line-width:0;` + ts + `">`
	var wants [][]val // acceptable ones
	over := func(vs []val, m map[string]func(*val), first, last bool, f, l string) []val {
		var out []val
		add := func(k string) {
			for _, v := range vs {
				if g := m[k]; g != nil {
					g(&v)
				} else if g := m[""]; g != nil {
					g(&v)
				}
				out = append(out, v)
			}
		}
		if first {
			add(f)
		}
		if last {
			add(l)
		}
		if !first && !last {
			add("")
		}
		return out
	}
	var base val
	tf(&base)
	for i := 0; i < rows; i++ {
		rv := []val{base}
		xml += "<tr"
		if rowCls > 0 {
			xml += ` class="` + []string{"r", "c", "r\tc"}[rowCls-1] + `"`
			if rowCls != 2 {
				rv = over(rv, r, i == 0, i == rows-1, ":first-row", ":last-row")
			}
			if rowCls != 1 {
				rv = over(rv, c, i == 0, i == rows-1, ":first-row", ":last-row")
			}
		}
		if i == inlineRow {
			xml += ` style="` + is + `"`
			for k := range rv {
				inf(&rv[k])
			}
		}
		xml += ">"
		cells := all
		if i == 1 && shape > 0 {
			cells += 2*shape - 3
		}
		for k := 0; k < cells; k++ {
			cv := rv
			xml += "<td"
			if cellCls == 1 || cellCls == 2 && k != 1 {
				xml += ` class="c"`
				cv = over(cv, c, k == 0, k == cells-1, ":first-cell", ":last-cell")
			}
			xml += ">" + words[i*4+k:i*4+k+1] + "</td>"
			wants = append(wants, cv)
		}
		xml += "</tr>"
	}
	xml += "</table><text>z</text>"
	e := NewEng(300, 4000, 10, 20, 30, 40)
	Run(e, nil, Doc(sheet, xml))
	rects, texts := e.Of(EvRect, Body), e.Of(EvText, Body)
	sym.Assert(len(rects) == len(wants), "every cell is drawn")
	sym.Assert(len(texts) == len(wants)+1, "every text is written")
	if len(rects) != len(wants) || len(texts) != len(wants)+1 {
		return
	}
	for i, w := range wants {
		ok := false
		for _, v := range w {
			ok = sym.Or(ok, sym.And(EqRGB(rects[i].Color, v.back), EqRGB(texts[i].Color, v.text)))
		}
		sym.Assert(ok, "rows and cells have the selector rules of their place")
	}
	sym.Assert(EqRGB(texts[len(wants)].Color, style.RGB{}), "and leave no trace")
	sym.Reach("table")
}

const words = "abcdefghijklmnopqrstuvwxyzABC"
