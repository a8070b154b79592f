// Package c29 decides the substitution of page numbers.
//
// bounds: HText: texts of up to 5 (thorough 6) symbolic characters out of "{}cpn1" anywhere in a text, paragraph, justified text, box or table cell on a page of any number up to 1200; HForms: pairs out of 17 texts looking like {cp}, on lines of their own or inside of words; HPages: page numbers in header, footer, boxes, texts and tables with repeated headers of a document with up to four pages and symbolic heights
// outside: {cp} split over a text and a paragraph; text that moves to the next page while it is written keeps the number of the page it was started on
package c29

import (
	"strings"

	. "github.com/mazzegi/xpdf/zzverif/common"
	"github.com/mazzegi/xpdf/zzverif/sym"
)

func num(name string, lo, hi float64) float64 { return sym.Float(name, lo, hi, 3) }

// subst is the rule, written down naively.
func subst(s string, page int) string {
	r := ""
	for i := 0; i < len(s); {
		if strings.HasPrefix(s[i:], "{cp}") {
			r += sym.IntText(page)
			i += 4
			continue
		}
		r += s[i : i+1]
		i++
	}
	return r
}

func wrap(kind int, s string) string {
	switch kind {
	case 0:
		return "<text>" + s + "</text>"
	case 1:
		return "<text><p>" + s + "</p></text>"
	case 2:
		return `<text style="h-align:block">` + s + "</text>"
	case 3:
		return "<box>" + s + "</box>"
	case 4:
		return `<box style="h-align:block"><p>` + s + "</p></box>"
	case 5:
		return "<table><tr><td>" + s + "</td></tr></table>"
	}
	return `<table><tr style="h-align:block"><td><p>` + s + "</p></td></tr></table>"
}

// HText: any text in any element.
func HText() {
	e := NewEng(300, 5000, 10, 20, 30, 40)
	s := sym.Str("text", 1+sym.Choose("len", 5+sym.Tier()), "{}cpn1")
	if sym.Bool("around") {
		s = "{cp" + s + "p}{cp}x{np}"
	}
	e.Page = []int{0, 8, 98, 1199}[sym.Choose("pages", 4)]
	Run(e, Hyphenator("z1z"), Doc("", wrap(sym.Choose("kind", 7), s)))
	got := ""
	for _, v := range e.Evs {
		if v.Kind == EvText {
			got += v.S
		}
	}
	sym.Assert(sym.EqS(got, subst(s, e.Page)), "every {cp} is replaced by the page number and nothing else is changed")
	alias(e, e.Page-1)
}

// HForms: texts that look alike.
func HForms() {
	e := NewEng(300, 5000, 10, 20, 30, 40)
	f := []string{"{CP}", "{Cp}", "{ cp }", "{{cp}}", "{cp", "cp}", "{np}", "{NP}", "{tp}", "{cpp}", "{c}{p}", "$cp", "%d", "{cp}{cp}", "{cp}%s{cp}", "&#123;cp&#125;", "&#123;CP&#125;"}
	a, b := f[sym.Choose("form", len(f))], f[sym.Choose("form", len(f))]
	// words and lines
	s := []string{"\n" + a + "\n" + b, a + " {cp} " + b, a + "\n\tx" + b + "\n"}[sym.Choose("glue", 3)]
	e.Page = []int{0, 41}[sym.Choose("pages", 2)]
	Run(e, Hyphenator("z1z"), Doc("", wrap(sym.Choose("kind", 7), s)))
	got := ""
	for _, v := range e.Evs {
		if v.Kind == EvText {
			got += v.S
		}
	}
	s = strings.ReplaceAll(strings.ReplaceAll(s, "&#123;", "{"), "&#125;", "}")
	s = strings.Join(strings.Fields(s), " ")
	// where blanks are written is not decided here
	got = strings.ReplaceAll(got, " ", "")
	sym.Assert(got == strings.ReplaceAll(subst(s, e.Page), " ", ""), "every {cp} is replaced by the page number and nothing else is changed")
}

func alias(e *Eng, before int) {
	sym.Assert(e.Alias == "{np}" && e.AliasPage == before, "the page count alias is announced before the first page")
}

// HPages: the page current when the element is rendered.
func HPages() {
	e := NewEng(300, 100, 10, 10, 10, 10)
	box := func() string { return `<box style="height:` + sym.FloatText(num("h", 1, 70)) + `">B{cp}</box>` }
	tab := `<table repeatheader="1"><tr style="height:8"><td>R{cp}</td></tr>`
	for i := 0; i < 2; i++ {
		tab += `<tr style="height:` + sym.FloatText(num("rh", 1, 60)) + `"><td>T{cp}</td></tr>`
	}
	tab += "</table>"
	body := "<text>X{cp}</text>" + box()
	if sym.Bool("newpage") {
		body += "<newpage/>"
	}
	body += `<text style="h-align:block">X{cp}/{np}</text>` + tab + box() + "<text>X<p>{cp}</p></text>"
	h := Hyphenator("z1z")
	Run(e, h, "<document><header><text>H{cp}</text><box>H{cp}</box></header><footer><table><tr><td>F{cp}/{np}</td></tr></table></footer><body>"+body+"</body></document>")
	n := 0
	for _, v := range e.Evs {
		if v.Kind != EvText {
			continue
		}
		n++
		p := sym.IntText(v.Page)
		switch v.S[0] {
		case 'H':
			sym.Assert(v.Part == Header && v.S == "H"+p, "the header shows its page")
		case 'F':
			sym.Assert(v.Part == Footer && v.S == "F"+p+"/{np}", "the footer shows its page and leaves the page count")
		case 'B', 'R', 'T':
			sym.Assert(v.Part == Body && v.S[1:] == p, "boxes and table rows show the page they are drawn on")
		case 'X':
			sym.Assert(v.S == "X" || v.S[1:] == p || v.S[1:] == p+"/{np}", "texts show the page they are written on")
		default:
			sym.Assert(v.S == " "+p || v.S == p, "paragraphs show the page they are written on")
		}
	}
	sym.Assert(n >= 3*e.Page+8, "all of them are written")
	alias(e, 0)
	if e.Page > 2 {
		sym.Reach("three pages")
	}
}
