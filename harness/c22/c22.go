// Package c22 decides that invalid documents are rejected.
//
// bounds: HUnknown: an element of any name of up to 3 (thorough 4) symbolic letters that is no instruction, in 14 places; HNumber: any text of up to 3 symbolic characters that is no number, NaN and infinite numbers as every numeric attribute and margin; HRepeat: every repeatheader from -12 to 112; HStyle: invalid values of 11 style properties on every kind of element, with or without another style or class attribute; HSheet: invalid style sheets; HTruncated: a document with all kinds of elements ended after each of its bytes; HTags: wrongly closed elements
// outside: invalid elements in tables outside of cells (ignored); other kinds of malformed XML (left to encoding/xml)
package c22

import (
	"strconv"
	"strings"

	"github.com/mazzegi/xpdf/xdoc"
	"github.com/mazzegi/xpdf/zzverif/sym"
)

// rejects asserts that a document does not load.
func rejects(txt, why string) {
	d, err := xdoc.Load(strings.NewReader(txt))
	sym.Assert(err != nil, why)
	sym.Assert(d == nil, "a document that is rejected is not returned")
}

func accepts(txt, why string) {
	d, err := xdoc.Load(strings.NewReader(txt))
	sym.Assert(err == nil && d != nil, why)
}

// places where instructions stand.
var places = [][2]string{
	{"<document><body>", "</body></document>"},
	{"<document><header>", "</header><body/></document>"},
	{"<document><footer>", "</footer></document>"},
	{"<document><body><box>", "</box></body></document>"},
	{"<document><body><text>", "</text></body></document>"},
	{"<document><body><text>x</text><br/>x ", " <setx x='1'/></body></document>"},
	{"<document><header><text>x<br/>", "</text></header></document>"},
	{"<document><footer><box>x<p>q</p>", "x</box></footer></document>"},
	{"<document><body><box><text>", "</text></box></body></document>"},
	{"<document><body><text><box>x", "</box>y</text></body></document>"},
	{"<document><body><table><tr><td><box>", "</box></td></tr></table></body></document>"},
	{"<document><body><table><tr><td>x</td><td><text>", "</text>y</td></tr></table></body></document>"},
	{"<document><header><table><tr/><tr><td><text>", "</text></td></tr></table></header></document>"},
	{"<document><style>a{width:1}</style><body><newpage/>", "<newpage/></body></document>"},
}

var known = map[string]bool{"lf": true, "p": true, "br": true, "td": true, "tr": true, "gr": true, "box": true, "setx": true, "sety": true, "text": true, "font": true, "grid": true, "part": true}

func HUnknown() {
	n := 1 + sym.Choose("len", 3+sym.Tier())
	name := sym.Str("name", n, "abfglnoprtxX")
	for k := range known {
		if len(k) == n {
			sym.Assume(sym.Not(sym.EqS(k, name)))
		}
	}
	p := places[sym.Choose("place", len(places))]
	form := sym.Choose("form", 3)
	e := []string{"<" + name + "/>", "<" + name + ">x</" + name + ">", "<" + name + ` style="width:1"><br/></` + name + ">"}[form]
	rejects(p[0]+e+p[1], "an element that is no instruction is rejected")
}

// notNumber is a text that is no number of any kind, or no finite one.
func notNumber(n int) string {
	if n == 4 {
		return []string{"NaN", "nan", "Inf", "-inf", "+Infinity", "1e999"}[sym.Choose("odd", 6)]
	}
	s := sym.Str("value", n, "0x.-e,")
	_, err := strconv.ParseFloat(s, 64)
	sym.Assume(err != nil)
	return s
}

func HNumber() {
	v := notNumber(1 + sym.Choose("len", 4))
	a := `="` + v + `"`
	numeric := []string{
		"<setx x" + a + "/>", "<sety y" + a + "/>", "<lf lines" + a + "/>", "<table repeatheader" + a + "><tr><td>x</td></tr></table>",
		"<table><tr><td colspan" + a + ">x</td></tr></table>", `<table><tr><td>x</td></tr><tr><td colspan="2" rowspan` + a + ">x</td></tr></table>",
		"<text><lf lines" + a + "/></text>", "<table><tr><td><setx x" + a + "/></td></tr></table>", `<box style="width:1">x<table class="c" repeatheader` + a + "/></box>",
	}
	k := sym.Choose("at", len(numeric)+4)
	if k < len(numeric) {
		p := places[sym.Choose("place", 3)]
		rejects(p[0]+numeric[k]+p[1], "a number that is none is rejected")
		return
	}
	m := []string{"left", "top", "right", "bottom"}[k-len(numeric)]
	rejects("<document><page><margins><"+m+">"+v+"</"+m+"></margins></page><body/></document>", "a margin that is no number is rejected")
}

func HRepeat() {
	n := sym.Int("n", -12, 112)
	rows := []string{"", "<tr><td>x</td></tr>"}[sym.Choose("rows", 2)]
	p := places[5*sym.Choose("place", 2)]
	d, err := xdoc.Load(strings.NewReader(p[0] + `<table repeatheader="` + sym.IntText(n) + `">` + rows + "</table>" + p[1]))
	sym.Assert(sym.Iff(err == nil, sym.And(0 <= n, n <= 10)), "repeatheader is accepted exactly from 0 to 10")
	sym.Assert((d == nil) == (err != nil), "a document that is rejected is not returned")
}

// bad values by property.
var bad = []string{
	"width:abc", "height:1mm", "font-point-size:x", "border:1,2,3", "border:a,b,c,d", "padding:1,,2,3", "margin:1 2 3 4",
	"text-color:#12345", "color:1122", "background-color:#gg0000", "line-width:--1", "offset-x:1,2", "column-width:0x", "width", "font-family", "a:b:c", "line-spacing:1e", "padding:",
}

var styled = [][2]string{
	{"<text", ">x</text>"}, {"<box", "/>"}, {"<font", "/>"}, {"<image", ">x.png</image>"}, {"<text><p", ">x</p></text>"},
	{"<table", "/>"}, {"<table><tr", "/></table>"}, {"<table><tr><td", ">x</td></tr></table>"}, {"<table><tr><td>x</td><td>y<box", ">x</box></td></tr></table>"}, {"<box>x<p", "/></box>"},
	{"<grid", "><rows><gr>a</gr></rows></grid>"}, {"<grid><rows><gr", ">a</gr></rows></grid>"}, {`<grid><rows><gr>a</gr></rows><parts><part area="a"`, "/></parts></grid>"},
}

func HStyle() {
	v := bad[sym.Choose("value", len(bad))]
	s := styled[sym.Choose("element", len(styled))]
	good := []string{"", "height:1;", "text-color:#123456; "}[sym.Choose("before", 3)]
	p := places[sym.Choose("place", 3)]
	cls := []string{"", ` class="a b"`, ` style="width:2"`}[sym.Choose("attr", 3)]
	rejects(p[0]+s[0]+cls+` style="`+good+v+`"`+s[1]+p[1], "an invalid inline style is rejected")
}

func HSheet() {
	v := bad[sym.Choose("value", len(bad))]
	sheet := []string{"a{" + v + "}", "a{width:1}b{height:2;" + v + "}", "a{width:1}a:first-row{" + v + "} c{width:1}", "a{width:1", "{width:1}", "a{width:1} {}", "b:sel{width:1}", "a{width:1} b"}
	k := sym.Choose("sheet", len(sheet)-1)
	at := []string{"<document><style>" + sheet[k] + "</style><body>x</body></document>", "<document><body>x</body><style>\n" + sheet[k] + "\n</style></document>"}
	rejects(at[sym.Choose("at", 2)], "an invalid style sheet is rejected")
}

const full = `<document><meta><author>A</author></meta><page><margins><left>1</left></margins></page><style>a{width:1}</style><header><text class="a">h</text></header><footer/><body>t<text style="width:1">x<p>y</p><br/></text><box>b</box><lf lines="1"/><table repeatheader="1"><tr><td colspan="2">c<box>d</box></td></tr></table><image>i</image><grid><rows><gr>a b</gr></rows><parts><part area="a"><text>p</text></part></parts></grid>q</body></document>`

// HTruncated: the input ends too early.
func HTruncated() {
	accepts(full, "a valid document is accepted")
	n := sym.Choose("length", len(full))
	rejects(full[:n], "input ending early is rejected")
}

// HTags: elements closed wrongly.
func HTags() {
	var at []int
	for i := range full {
		if strings.HasPrefix(full[i:], "</") {
			at = append(at, i)
		}
	}
	i := at[sym.Choose("tag", len(at))]
	j := i + strings.IndexByte(full[i:], '>') + 1
	switch sym.Choose("how", 2) {
	case 0:
		rejects(full[:i]+full[j:], "an element that is not closed is rejected")
	case 1:
		rejects(full[:i]+"</w"+sym.Str("w", 1, "abx")+">"+full[j:], "an element closed by another name is rejected")
	}
}
