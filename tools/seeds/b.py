STY='''package style_test

import (
	"bytes"
	"strings"
	"testing"

	"github.com/mazzegi/xpdf/style"
)
'''
HYP='''package hyphenation_test

import (
	"reflect"
	"strings"
	"testing"

	"github.com/mazzegi/xpdf/hyphenation"
)
'''
XD='''package xdoc_test

import (
	"encoding/json"
	"strings"
	"testing"

	"github.com/mazzegi/xpdf/xdoc"
)
'''
S['two-colons']=dict(property='C14',needs='a declaration with two colons',breaks='a declaration with more than one colon is accepted',pkg='style',head=STY,
 edits=[('style/decode.go','styleKV := strings.Split(styleStr, ":")','styleKV := strings.SplitN(styleStr, ":", 2)')],
 demo='''
func TestSeedDemo(t *testing.T) {
	if _, err := style.DecodeMutator(bytes.NewBufferString("font-family: a:b")); err == nil {
		t.Fatal("accepted")
	}
}
''')
S['color-sign']=dict(property='C15',needs='a colour with a sign followed by five digits',breaks='a colour with a sign is accepted',pkg='style',head=STY,
 edits=[('style/color.go','n, err := strconv.ParseUint(s, 16, 32)','n, err := strconv.ParseInt(s, 16, 32)')],
 demo='''
func TestSeedDemo(t *testing.T) {
	var c style.RGB
	for _, s := range []string{"-00001", "+12345", "#-1a2b3"} {
		if c.UnmarshalStyle(s) == nil {
			t.Fatal("accepted", s, c)
		}
	}
}
''')
S['class-twice']=dict(property='C16',needs='two rules of the same name, the first setting a property the second does not',breaks='a later rule of a name is added to the earlier one instead of replacing it',pkg='style',head=STY,
 edits=[('style/class.go','''			//no selector
''','''			//no selector
			if old, ok := cs[className]; ok {
				old.mutator.Append(mut)
				mut = old.mutator
			}
''')],
 demo='''
func TestSeedDemo(t *testing.T) {
	cs, err := style.DecodeClasses(strings.NewReader("a{width:5;height:6} b{} a{height:7}"))
	if err != nil {
		t.Fatal(err)
	}
	var s style.Styles
	cs.Mutate(&s, "a")
	if s.Dimension.Width != 0 || s.Dimension.Height != 7 {
		t.Fatal(s)
	}
}
''')
S['twin-passes']=dict(property='C17',needs='a run of more than eight blanks',breaks='long runs of blanks are not reduced to one: the removal stops after three passes',pkg='text',head='''package text_test

import (
	"strings"
	"testing"

	"github.com/mazzegi/xpdf/text"
)
''',
 edits=[('text/text.go','''	rs := s
	for {
		rs = strings.ReplaceAll(s, rem, twin)
''','''	rs := s
	for n := 0; ; n++ {
		rs = strings.ReplaceAll(s, rem, twin)
'''),('text/text.go','''		if rs == s {
			return rs
''','''		if rs == s || n == 2 {
			return rs
''')],
 demo='''
func TestSeedDemo(t *testing.T) {
	for n := 1; n < 20; n++ {
		if r := text.WhitespaceRectified("a" + strings.Repeat(" ", n) + "b"); r != "a b" {
			t.Fatalf("%d: %q", n, r)
		}
	}
}
''')
S['lower-cut']=dict(property='C18',needs='a word with upper case letters whose lower case has another length in UTF-8',breaks='characters are cut, as offsets are those of the lower case word',pkg='hyphenation',head=HYP,
 edits=[('hyphenation/hyphenation.go','''	rs := []rune("." + strings.ToLower(s) + ".")
''','''	lower := strings.ToLower(s)
	if len(lower) < len(s) {
		s = s[:len(lower)]
	}
	rs := []rune("." + lower + ".")
''')],
 demo='''
func TestSeedDemo(t *testing.T) {
	h, err := hyphenation.Load(strings.NewReader("a1b"))
	if err != nil {
		t.Fatal(err)
	}
	s := "aabb\\u212Aelvin"
	if r := strings.Join(h.Hyphenate(s), ""); r != s {
		t.Fatal(r)
	}
}
''')
S['whole-word']=dict(property='C19',needs='a pattern describing a whole word from dot to dot',breaks='patterns as long as the word with both its dots are not matched',pkg='hyphenation',head=HYP,
 edits=[('hyphenation/hyphenation.go','for subSize := 1; subSize <= len(rs); subSize++ {','for subSize := 1; subSize < len(rs); subSize++ {')],
 demo='''
func TestSeedDemo(t *testing.T) {
	h, err := hyphenation.Load(strings.NewReader("b1c\\n.ab2cd.\\nc1d\\n"))
	if err != nil {
		t.Fatal(err)
	}
	if r := h.Hyphenate("abcd"); len(r) != 1 {
		t.Fatal(r)
	}
	if r := h.Hyphenate("abcde"); !reflect.DeepEqual(r, []string{"ab", "c" + "de"}) && len(r) != 2 {
		t.Fatal(r)
	}
}
''')
S['pattern-error']=dict(property='C20',needs='a line that is no pattern, like one with a digit that is not ASCII',breaks='loading stops at a line that cannot be read, without an error',pkg='hyphenation',head=HYP,
 edits=[('hyphenation/pattern.go','''			return nil, errors.Wrap(err, "parse-pattern")
''','''			break
''')],
 demo='''
func TestSeedDemo(t *testing.T) {
	_, err := hyphenation.Load(strings.NewReader("a1b\\n\\u0664b\\nb1c\\n"))
	if err == nil {
		t.Fatal("no error")
	}
}
''')
S['cell-blank']=dict(property='C21',needs='white space between elements of a table cell',breaks='white space of table cells is not kept as text block',pkg='xdoc',head=XD,
 edits=[('xdoc/table.go','''			if v != "" {
''','''			if strings.TrimSpace(v) != "" {
'''),('xdoc/table.go','''	"strconv"

''','''	"strconv"
	"strings"

''')],
 demo='''
func TestSeedDemo(t *testing.T) {
	d, err := xdoc.Load(strings.NewReader("<document><body><table><tr><td><p>a</p> <p>b</p></td></tr></table></body></document>"))
	if err != nil {
		t.Fatal(err)
	}
	if n := len(d.Body.ISS[0].(*xdoc.Table).Rows[0].Cells[0].ISS); n != 3 {
		t.Fatal(n)
	}
}
''')
S['header-negative']=dict(property='C22',needs='a negative repeatheader',breaks='a negative number of header rows is accepted',pkg='xdoc',head=XD,
 edits=[('xdoc/table.go','} else if n < 0 || n > 10 {','} else if n > 10 {')],
 demo='''
func TestSeedDemo(t *testing.T) {
	_, err := xdoc.Load(strings.NewReader(`<document><body><table repeatheader="-1"><tr><td>a</td></tr></table></body></document>`))
	if err == nil {
		t.Fatal("accepted")
	}
}
''')
S['describe-part']=dict(property='C23',needs='a grid part holding elements',breaks='what a grid part holds is not described',pkg='xdoc',head=XD,
 edits=[('xdoc/describe.go','''	i.Items = append(i.Items, desc.describeInstructions(p.Instructions)...)
	return []DescribeItem{i}
''','''	if len(p.Instructions.Classes) > 0 {
		i.Items = append(i.Items, desc.describeInstructions(p.Instructions)...)
	}
	return []DescribeItem{i}
''')],
 demo='''
func TestSeedDemo(t *testing.T) {
	d, err := xdoc.Load(strings.NewReader(`<document><body><grid><gr>a</gr><part area="a"><text>hello</text></part></grid></body></document>`))
	if err != nil {
		t.Fatal(err)
	}
	b, _ := json.Marshal(xdoc.Describe(d))
	if !strings.Contains(string(b), "hello") {
		t.Fatal(string(b))
	}
}
''')
S['image-order']=dict(property='C24',needs='a picture wider than the area, with styled size',breaks='the height of a picture scaled down to the width of the area is not scaled',
 edits=[('image.go','''		height = height * paWidth / width
		width = paWidth
''','''		width = paWidth
		height = height * paWidth / width
''')],
 demo='''
func TestSeedDemo(t *testing.T) {
	f := t.TempDir() + "/i.gif"
	b := "GIF89a\\x10\\x00\\x08\\x00\\x80\\x00\\x00\\x00\\x00\\x00\\xff\\xff\\xff,\\x00\\x00\\x00\\x00\\x10\\x00\\x08\\x00\\x00\\x02\\x02D\\x01\\x00;"
	if err := os.WriteFile(f, []byte(b), 0o600); err != nil {
		t.Fatal(err)
	}
	d := process(t, page+`<body><image style="width:400">`+f+"</image></body>", "a1b")
	o := d.ops("image")
	if len(o) != 1 || !near(o[0].w, 2*o[0].h) {
		t.Fatal(d.log)
	}
}
''')
S['font-dir']=dict(property='C25',needs='a font definition naming a file in a directory below',breaks='the directory of a relative font file is dropped',pkg='font',head='''package font_test

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/mazzegi/xpdf/font"
)
''',
 edits=[('font/definition.go','return filepath.Join(absDir, file)','return filepath.Join(absDir, filepath.Base(file))')],
 demo='''
func TestSeedDemo(t *testing.T) {
	d := t.TempDir()
	f := filepath.Join(d, "fonts.toml")
	s := "[[Fonts]]\\nName = \\"a\\"\\n[[Fonts.StyleDefinitions]]\\nStyle = \\"bold\\"\\nFilePath = \\"sub/a.ttf\\"\\n"
	if err := os.WriteFile(f, []byte(s), 0o600); err != nil {
		t.Fatal(err)
	}
	r, err := font.LoadRegistryFromFile(f)
	if err != nil {
		t.Fatal(err)
	}
	n := 0
	r.Each(func(fd font.Descriptor) error {
		n++
		if fd.FilePath != filepath.Join(d, "sub", "a.ttf") {
			t.Fatal(fd)
		}
		return nil
	})
	if n != 1 {
		t.Fatal(n)
	}
}
''')
ENG='''package engine_test

import (
	"strings"
	"testing"

	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/font"
	"github.com/mazzegi/xpdf/style"
	"github.com/mazzegi/xpdf/xdoc"
)

func load(t *testing.T) *engine.FPDF {
	d, err := xdoc.Load(strings.NewReader("<document><page><format>a4</format><orientation>portrait</orientation><margins><left>20</left><top>10</top><right>15</right><bottom>25</bottom></margins></page></document>"))
	if err != nil {
		t.Fatal(err)
	}
	e, err := engine.NewFPDF(font.NewRegistry(), d)
	if err != nil {
		t.Fatal(err)
	}
	e.ChangeFont(style.Font{Family: "Arial", PointSize: 12})
	return e
}
'''
S['area-left']=dict(property='C26',needs='left and right margins that differ',breaks='the printable area ends by the left margin instead of the right one',pkg='engine',head=ENG,
 edits=[('engine/fpdf.go','return l, t, pw - r - 2, ph - b','return l, t, pw - l - 2*r/r, ph - b')],
 demo='''
func TestSeedDemo(t *testing.T) {
	e := load(t)
	e.AddPage()
	if _, _, x, _ := e.PrintableArea(); x < 192.9 || x > 193.1 {
		t.Fatal(x)
	}
}
''')
S['sety-x']=dict(property='C27',needs='setting y after x',breaks='setting y resets x to the left margin',pkg='engine',head=ENG,
 edits=[('engine/fpdf.go','e.pdf.SetXY(e.pdf.GetX(), y)','e.pdf.SetY(y)')],
 demo='''
func TestSeedDemo(t *testing.T) {
	e := load(t)
	e.AddPage()
	e.SetX(70)
	e.SetY(80)
	if x, y := e.GetXY(); x != 70 || y != 80 {
		t.Fatal(x, y)
	}
}
''')
S['error-early']=dict(property='C28',needs='an engine that fails while the body is drawn but could still write',breaks='a failure of the engine in the body is not reported and the PDF is written',
 edits=[('process.go','''	p.processInstructions(p.doc.Body)

	err := p.engine.Error()
	if err != nil {
		return err
	}
''','''	err := p.engine.Error()
	if err != nil {
		return err
	}
	p.processInstructions(p.doc.Body)

''')],
 demo='''
type failing struct {
	*rec
	err     error
	written bool
}

func (f *failing) WriteText(s string)       { f.err = errors.New("cannot write " + s) }
func (f *failing) Error() error             { return f.err }
func (f *failing) WritePDF(io.Writer) error { f.written = true; return nil }

func TestSeedDemo(t *testing.T) {
	d, err := xdoc.Load(strings.NewReader("<document>" + page + "<body><text>a</text></body></document>"))
	if err != nil {
		t.Fatal(err)
	}
	e, err := engine.NewFPDF(font.NewRegistry(), d)
	if err != nil {
		t.Fatal(err)
	}
	h, _ := hyphenation.Load(strings.NewReader("a1b"))
	f := &failing{rec: &rec{FPDF: e}}
	var b bytes.Buffer
	if xpdf.NewProcessor(f, h, d, ".").Process(&b) == nil || f.written {
		t.Fatal("failure not reported")
	}
}
''')
S['cp-once']=dict(property='C29',needs='text with two {cp}',breaks='only the first page number of a text is substituted',
 edits=[('process.go','return strings.ReplaceAll(s, "{cp}", fmt.Sprintf("%d", p.engine.CurrentPage()))','return strings.Replace(s, "{cp}", fmt.Sprintf("%d", p.engine.CurrentPage()), 1)')],
 demo='''
func TestSeedDemo(t *testing.T) {
	d := process(t, page+"<body><text>{cp}-{cp}</text></body>", "a1b")
	if o := d.ops("text"); len(o) != 1 || o[0].s != "1-1" {
		t.Fatal(d.log)
	}
}
''')
S['grid-longer']=dict(property='C30',needs='a grid whose later row names more areas than the first',breaks='a grid with a longer row is accepted',pkg='xdoc',head=XD,
 edits=[('xdoc/grid.go','if len(r.Areas) != ac {','if len(r.Areas) < ac {')],
 demo='''
func TestSeedDemo(t *testing.T) {
	_, err := xdoc.Load(strings.NewReader(`<document><body><grid><gr>a</gr><gr>a b</gr></grid></body></document>`))
	if err == nil {
		t.Fatal("accepted")
	}
}
''')
S['cell-padding']=dict(property='C31',needs='a cell whose left and right padding differ, with text that is not left aligned',breaks='text is aligned in a width that does not regard the right padding of the cell',
 edits=[('table.go','pa.Width()-cell.Padding.Left-cell.Padding.Right, cell.Styles)','pa.Width()-2*cell.Padding.Left, cell.Styles)')],
 demo='''
func TestSeedDemo(t *testing.T) {
	d := process(t, page+`<body><table style="line-width:0;width:100;h-align:right"><tr><td style="padding:2,0,20,0">abc</td></tr></table></body>`, "a1b")
	o := d.ops("text")
	if e := o[0].x + d.TextWidth("abc"); e > 100.1 {
		t.Fatal(e, d.log)
	}
}
''')
S['weight-end']=dict(property='C32',needs='a pattern with a weight after its final dot',breaks='dividing a word matching a pattern with a weight after its final dot panics',pkg='hyphenation',head=HYP,
 edits=[('hyphenation/hyphenation.go','ws := make([]int, len(rs)+1)','ws := make([]int, len(rs))'),('hyphenation/hyphenation.go','''			for iw, w := range pattern.Weights {
				if w > ws[i+iw] {''','''			for iw, w := range pattern.Weights {
				if w > 0 && w > ws[i+iw] {'''),('hyphenation/hyphenation.go','for i, w := range ws[2 : len(ws)-2] {','for i, w := range ws[2 : len(ws)-1] {')],
 demo='''
func TestSeedDemo(t *testing.T) {
	h, err := hyphenation.Load(strings.NewReader("b1c\\nd.1\\n"))
	if err != nil {
		t.Fatal(err)
	}
	if r := h.Hyphenate("abcd"); len(r) != 2 {
		t.Fatal(r)
	}
}
''')
S['under-bold']=dict(property='C33',needs='a bold and underlined font',breaks='bold text is not underlined in the PDF',pkg='engine',head=ENG.replace('import (','import (\n\t"bytes"'),
 edits=[('engine/fpdf.go','''	case style.FontDecorationUnderline:
		s += "U"
''','''	case style.FontDecorationUnderline:
		if s != "B" {
			s += "U"
		}
''')],
 demo='''
func pdf(t *testing.T, f style.Font) int {
	e := load(t)
	e.ChangeFont(f)
	e.AddPage()
	e.WriteText("abc")
	var b bytes.Buffer
	if err := e.WritePDF(&b); err != nil {
		t.Fatal(err)
	}
	return b.Len()
}

func TestSeedDemo(t *testing.T) {
	f := style.Font{Family: "Arial", PointSize: 12, Weight: style.FontWeightBold}
	n := pdf(t, f)
	f.Decoration = style.FontDecorationUnderline
	if m := pdf(t, f); m-n < 5 {
		t.Fatal("not underlined", n, m)
	}
}
''')
S['page-x']=dict(property='C34',needs='a table broken over pages with a header above the body',breaks='rows after a page break start at the height where the page before ended',
 edits=[('table.go','''			p.engine.AddPage()
			_, y = p.engine.GetXY()
			if i > 0 && xtab.RepeatHeader > 0 {
''','''			p.engine.AddPage()
			if i > 0 && xtab.RepeatHeader > 0 {
				_, y = p.engine.GetXY()
''')],
 demo='''
func TestSeedDemo(t *testing.T) {
	d := process(t, page+`<body><sety y="240"/><table style="line-width:0"><tr style="height:20"><td>h</td></tr><tr style="height:30"><td>a</td></tr></table></body>`, "a1b")
	o := d.ops("rect")
	if len(o) != 2 || o[1].page != 2 || !near(o[1].y, 10) {
		t.Fatal(d.log)
	}
}
''')
S['font-share']=dict(property='C35',needs='two styles of a font registered with the same file',breaks='the second style is not added, so that selecting it is an error and the document fails',
 edits=[('engine/fpdf.go','''	return fonts.Each(func(fd font.Descriptor) error {
''','''	seen := map[string]bool{}
	return fonts.Each(func(fd font.Descriptor) error {
		if seen[fd.FilePath] {
			return nil
		}
		seen[fd.FilePath] = true
''')],
 demo=r'''
func TestSeedDemo(t *testing.T) {
	f := t.TempDir() + "/a.ttf"
	if err := os.WriteFile(f, TTF([]Glyph{{32, 300}, {65, 700}}, 500, 1), 0o600); err != nil {
		t.Fatal(err)
	}
	reg := font.NewRegistry()
	reg.Register(font.Descriptor{Name: "Foo", Style: font.Regular, FilePath: f})
	reg.Register(font.Descriptor{Name: "Foo", Style: font.Bold, FilePath: f})
	d, err := xdoc.Load(strings.NewReader("<document>" + page + `<body><text style="font-family:Foo;font-weight:bold">A</text></body></document>`))
	if err != nil {
		t.Fatal(err)
	}
	e, err := engine.NewFPDF(reg, d)
	if err != nil {
		t.Fatal(err)
	}
	var b bytes.Buffer
	if err := xpdf.NewProcessor(e, nil, d, ".").Process(&b); err != nil {
		t.Fatal(err)
	}
	if b.Len() == 0 {
		t.Fatal("nothing written")
	}
}

// Glyph is a character of a made-up TrueType font.
type Glyph struct {
	Char  int
	Width int // in thousandths of the size
}

func be16(n ...int) []byte {
	b := make([]byte, 0, 2*len(n))
	for _, x := range n {
		b = append(b, byte(x>>8), byte(x))
	}
	return b
}

// Outline is the outline of the i-th glyph of a font, different for each i and mark.
func Outline(i, mark int) []byte {
	b := be16(1, i, mark, i+1, mark+1, 0, 0)
	return append(b, 0x37, byte(i), byte(mark), 0, 0, 0)
}

// TTF makes a TrueType font of the glyphs, ordered by character.
func TTF(gs []Glyph, missing, mark int) []byte {
	n := len(gs) + 1
	var glyf, loca, hmtx []byte
	loca = append(loca, be16(0)...)
	for i := 0; i < n; i++ {
		w := missing
		if i > 0 {
			w = gs[i-1].Width
		}
		hmtx = append(hmtx, be16(w, 0)...)
		glyf = append(glyf, Outline(i, mark)...)
		loca = append(loca, be16(len(glyf)/2)...)
	}
	var end, start, delta, off []byte
	for i, g := range gs {
		end = append(end, be16(g.Char)...)
		start = append(start, be16(g.Char)...)
		delta = append(delta, be16(i+1-g.Char)...)
		off = append(off, be16(0)...)
	}
	end, start, delta, off = append(end, 0xff, 0xff), append(start, 0xff, 0xff), append(delta, 0, 1), append(off, 0, 0)
	sub := append(be16(4, 16+8*n, 0, 2*n, 0, 0, 0), end...)
	sub = append(sub, 0, 0)
	sub = append(append(append(sub, start...), delta...), off...)
	head := make([]byte, 54)
	copy(head, be16(1, 0, 1, 0, 0, 0, 0x5f0f, 0x3cf5, 0, 1000))
	copy(head[36:], be16(0, -200, 1000, 800))
	hhea := make([]byte, 36)
	copy(hhea, be16(1, 0, 800, -200))
	copy(hhea[34:], be16(n))
	maxp := make([]byte, 32)
	copy(maxp, be16(1, 0, n))
	os2 := make([]byte, 78)
	copy(os2, be16(1, 500, 400, 5))
	copy(os2[68:], be16(800, -200, 0))
	post := make([]byte, 32)
	copy(post, be16(3, 0, 0, 0, -100, 50))
	tabs := []struct {
		name string
		data []byte
	}{{"OS/2", os2}, {"cmap", append(be16(0, 1, 3, 1, 0, 12), sub...)}, {"glyf", glyf}, {"head", head}, {"hhea", hhea}, {"hmtx", hmtx},
		{"loca", loca}, {"maxp", maxp}, {"name", be16(0, 0, 6)}, {"post", post}}
	f := be16(1, 0, len(tabs), 128, 3, 32)
	pos := len(f) + 16*len(tabs)
	for _, t := range tabs {
		f = append(f, t.name...)
		f = append(f, be16(0, 0, 0, pos, 0, len(t.data))...)
		pos += (len(t.data) + 3) &^ 3
	}
	for _, t := range tabs {
		f = append(f, t.data...)
		for len(f)%4 != 0 {
			f = append(f, 0)
		}
	}
	return f
}

''')
S['two-dots']=dict(property='C36',needs='a document whose name has several dots, no output named',breaks='the PDF is written under the part of the name before the first dot',
 edits=[('cmd/xpdf/main.go','''		ext := filepath.Ext(in)
		out = strings.TrimSuffix(base, ext) + ".pdf"
''','''		out = strings.SplitN(base, ".", 2)[0] + ".pdf"
''')],pkg='cmd/xpdf',head='''package main

import (
	"os"
	"testing"
)
''',
 demo=r'''
func TestSeedDemo(t *testing.T) {
	d := t.TempDir()
	if err := os.Chdir(d); err != nil {
		t.Fatal(err)
	}
	os.Mkdir("fonts", 0o755)
	os.WriteFile("fonts/fontdef.toml", nil, 0o600)
	os.WriteFile("my.doc.xml", []byte("<document><page><margins><left>10</left></margins></page><body><text>A</text></body></document>"), 0o600)
	os.Args = []string{"xpdf", "my.doc.xml"}
	main()
	if _, err := os.Stat("my.doc.pdf"); err != nil {
		t.Fatal(err)
	}
}
''')
S['image-cache']=dict(property='C37',needs='two documents with pictures of the same name in different directories, processed by one program',breaks='the second picture is drawn with the proportions of the first',
 edits=[('image.go','''func (p *Processor) renderImage(img *xdoc.Image, pa PrintableArea) {
	imgSrc := p.resolveFile(img.Source)

	iDesc, err := DescribeImage(imgSrc)
	if err != nil {
		Logf("ERROR: describe image: %v", err)
		return
	}
''','''var imageDescs sync.Map

func (p *Processor) describeImage(img *xdoc.Image) (ImageDescriptor, error) {
	if d, ok := imageDescs.Load(img.Source); ok {
		return d.(ImageDescriptor), nil
	}
	d, err := DescribeImage(p.resolveFile(img.Source))
	if err == nil {
		imageDescs.Store(img.Source, d)
	}
	return d, err
}

func (p *Processor) renderImage(img *xdoc.Image, pa PrintableArea) {
	imgSrc := p.resolveFile(img.Source)

	iDesc, err := p.describeImage(img)
	if err != nil {
		Logf("ERROR: describe image: %v", err)
		return
	}
'''),('image.go','''	"os"
''','''	"os"
	"sync"
''')],pkg='.',head='''package xpdf

import (
	"image"
	"image/png"
	"io"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/font"
	"github.com/mazzegi/xpdf/xdoc"
)
''',
 demo=r'''
type demoEngine struct {
	engine.Engine
	w, h float64
}

func (e *demoEngine) PutImage(src string, x, y, width, height float64) { e.w, e.h = width, height }

func TestSeedDemo(t *testing.T) {
	draw := func(w, h int) float64 {
		dir := t.TempDir()
		f, err := os.Create(filepath.Join(dir, "logo.png"))
		if err != nil {
			t.Fatal(err)
		}
		if err := png.Encode(f, image.NewGray(image.Rect(0, 0, w, h))); err != nil {
			t.Fatal(err)
		}
		f.Close()
		doc, err := xdoc.Load(strings.NewReader("<document><body><image style=\"width:20\">logo.png</image></body></document>"))
		if err != nil {
			t.Fatal(err)
		}
		real, err := engine.NewFPDF(font.NewRegistry(), doc)
		if err != nil {
			t.Fatal(err)
		}
		e := &demoEngine{Engine: real}
		if err := NewProcessor(e, nil, doc, dir).Process(io.Discard); err != nil {
			t.Fatal(err)
		}
		return e.h
	}
	if a, b := draw(40, 20), draw(20, 40); a < 9.9 || a > 10.1 || b < 39.9 || b > 40.1 {
		t.Fatal(a, b)
	}
}
''')
