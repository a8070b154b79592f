S['br-twice']=dict(property='C01',needs='two <br/> in a row, or one at the start of a text',breaks='an empty line asked for by <br/> is dropped, so the break does not start a new line',
 edits=[('text.go','''		case *xdoc.LineBreak:
			lines = append(lines, curr)
''','''		case *xdoc.LineBreak:
			if len(curr.items) == 0 {
				continue
			}
			lines = append(lines, curr)
''')],
 demo='''
func TestSeedDemo(t *testing.T) {
	d := process(t, page+"<body><text>one<br/>two</text><text>one<br/><br/>two</text></body>", "a1b")
	o := d.ops("text")
	if len(o) != 4 || !near(o[3].y-o[2].y, 2*(o[1].y-o[0].y)) {
		t.Fatal(d.log)
	}
}
''')
S['hyph-third']=dict(property='C02',needs='justified text with a word of three or more parts that is divided before its last parts',breaks='the rest of a divided word after the next part is lost',
 edits=[('text-hyph.go','s2 = strings.Join(parts[i+1:], "")','s2 = parts[i+1]')],
 demo='''
func TestSeedDemo(t *testing.T) {
	d := process(t, page+`<body><text style="h-align:block;width:42">aaaa aaaa aaxbbxccxddxee</text></body>`, "x1b\\nx1c\\nx1d\\nx1e")
	s := ""
	for _, o := range d.ops("text") {
		s += o.s
	}
	s = strings.NewReplacer(" ", "", "-", "").Replace(s)
	if s != "aaaaaaaaaaxbbxccxddxee" {
		t.Fatal(s, d.log)
	}
}
''')
S['hyph-width']=dict(property='C03',needs='justified text with a divided word followed by a line that gets full',breaks='the line after a divided word is taken to hold the whole word and is ended too early',
 edits=[('text-hyph.go','''					itemWidth = p.engine.TextWidth(s2)
''','')],
demo='''
func TestSeedDemo(t *testing.T) {
	d := process(t, page+`<body><text style="h-align:block;width:50">aaaa aaaa aaaaaaaaaxbbb cc dd ee ff gg ii jj kk ll</text></body>`, "x1b")
	var lines []string
	y := -1.0
	for _, o := range d.ops("text") {
		if o.y != y {
			lines = append(lines, "")
			y = o.y
		}
		lines[len(lines)-1] += " " + strings.TrimSpace(o.s)
	}
	for i := 0; i+1 < len(lines); i++ {
		l := strings.TrimSpace(lines[i]) + " " + strings.Fields(lines[i+1])[0]
		if d.TextWidth(" "+l+" ") < 50 && !strings.Contains(l, "- ") {
			t.Fatal("the next word would have fit: ", l, d.log)
		}
	}
}
''')
S['hyph-gap']=dict(property='C04',needs='a justified line that starts with the rest of a divided word',breaks='the gaps of a line starting with the rest of a divided word are too narrow, the line does not fill the width',
 edits=[('text-hyph.go','''					pureItemWidth = p.engine.TextWidth(strings.Trim(s2, " "))
''','')],
 demo='''
func TestSeedDemo(t *testing.T) {
	d := process(t, page+`<body><text style="h-align:block;width:50">aaaa aaaa aaaa aaxbbbbbbbbbbb cc dd eeeeeeee ff gg ii jj kk ll mm nn oo pp qq rr ss tt uu</text></body>`, "x1b")
	o := d.ops("text")
	for i := 0; i+1 < len(o); i++ {
		if o[i+1].y > o[i].y && o[i].y < o[len(o)-1].y {
			if e := o[i].x + d.TextWidth(o[i].s); e < 69.7 || e > 70.1 {
				t.Fatal("line ends at ", e, d.log)
			}
		}
	}
}
''')
S['box-break-x']=dict(property='C05',needs='a box that is moved to a new page while the cursor is not at the left margin',breaks='the box on the new page is not drawn at the cursor but at the x of the page before',
 edits=[('process.go','''		p.engine.AddPage()
		x0, y0 = p.engine.GetXY()
	}
''','''		p.engine.AddPage()
		_, y0 = p.engine.GetXY()
	}
''')],
 demo='''
func TestSeedDemo(t *testing.T) {
	d := process(t, page+`<body><sety y="250"/><setx x="60"/><box style="line-width:0;width:40;height:50">a</box></body>`, "a1b")
	o := d.ops("rect")
	if len(o) != 1 || o[0].page != 2 || !near(o[0].x, 20) {
		t.Fatal(d.log)
	}
}
''')
S['box-break-margin']=dict(property='C06',needs='a bottom margin larger than the top margin and a box ending between them',breaks='a box is drawn across the bottom margin',
 edits=[('process.go','_, _, _, bm := p.engine.Margins()','_, bm, _, _ := p.engine.Margins()')],
 demo='''
func TestSeedDemo(t *testing.T) {
	d := process(t, page+`<body><sety y="230"/><box style="line-width:0;height:50"/></body>`, "a1b")
	o := d.ops("rect")
	if len(o) != 1 || o[0].page != 2 {
		t.Fatal(d.log)
	}
}
''')
S['lone-colspan']=dict(property='C07',needs='a row whose only cell spans columns of other rows',breaks='the only cell of a row covers one column instead of its colspan',
 edits=[('table.go','''			if cell.colSpan <= 1 {
''','''			if cell.colSpan <= 1 || len(row.cells) == 1 {
''')],
 demo='''
func TestSeedDemo(t *testing.T) {
	d := process(t, page+`<body><table style="line-width:0;width:120"><tr><td colspan="3">t</td></tr><tr><td>a</td><td>b</td><td>c</td></tr></table></body>`, "a1b")
	o := d.ops("rect")
	if len(o) != 4 || !near(o[0].w, 120) {
		t.Fatal(d.log)
	}
}
''')
S['first-width']=dict(property='C08',needs='two rows asking for different widths of the same column, the larger one later',breaks='a column is not as wide as the largest width asked for',
 edits=[('table.go','if cell.ColumnWidth > cws[ic] {','if cell.ColumnWidth > 0 && cws[ic] == 0 {')],
 demo='''
func TestSeedDemo(t *testing.T) {
	d := process(t, page+`<body><table style="line-width:0"><tr><td style="column-width:20">a</td><td>b</td></tr><tr><td style="column-width:50">a</td><td>b</td></tr></table></body>`, "a1b")
	o := d.ops("rect")
	if len(o) != 4 || !near(o[0].w, 50) || !near(o[2].w, 50) {
		t.Fatal(d.log)
	}
}
''')
S['rowspan-height']=dict(property='C09',needs='a cell spanning three rows whose text is higher than the other cells',breaks='the last row spanned gets no share of the height, the text leaves the cell',
 edits=[('table.go','''	for _, sc := range cell.spansRows {
		sc.minHeight = heightPerCell
	}
''','''	for i := 1; i < len(cell.spansRows); i++ {
		cell.spansRows[i-1].minHeight = heightPerCell
	}
''')],
 demo='''
func TestSeedDemo(t *testing.T) {
	d := process(t, page+`<body><table style="line-width:0"><tr><td rowspan="3">a<br/>b<br/>c<br/>d<br/>e<br/>f<br/>g<br/>h<br/>i<br/>j</td><td>b</td></tr><tr><td>b</td></tr><tr><td>b</td></tr></table></body>`, "a1b")
	o := d.ops("rect")
	x := d.ops("text")
	if len(o) != 4 || o[0].y+o[0].h < x[9].y+4 {
		t.Fatal(d.log)
	}
}
''')
S['header-alone']=dict(property='C10',needs='a table with a repeated header row starting where the header fits on the page but the first row does not',breaks='the header row is left alone at the bottom of the page',
 edits=[('table.go','for i := 0; i < xtab.RepeatHeader+1; i++ {','for i := 0; i < xtab.RepeatHeader; i++ {')],
 demo='''
func TestSeedDemo(t *testing.T) {
	d := process(t, page+`<body><sety y="240"/><table repeatheader="1" style="line-width:0"><tr style="height:20"><td>h</td></tr><tr style="height:30"><td>a</td></tr></table></body>`, "a1b")
	for _, o := range d.ops("text") {
		if o.page == 1 {
			t.Fatal(d.log)
		}
	}
}
''')
S['footer-break']=dict(property='C11',needs='a footer with a box reaching into the bottom margin',breaks='a box in the footer starts a page, whose footer does so again',
 edits=[('process.go','''	p.engine.OnFooter(func() {
		x, y := p.engine.GetXY()
		styles := p.currStyles
		p.preventPageBreak = true
''','''	p.engine.OnFooter(func() {
		x, y := p.engine.GetXY()
		styles := p.currStyles
''')],
 demo='''
type limit struct {
	*rec
	n int
}

func (l *limit) AddPage() {
	if l.n++; l.n > 5 {
		panic("pages without end")
	}
	l.rec.AddPage()
}

func TestSeedDemo(t *testing.T) {
	d, err := xdoc.Load(strings.NewReader("<document>" + page + `<footer><sety y="275"/><box style="height:10">f</box></footer><body><text>a</text></body></document>`))
	if err != nil {
		t.Fatal(err)
	}
	e, err := engine.NewFPDF(font.NewRegistry(), d)
	if err != nil {
		t.Fatal(err)
	}
	h, _ := hyphenation.Load(strings.NewReader("a1b"))
	l := &limit{rec: &rec{FPDF: e}}
	var b bytes.Buffer
	if err := xpdf.NewProcessor(l, h, d, ".").Process(&b); err != nil {
		t.Fatal(err)
	}
	if l.CurrentPage() != 1 {
		t.Fatal(l.CurrentPage())
	}
}
''')
S['text-font-stays']=dict(property='C12',needs='a text with its own font size followed by a line feed',breaks='the font of a finished text stays selected: a following line feed advances by the height of that font',
 edits=[('process.go','''	defer p.resetStyles()
	sty := text.MutatedStyles''','''	sty := text.MutatedStyles''')],
 demo='''
func TestSeedDemo(t *testing.T) {
	d := process(t, page+`<body><text>x</text><lf lines="10"/><text>a</text><text style="font-point-size:40;line-spacing:1">x</text><lf lines="10"/><text>b</text></body>`, "a1b")
	o := d.ops("text")
	d1, d2 := o[1].y-o[0].y, o[3].y-o[2].y
	if math.Abs(d1-d2) > 20 {
		t.Fatal(d.log)
	}
}
''')
S['first-cell-row']=dict(property='C13',needs='a row with a style of its own and a style-inheriting first cell',breaks='the first cell of a row does not inherit the style of its row',
 edits=[('table.go','cellSty = xcell.MutatedStylesWithSelector("first-cell", p.doc.StyleClasses(), row.Styles)','cellSty = xcell.MutatedStylesWithSelector("first-cell", p.doc.StyleClasses(), tab.Styles)')],
 demo='''
func TestSeedDemo(t *testing.T) {
	d := process(t, page+`<body><table style="line-width:0"><tr style="padding:5,5,5,5"><td>a</td><td>b</td></tr></table></body>`, "a1b")
	o, r := d.ops("text"), d.ops("rect")
	if !near(o[0].x, r[0].x+5) || !near(o[0].y, o[1].y) {
		t.Fatal(d.log)
	}
}
''')
