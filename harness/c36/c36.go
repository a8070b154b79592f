// Package c36 decides what the commands do with files, arguments and failures.
//
// bounds: HXpdf: documents of seven kinds (text, text in a registered font, existing and missing image, unregistered font, no document, missing file) under five names (with directories, several dots, no extension), output not named or named in five ways (one in a missing directory), over an existing file or none, with four states of the font definition; HName: document names of up to five (thorough six) characters out of "aB./" after a letter, the output not named; HDescribe: documents of six kinds; HImage: GIF images of 36 sizes, a JPEG, a PNG, files that are no image
// outside: permissions, full disks, the arguments the commands run with when none is given; status numbers but zero and others
// stub: os.Exit, os.Stdout and fmt.Print of the commands are recorded; deferred calls run on os.Exit; files are virtual in the symbolic runs
package c36

import (
	"os"
	"strconv"
	"strings"

	"github.com/jung-kurt/gofpdf/v2"
	"github.com/mazzegi/xpdf/xdoc"
	command_describe "github.com/mazzegi/xpdf/zzverif/cmd/describe"
	command_image "github.com/mazzegi/xpdf/zzverif/cmd/image"
	command_xpdf "github.com/mazzegi/xpdf/zzverif/cmd/xpdf"
	. "github.com/mazzegi/xpdf/zzverif/common"
	"github.com/mazzegi/xpdf/zzverif/sym"
)

const jpg = "\xff\xd8\xff\xe0\x00\x10JFIF\x00\x01\x01\x00\x00\x01\x00\x01\x00\x00\xff\xc0\x00\x0b\x08\x00\x08\x00\x10\x01\x01\x11\x00\xff\xd9"

func write(name, content string) {
	if i := strings.LastIndexByte(name, '/'); i > 0 && os.MkdirAll(name[:i], 0o755) != nil {
		sym.Assume(false)
	}
	if os.WriteFile(name, []byte(content), 0o600) != nil {
		sym.Assume(false)
	}
}

func work() string {
	d := sym.Scratch()
	if os.Chdir(d) != nil {
		sym.Assume(false)
	}
	return d
}

func read(name string) (string, bool) {
	b, err := os.ReadFile(name)
	return string(b), err == nil
}

const head = `<document><page><margins><left>10</left><top>11</top><right>12</right><bottom>13</bottom></margins></page>`

// HXpdf: from a document to its PDF.
func HXpdf() {
	gofpdf.SetDefaultCompression(false)
	dir := work()
	good := true
	switch sym.Choose("fonts", 4) {
	case 0:
		write("fonts/fontdef.toml", "MonoFont = \"Foo\"\n[[Fonts]]\nName = \"Foo\"\n[[Fonts.StyleDefinitions]]\nStyle = \"regular\"\nFilePath = \"m.ttf\"\n")
		write("fonts/m.ttf", string(TTF([]Glyph{{' ', 300}, {'A', 500}, {'b', 600}}, 400, 1)))
	case 1:
		good = false
	case 2:
		write("fonts/fontdef.toml", "MonoFont = [")
		good = false
	case 3:
		write("fonts/fontdef.toml", "[[Fonts]]\nName = \"Foo\"\n[[Fonts.StyleDefinitions]]\nStyle = \"regular\"\nFilePath = \"m.ttf\"\n")
		good = false
	}
	n := sym.Choose("name", 5)
	in := []string{"doc.xml", "sub/my.doc.xml", "noext", "a.b/c", dir + "/in/x.xml"}[n]
	want := []string{"doc.pdf", "my.doc.pdf", "noext.pdf", "c.pdf", "x.pdf"}[n]
	kind := "text"
	text := "Ab"
	switch sym.Choose("doc", 7) {
	case 0:
		write(in, head+`<body><text>Ab</text></body></document>`)
	case 1:
		write(in, head+`<body><text style="font-family:Foo">Ab</text></body></document>`)
		text = "\x00A\x00b"
	case 2:
		write("img/a.jpg", jpg)
		write(in, head+`<body><image style="width:20;height:30">img/a.jpg</image></body></document>`)
		kind = "image"
	case 3:
		write(in, head+`<body><image style="width:20;height:30">img/a.jpg</image></body></document>`)
		kind = "" // skipped
	case 4:
		write(in, head+`<body><text style="font-family:Bar">Ab</text></body></document>`)
		good = false
	case 5:
		write(in, "no document")
		good = false
	case 6:
		good = false
	}
	args := []string{in}
	switch sym.Choose("out", 6) {
	case 0:
	case 1:
		want = "o.out"
		args = append(args, want)
	case 2:
		write("sub/x", "")
		want = "sub/o.pdf"
		args = append(args, want)
	case 3:
		write("abs/x", "")
		want = dir + "/abs/o"
		args = append(args, want)
	case 4:
		want = "nodir/o.pdf"
		args = append(args, want)
		good = false
	case 5:
		want = "o.pdf"
		args = append(args, want, "rest")
	}
	if sym.Bool("exists") && want != "nodir/o.pdf" {
		write(want, strings.Repeat("old ", 2000))
	}
	status := Command(command_xpdf.Main, args...)
	sym.Assert(sym.Iff(status == 0, good), "the status is zero if and only if the PDF has been made")
	if status != 0 {
		sym.Assert(len(Stdout.B)+len(Stderr.B) > 0, "a failure is reported")
		return
	}
	out, ok := read(want)
	sym.Assert(ok, "the PDF has the name given or that of the document")
	sym.Assume(ok)
	sym.Assert(strings.HasPrefix(out, "%PDF-") && strings.HasSuffix(strings.TrimSpace(out), "%%EOF") && strings.Count(out, "%%EOF") == 1, "the file is one whole PDF")
	p := ParsePDF(out)
	if kind == "" {
		sym.Assert(len(p.Pages) == 1 && len(p.Pages[0].Ops) == 0, "a missing image is skipped")
		return
	}
	ok = len(p.Pages) == 1 && len(p.Pages[0].Ops) == 1
	sym.Assert(ok, "the document is in the PDF")
	sym.Assume(ok)
	op := p.Pages[0].Ops[0]
	sym.Assert(op.Kind == kind && (kind != "text" || op.S == text), "the PDF is that of the document")
}

// HName: the name of the PDF of a document.
func HName() {
	gofpdf.SetDefaultCompression(false)
	work()
	write("fonts/fontdef.toml", "")
	in := ""
	for i := 1 + sym.Choose("length", 4+sym.Tier()); i > 0; i-- {
		in += []string{"a", ".", "/", "B"}[sym.Choose("char", 4)]
	}
	in = "d" + in
	base := in[strings.LastIndexByte(in, '/')+1:]
	sym.Assume(base != "" && base != "." && base != "..")
	want := base
	if i := strings.LastIndexByte(base, '.'); i >= 0 {
		want = base[:i]
	}
	write(in, head+`<body><text>Ab</text></body></document>`)
	sym.Assert(Command(command_xpdf.Main, in) == 0, "the PDF is made")
	out, ok := read(want + ".pdf")
	sym.Assert(ok && strings.HasPrefix(out, "%PDF-"), "the PDF has the name of the document in the current directory")
	doc, ok := read(in)
	sym.Assert(ok && strings.HasPrefix(doc, "<document"), "the document is kept")
}

// HDescribe: from a document to its description.
func HDescribe() {
	work()
	good := true
	switch sym.Choose("doc", 6) {
	case 0:
		write("d.xml", head+`<body><text>Ab</text></body></document>`)
	case 1:
		write("d.xml", head+`<style>a{font-weight:bold}</style><body><box class="a">Ab<br/>c</box><newpage/></body></document>`)
	case 2:
		write("d.xml", head+`<header><text>{cp}</text></header><body><table><tr><td>x</td><td colspan="2">y</td></tr></table></body></document>`)
	case 3:
		write("d.xml", head+`<body><grid style="grid-template:'a a' 'b c'"></grid></body></document>`)
	case 4:
		write("d.xml", `<document><body>`)
		good = false
	case 5:
		good = false
	}
	status := Command(command_describe.Main, "d.xml")
	doc, err := xdoc.LoadFromFile("d.xml")
	if good {
		sym.Assume(err == nil)
	}
	sym.Assert(sym.Iff(status == 0, good), "the status is zero if and only if the document loads")
	if status != 0 {
		sym.Assert(len(Stdout.B)+len(Stderr.B) > 0, "a failure is reported")
		return
	}
	want := xdoc.Describe(doc).Dump(xdoc.DescribeXML)
	sym.Assert(strings.TrimSpace(string(Stdout.B)) == strings.TrimSpace(want), "the description of the document is printed")
}

// number reads the number after a key.
func number(s, key string) int {
	_, s, _ = strings.Cut(s, key)
	i := 0
	for i < len(s) && s[i] >= '0' && s[i] <= '9' {
		i++
	}
	n, err := strconv.Atoi(s[:i])
	sym.Assert(err == nil, "numbers are printed")
	return n
}

// HImage: the size of an image.
func HImage() {
	work()
	good := true
	format, w, h := "gif", 0, 0
	switch sym.Choose("image", 5) {
	case 0:
		sizes := []int{1, 255, 256, 1000, 32768, 65535}
		x, y := sizes[sym.Choose("w", 6)], sizes[sym.Choose("h", 6)]
		write("a", "GIF89a"+string([]byte{byte(x), byte(x >> 8), byte(y), byte(y >> 8), 0, 0, 0}))
		w, h = x, y
	case 1:
		write("a", jpg)
		format, w, h = "jpeg", 16, 8
	case 2:
		write("a", "\x89PNG\r\n\x1a\n\x00\x00\x00\rIHDR\x00\x00\x00\x05\x00\x00\x00\x07\x08\x02\x00\x00\x00\x4f\xc5\x10\xb9")
		format, w, h = "png", 5, 7
	case 3:
		write("a", "no image")
		good = false
	case 4:
		good = false
	}
	status := Command(command_image.Main, "a")
	sym.Assert(sym.Iff(status == 0, good), "the status is zero if and only if the file is an image")
	if status != 0 {
		return
	}
	out := string(Stdout.B)
	sym.Assert(strings.Contains(out, format), "the format of the image is printed")
	sym.Assert(sym.And(number(out, "w=") == w, number(out, "h=") == h), "the size of the image is printed")
}
