// Package c25 decides where resources are looked for.
//
// bounds: HImage: relative and absolute image paths of up to 4 segments out of "a", "b", "..", "." and "", some starting with one of 9 other texts ("~", "$", "..."), under 7 working directories, in body, header and table cells; HRelative: the same under 7 working directories that are relative; HFonts: font definition files of up to three fonts with up to two styles, the paths relative (same segments), absolute or in the directory above, read by relative or absolute name; HEach: iteration over up to 5 fonts failing at any of them
// outside: font definitions that are no valid TOML; other path separators
package c25

import (
	"errors"
	"os"
	"strings"

	"github.com/mazzegi/xpdf"
	"github.com/mazzegi/xpdf/font"
	. "github.com/mazzegi/xpdf/zzverif/common"
	"github.com/mazzegi/xpdf/zzverif/sym"
)

// clean is the rule for absolute paths, written down naively.
func clean(p string) string {
	var segs []string
	for _, s := range strings.Split(p, "/") {
		switch s {
		case "", ".":
		case "..":
			if len(segs) > 0 {
				segs = segs[:len(segs)-1]
			}
		default:
			segs = append(segs, s)
		}
	}
	return "/" + strings.Join(segs, "/")
}

var names = []string{"", "~", "$", "-", "a b", "\u00e4%20", ".", "C:", "~/", "..."}

var segs = []string{"a", "..", ".", "", "b"}

// rel is a relative path to a file.
func rel(max int) string {
	p := ""
	for i := sym.Choose("segs", max); i > 0; i-- {
		s := segs[sym.Choose("seg", len(segs))]
		if p == "" && s == "" {
			continue
		}
		p += s + "/"
	}
	return p + "pic"
}

func gif() []byte { return []byte{'G', 'I', 'F', '8', '9', 'a', 10, 0, 10, 0, 0, 0, 0} }

// HImage: the path read and handed on.
func HImage() {
	root := sym.Scratch()
	for _, d := range []string{"/w", "/w/a", "/w/b", "/w/a/a", "/w/a/b", "/w/b/a", "/w/b/b", "/a", "/b", "/a/a", "/a/b", "/b/a", "/b/b"} {
		os.MkdirAll(root+d, 0o700)
	}
	wd := root + []string{"/w", "/w/", "/w/a", "/w/a/..", "/w/./b", "//w", "/w/a/../b/"}[sym.Choose("wd", 7)]
	src := rel(3 + sym.Tier())
	if !strings.Contains(src, "/") || strings.HasPrefix(src, "../") {
		src = names[sym.Choose("name", len(names))] + src
	}
	want := clean(wd + "/" + src)
	if sym.Bool("abs") {
		src = root + "/w/" + src
		want = src
	}
	if !strings.HasPrefix(clean(want), root+"/") {
		return // leaves the scratch directory
	}
	os.MkdirAll(clean(want[:len(want)-4]), 0o700)
	if os.WriteFile(clean(want), gif(), 0o600) != nil {
		sym.Assume(false)
	}
	e := NewEng(200, 200, 10, 10, 10, 10)
	img := "<image>" + src + "</image>"
	txt := []string{"<document><body>" + img + "</body></document>", "<document><header>" + img + "</header><body/></document>", "<document><body><table><tr><td>" + img + "</td></tr></table></body></document>"}[sym.Choose("in", 3)]
	err := xpdf.NewProcessor(e, nil, Load(txt), wd).Process(&sink{})
	sym.Assert(err == nil, "the document is processed")
	n := 0
	for _, v := range e.Evs {
		if v.Kind == EvImage {
			n++
			sym.Assert(v.S == want, "the path is the join of working directory and relative path, or the absolute path")
		}
	}
	sym.Assert(n == 1, "the picture is read from there")
}

// HRelative: a working directory that is relative itself.
func HRelative() {
	root := sym.Scratch()
	for _, d := range []string{"/w/a/a", "/w/a/b", "/w/b", "/a", "/b"} {
		os.MkdirAll(root+d, 0o700)
	}
	cwd := root + "/w/a"
	if os.Chdir(cwd) != nil {
		sym.Assume(false)
	}
	wd := []string{"", ".", "a", "./b/", "..", "../../a", "a/.."}[sym.Choose("wd", 7)]
	src := rel(3)
	want := relative(wd + "/./" + src)
	file := clean(cwd + "/" + want)
	if !strings.HasPrefix(file, root+"/") {
		return // leaves the scratch directory
	}
	os.MkdirAll(file[:len(file)-4], 0o700)
	if os.WriteFile(file, gif(), 0o600) != nil {
		sym.Assume(false)
	}
	e := NewEng(200, 200, 10, 10, 10, 10)
	err := xpdf.NewProcessor(e, nil, Load("<document><body><image>"+src+"</image></body></document>"), wd).Process(&sink{})
	sym.Assert(err == nil, "the document is processed")
	im := e.Of(EvImage, Body)
	sym.Assert(len(im) == 1, "the picture is read from there")
	sym.Assume(len(im) == 1)
	sym.Assert(im[0].S == want, "the path is the join of working directory and relative path, or the absolute path")
}

// relative cleans a relative path.
func relative(p string) string {
	var segs []string
	for _, s := range strings.Split(p, "/") {
		switch s {
		case "", ".":
		case "..":
			if len(segs) > 0 && segs[len(segs)-1] != ".." {
				segs = segs[:len(segs)-1]
			} else {
				segs = append(segs, s)
			}
		default:
			segs = append(segs, s)
		}
	}
	return strings.Join(segs, "/")
}

type sink struct{}

func (*sink) Write(p []byte) (int, error) { return len(p), nil }

// HFonts: a font definition file.
func HFonts() {
	dir := sym.Scratch() + "/fonts"
	os.MkdirAll(dir+"/sub", 0o700)
	abs := sym.Bool("abs")
	var want []font.Descriptor
	txt := ""
	mono := ""
	if sym.Bool("mono") {
		mono = "Mono"
		txt = "MonoFont = \"Mono\"\n"
	}
	styles := []font.Style{font.Regular, font.Bold, font.Italic, font.BoldItalic}
	for i := sym.Choose("fonts", 3); i > 0; i-- {
		name := "Font" + string([]byte{'A' + byte(i)})
		txt += "[[Fonts]]\nName = \"" + name + "\"\n"
		for k := sym.Choose("styles", 3); k > 0; k-- {
			sty := styles[(i+k)%4]
			p := []string{"x.ttf", "sub/x.ttf", "../x.ttf", "/abs/x.ttf", "./sub/../y.ttf"}[sym.Choose("path", 5)]
			txt += "[[Fonts.StyleDefinitions]]\nStyle = \"" + string(sty) + "\"\nFilePath = \"" + p + "\"\n"
			if p[0] != '/' {
				p = clean(dir + "/" + p)
			}
			want = append(want, font.Descriptor{Name: name, Style: sty, FilePath: p})
		}
	}
	file := dir + "/fonts.toml"
	if os.WriteFile(file, []byte(txt), 0o600) != nil {
		sym.Assume(false)
	}
	if !abs {
		file = dir + "/sub/../fonts.toml"
	}
	reg, err := font.LoadRegistryFromFile(file)
	sym.Assert(err == nil, "the definitions are loaded")
	if err != nil {
		return
	}
	sym.Assert(reg.MonoFont() == mono, "the mono font is the one named")
	var got []font.Descriptor
	err = reg.Each(func(fd font.Descriptor) error {
		got = append(got, fd)
		return nil
	})
	sym.Assert(err == nil, "iteration succeeds")
	if len(got) != len(want) {
		sym.Assert(false, "every style of every font is registered once")
		return
	}
	for i, w := range want {
		sym.Assert(got[i] == w, "fonts are registered in file order, files resolved against the directory of the definition")
	}
	_, err = font.LoadRegistryFromFile(dir + "/missing.toml")
	sym.Assert(err != nil, "a missing definition is an error")
}

// HEach: iteration stops at the first error.
func HEach() {
	reg := font.NewRegistry()
	n := sym.Choose("fonts", 6)
	for i := 0; i < n; i++ {
		reg.Register(font.Descriptor{Name: string([]byte{'a' + byte(i)})})
	}
	fail := errors.New("fail")
	at := sym.Choose("at", 7)
	seen := ""
	err := reg.Each(func(fd font.Descriptor) error {
		seen += fd.Name
		if len(seen) == at {
			return fail
		}
		return nil
	})
	if at >= 1 && at <= n {
		sym.Assert(err == fail && len(seen) == at, "iteration stops at the first error and returns it")
	} else {
		sym.Assert(err == nil && len(seen) == n, "every font is visited")
	}
	sym.Assert(strings.HasPrefix("abcdef", seen), "fonts are visited in order")
}
