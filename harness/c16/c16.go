// Package c16 decides the decoding of style sheets.
//
// bounds: HRules: up to 3 (thorough 4) rules named out of three names, with or without one of two selectors, bodies of one declaration with a symbolic value or empty; HLayout: blanks, tabs, line breaks and nothing between name, braces, declarations and rules; HBad: unnamed, unclosed and invalid rules before, between and after valid ones; HNames: names of 1..3 symbolic characters
// outside: text after the last rule and braces inside names (unspecified)
package c16

import (
	"strings"

	"github.com/mazzegi/xpdf/style"
	. "github.com/mazzegi/xpdf/zzverif/common"
	"github.com/mazzegi/xpdf/zzverif/sym"
)

func decode(s string) (style.Classes, error) { return style.DecodeClasses(strings.NewReader(s)) }

type body struct {
	text  string
	apply func(*style.Styles)
}

func newBody(i int) body {
	k := []int{8, 17, 14}[sym.Choose("prop", 3)] // width, text-color, h-align
	v, a := Decl(k, "v")
	return body{Keys[k] + ":" + v, a}
}

type class struct {
	body body
	sels map[string]body
}

func HRules() {
	Simple = true
	max := 3
	if sym.Tier() > 0 {
		max = 4
	}
	names := []string{"a", "ab", "b"}
	sels := []string{"", "first-row", "x"}
	want := map[string]*class{}
	bad := false
	txt := ""
	for n := sym.Choose("rules", max+1); n > 0; n-- {
		nm := names[sym.Choose("name", 3)]
		sel := sels[sym.Choose("sel", 3)]
		var b body
		if n == 1 && sym.Bool("empty") {
			b = body{"", func(*style.Styles) {}}
		} else if n == 1 {
			b = newBody(n)
		} else {
			f := Num("w")
			b = body{"width:" + sym.FloatText(f), func(s *style.Styles) { s.Width = f }}
		}
		full := nm
		if sel != "" {
			full += ":" + sel
		}
		txt += full + " {" + b.text + "}\n"
		c := want[nm]
		if sel == "" {
			want[nm] = &class{body: b, sels: map[string]body{}}
		} else if c == nil {
			bad = true
		} else {
			c.sels[sel] = b
		}
	}
	cs, err := decode(txt)
	sym.ObserveB("err", err != nil)
	if bad {
		sym.Assert(err != nil, "selector before its class is an error")
		sym.Reach("selector before class")
		return
	}
	sym.Assert(err == nil, "sheet decodes")
	if err != nil {
		return
	}
	sym.Assert(len(cs) == len(want), "exactly the classes defined")
	base := DefaultLike()
	for _, nm := range names {
		w, got := want[nm], base
		c, ok := cs[nm]
		sym.Assert(ok == (w != nil), "class exists iff defined")
		if !ok || w == nil {
			cs.Mutate(&got, nm)
			sym.Assert(EqStyles(got, base), "an undefined class does nothing")
			continue
		}
		sym.Assert(c.Name == nm, "class has its name")
		sym.Assert(len(c.Selectors) == len(w.sels), "exactly the selectors defined")
		exp := base
		w.body.apply(&exp)
		c.Mutate(&got)
		sym.Assert(EqStyles(got, exp), "class has the body of its last rule")
		for _, sel := range sels[1:] {
			got, exp = base, base
			if b, ok := w.sels[sel]; ok {
				b.apply(&exp)
				sym.Reach("selector")
			} else {
				w.body.apply(&exp)
			}
			cs.MutateWithSelector(sel, &got, nm)
			sym.Assert(EqStyles(got, exp), "selector has the body of its last rule")
		}
	}
}

func HLayout() {
	Simple = true
	k := 2
	if sym.Tier() > 0 {
		k = 3
	}
	sp := []string{"", " \t", "\r\n"}
	w := func(n string) string { return sp[sym.Choose(n, k)] }
	f, g, h := Num("f"), Num("g"), Num("h")
	s0, s1, s2, s3, s4 := w("s0"), w("s1"), w("s2"), w("s3"), w("s4")
	txt := s0 + "a" + s1 + "{" + s2 + "width" + s3 + ":" + s2 + sym.FloatText(f) + s1 + ";" + s3 + "height:" + sym.FloatText(g) + s4 + "}" + s0 + "a:last-row" + s1 + "{" + s2 + "width:" + sym.FloatText(h) + ";" + s3 + "}" + s4
	cs, err := decode(txt)
	sym.Assert(err == nil, "sheet decodes")
	if err != nil {
		return
	}
	sym.Assert(len(cs) == 1, "one class")
	got, want := DefaultLike(), DefaultLike()
	want.Width, want.Height = f, g
	cs.Mutate(&got, "a")
	sym.Assert(EqStyles(got, want), "space between tokens does not matter")
	got, want = DefaultLike(), DefaultLike()
	want.Width = h
	cs.MutateWithSelector("last-row", &got, "a")
	sym.Assert(EqStyles(got, want), "space between tokens of selector rules does not matter")
}

func HBad() {
	good := "ok{width:1}"
	badRules := []string{
		"{width:1}", " \n{}", "a{width:1", "a{", "a{width}", "a{width:x}", "a{border:1,2}", "a{color:#12345}", "a{width:1:2}",
		"a:first-row{width:1}", "ok:first-row{width:}", "ok:first-row{width:1", "a{width:1;height}",
	}
	b := badRules[sym.Choose("bad", len(badRules))]
	txt := ""
	where := sym.Choose("where", 4)
	// a brace closed by a later rule's brace is not unclosed
	sym.Assume(where < 2 || strings.Contains(b, "}"))
	switch where {
	case 0:
		txt = b
	case 1:
		txt = good + b
	case 2:
		txt = b + good
	case 3:
		txt = good + "\n" + b + "\nz{height:2}"
	}
	_, err := decode(txt)
	sym.Assert(err != nil, "invalid rule is an error")
}

// HNames: a name is kept with every character of it.
func HNames() {
	n := 1 + sym.Choose("len", 3)
	nm := sym.Str("name", n, "aZ-_0.*")
	f := Num("f")
	sel := ""
	if sym.Bool("sel") {
		sel = sym.Str("sel", 2, "ab-")
	}
	txt := nm + "{width:" + sym.FloatText(f) + "}"
	if sel != "" {
		txt += nm + ":" + sel + "{height:3}"
	}
	cs, err := decode(txt)
	sym.Assert(err == nil, "sheet decodes")
	if err != nil {
		return
	}
	c, ok := cs[nm]
	sym.Assert(ok && len(cs) == 1, "the class is known by its name")
	if !ok {
		return
	}
	got, want := DefaultLike(), DefaultLike()
	c.Mutate(&got)
	want.Width = f
	sym.Assert(EqStyles(got, want), "class body")
	if sel != "" {
		_, ok := c.Selectors[sel]
		sym.Assert(ok && len(c.Selectors) == 1, "the selector is known by its name")
	}
}
