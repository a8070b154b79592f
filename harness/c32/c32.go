// Package c32 decides that no text crashes or hangs the decoders.
//
// bounds: all byte strings (256 values per byte) of up to 3 (thorough 4) bytes as inline style, 4 (5) as style sheet over the whole range, 5 (7) over the sheet's syntax characters, 3 (4) as pattern file and word; every property key followed by up to 3 (4) symbolic bytes of values; words of 3 (4) arbitrary bytes divided with arbitrary one-line pattern files
// outside: longer texts
package c32

import (
	"strings"

	"github.com/mazzegi/xpdf/hyphenation"
	"github.com/mazzegi/xpdf/style"
	. "github.com/mazzegi/xpdf/zzverif/common"
	"github.com/mazzegi/xpdf/zzverif/sym"
)

func max(q, t int) int {
	if sym.Tier() > 0 {
		return t
	}
	return q
}

func bytes(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = sym.Byte(name, 0, 255)
	}
	return string(b)
}

func apply(m *style.Mutator, err error) {
	sym.Assert((m == nil) == (err != nil), "a result or an error")
	if err != nil {
		return
	}
	s := DefaultLike()
	m.Mutate(&s)
	sym.ObserveF("width", s.Width)
}

func HInline() {
	n := sym.Choose("len", max(3, 4)+1)
	m, err := style.DecodeMutator(strings.NewReader(bytes("b", n)))
	apply(m, err)
}

func HValue() {
	k := sym.Choose("key", len(Keys))
	n := sym.Choose("len", max(3, 4)+1)
	set := ""
	switch Keys[k] {
	case "border", "padding", "margin":
		set = "0,-.e\xff"
	case "color", "text-color", "background-color":
		set = "#f\x80g"
	default:
		set = "019.-+exN_\xe2"
	}
	m, err := style.DecodeMutator(strings.NewReader(Keys[k] + ":" + sym.Str("b", n, set)))
	apply(m, err)
}

func sheet(txt string) {
	cs, err := style.DecodeClasses(strings.NewReader(txt))
	sym.Assert((cs == nil) == (err != nil), "a result or an error")
	if err != nil {
		return
	}
	sym.Reach("decodes")
	for n := range cs {
		s := DefaultLike()
		cs.Mutate(&s, n)
		cs.MutateWithSelector("x", &s, n)
	}
}

func HSheetBytes() { sheet(bytes("b", sym.Choose("len", max(4, 5)+1))) }

func HSheetSyntax() { sheet(sym.Str("b", sym.Choose("len", max(5, 7)+1), "a{}:; ")) }

func HSheetRule() { sheet("a{width:1}a" + sym.Str("b", sym.Choose("len", max(4, 6)+1), "{}:; \n,x")) }

func divide(txt, word string) {
	h, err := hyphenation.Load(strings.NewReader(txt))
	sym.Assert((h == nil) == (err != nil), "a result or an error")
	if err != nil {
		return
	}
	parts := h.Hyphenate(word)
	sym.ObserveI("parts", len(parts))
	sym.Assert(len(parts) > 0, "at least one part")
}

func HPatterns() { divide(bytes("p", sym.Choose("len", max(3, 4)+1)), "a\u00fcb") }

func HPatternLetters() {
	divide(sym.Str("p", sym.Choose("len", max(4, 5)+1), "a.1\n \xc3\xbc"), "a\u00fcb1.")
}

func HWord() {
	divide("a1b\n1\u00fc1\n.1a\n1b.\n", bytes("w", sym.Choose("len", max(3, 4)+1)))
}

// HBoth: pattern and word of symbolic letters.
func HBoth() {
	divide(sym.Str("p", sym.Choose("plen", max(3, 4)+1), "a9.\xc3"), sym.Str("w", 3+sym.Choose("len", 2), "aA\xc3"))
}
