// Package c14 decides style declarations.
//
// bounds: HOne: every one of the 20 properties alone, all its values symbolic (lengths on a 1/64 grid in [-500,500], integers, names of three symbolic characters, all colours), applied to an arbitrary style; HPair: every ordered pair of properties (same property included: last wins), positive values, every iteration order of the declaration map; HTriple: three declarations, the third repeating one (thorough: any triple); HSpacing: blanks, tabs, line breaks, empty and unknown declarations between three declarations; HBad: missing or doubled colon, empty and non-parsing values, infinite ones and NaN for every property; HValue: values of 0..3 symbolic characters for length, name and border properties
// outside: more than three declarations at once (HSpacing: four); lengths off the grid; trailing text after a complete border, padding or margin value (accepted by the decoder, unspecified)
package c14

import (
	"strings"

	"github.com/mazzegi/xpdf/style"
	. "github.com/mazzegi/xpdf/zzverif/common"
	"github.com/mazzegi/xpdf/zzverif/sym"
)

func decode(s string) (*style.Mutator, error) { return style.DecodeMutator(strings.NewReader(s)) }

func HOne() {
	k := sym.Choose("key", len(Keys))
	val, apply := Decl(k, "v")
	base := AnyStyle("base")
	m, err := decode(Keys[k] + ":" + val)
	sym.Assert(err == nil, "declaration decodes")
	if err != nil {
		return
	}
	got, want := base, base
	m.Mutate(&got)
	apply(&want)
	sym.Assert(EqStyles(got, want), "sets exactly the named property")
	m.Mutate(&got)
	sym.Assert(EqStyles(got, want), "applying again changes nothing")
}

// HPair: two declarations, the same property twice included.
func HPair() {
	sym.MapOrder(true)
	Simple = true
	i, j := sym.Choose("key1", len(Keys)), sym.Choose("key2", len(Keys))
	v1, a1 := Decl(i, "v1")
	v2, a2 := Decl(j, "v2")
	m, err := decode(Keys[i] + ":" + v1 + ";" + Keys[j] + ":" + v2)
	sym.Assert(err == nil, "declarations decode")
	if err != nil {
		return
	}
	base := DefaultLike()
	got, want := base, base
	m.Mutate(&got)
	a1(&want)
	a2(&want)
	sym.Assert(EqStyles(got, want), "sets exactly the named properties, the last one winning")
}

// HTriple: three declarations (quick: the third repeats one of the others).
func HTriple() {
	sym.MapOrder(true)
	Simple = true
	i, j := sym.Choose("key1", len(Keys)), sym.Choose("key2", len(Keys))
	k := i
	if sym.Tier() > 0 {
		k = sym.Choose("key3", len(Keys))
	} else {
		sym.Assume(j == (i+1)%len(Keys) || j == (i+11)%len(Keys))
		if sym.Bool("third") {
			k = j
		}
	}
	v1, a1 := Decl(i, "v1")
	v2, a2 := Decl(j, "v2")
	v3, a3 := Decl(k, "v3")
	m, err := decode(Keys[i] + ":" + v1 + ";" + Keys[j] + ":" + v2 + ";" + Keys[k] + ":" + v3)
	sym.Assert(err == nil, "declarations decode")
	if err != nil {
		return
	}
	got, want := DefaultLike(), DefaultLike()
	m.Mutate(&got)
	a1(&want)
	a2(&want)
	a3(&want)
	sym.Assert(EqStyles(got, want), "sets exactly the named properties, the last one winning")
}

// HSpacing: blanks, line breaks, empty and unknown declarations around three declarations do not matter.
func HSpacing() {
	sp := []string{"", " ", "\n\t "}
	w := func() string { return sp[sym.Choose("space", 3)] }
	f1, f2, f3 := Num("w"), Num("h"), Num("w2")
	a, b, c := w(), w(), w()
	txt := a + "width" + b + ":" + c + sym.FloatText(f1) + b + ";" + c + "h-align:" + a + "right" + c + ";" + b + "height " + a + ": " + sym.FloatText(f2)
	if sym.Bool("unknown") {
		txt = "unknown: x;" + txt + ";nothing:1"
	}
	if sym.Bool("again") {
		txt += ";" + a + "width" + c + ":" + sym.FloatText(f3)
		f1 = f3
	}
	txt += []string{"", ";", " ; ", ";;"}[sym.Choose("end", 4)]
	m, err := decode(txt)
	sym.Assert(err == nil, "declarations decode")
	if err != nil {
		return
	}
	got, want := DefaultLike(), DefaultLike()
	m.Mutate(&got)
	want.Width, want.Height, want.HAlign = f1, f2, "right"
	sym.Assert(EqStyles(got, want), "spacing does not matter")
}

// HBad: errors and ignored keys.
func HBad() {
	k := sym.Choose("key", len(Keys))
	key := Keys[k]
	bad := ""
	isWord := false
	switch key {
	case "font-family", "font-style", "font-weight", "font-decoration", "h-align", "v-align":
		isWord = true
	}
	switch sym.Choose("case", 8) {
	case 0:
		bad = key
	case 1:
		bad = key + ":1:2"
	case 2:
		if isWord {
			return
		}
		bad = key + ":"
	case 3:
		if isWord {
			return
		}
		bad = key + ":abcxyz"
	case 4:
		if isWord {
			return
		}
		bad = key + ": -"
	case 5:
		if isWord {
			return
		}
		bad = key + ": 1;;" + key + ": x1"
	case 6:
		switch key {
		case "border", "padding", "margin":
			bad = key + ": 1,2,3"
		default:
			return
		}
	case 7:
		v := []string{"NaN", "nan", "inf", "-Inf", "+inf", "Infinity", "1e999"}[sym.Choose("value", 7)]
		switch key {
		case "padding", "margin":
			l := []string{"1", "2", "3", "4"}
			l[sym.Choose("side", 4)] = v
			v = strings.Join(l, ",")
		default:
			if isWord {
				return
			}
		}
		bad = key + ":" + v
	}
	txt := bad
	switch sym.Choose("ctx", 3) {
	case 1:
		txt = "unknown:1;" + bad + ";"
	case 2:
		txt = bad + "; offset-x : 3"
		if key == "offset-x" {
			return
		}
	}
	_, err := decode(txt)
	sym.Assert(err != nil, "invalid declaration is an error")
}

func isDigit(c byte) bool { return sym.And(c >= '0', c <= '9') }

// HValue: short symbolic values of a length property; the oracle is a hand-written decimal grammar.
func HValue() {
	n := sym.Choose("len", 4)
	v := sym.Str("v", n, "019.-+a ")
	key := []string{"width", "line-width", "column-width"}[sym.Choose("key", 3)]
	m, err := decode(key + ":" + v)
	t := strings.Trim(v, " ")
	// sign? (digits [. digits*] | . digits+)
	i := 0
	if i < len(t) && (t[i] == '-' || t[i] == '+') {
		i++
	}
	digits, dots := 0, 0
	ok := true
	for ; i < len(t); i++ {
		switch {
		case t[i] >= '0' && t[i] <= '9':
			digits++
		case t[i] == '.':
			dots++
		default:
			ok = false
		}
	}
	ok = ok && digits > 0 && dots <= 1
	sym.Assert((err == nil) == ok, "length accepted exactly when it is a number")
	if err == nil {
		s := style.Styles{}
		m.Mutate(&s)
		sym.ObserveF("w", s.Width+s.LineWidth+s.ColumnWidth)
	}
}
