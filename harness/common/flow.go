package common

import (
	"strings"

	"github.com/mazzegi/xpdf/style"
	"github.com/mazzegi/xpdf/zzverif/sym"
)

// Word is a word of a generated text. All letters of a text are different.
type Word struct {
	Text  string
	Break int      // line breaks before the word
	Size  float64  // points, of bold words of the regular font as wide
	Parts []string // what the hyphenator divides it into
}

// Flow is a generated flowing text in a font of 8 points.
type Flow struct {
	XML   string
	Words []Word
	Tail  int // line breaks after the last word
	eng   *Eng
	next  int
	br    int
}

const letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"

// FlowOpt says what a text is made of.
type FlowOpt struct {
	Children, Words int
	Kinds           int  // kinds of children: 4 without, 5 with line breaks
	Big             bool // some paragraphs have a font of 16 points
	Divisible       bool // words of several parts
	Parts           int  // 2: words of one or three parts, 3: of one, two or three parts
	Box             int  // 0: text element, 1: box, 2: either
	Block           bool // one block of text, no other children
}

// HyphenPatterns divide the words of a divisible text: a part ends after every even letter of the alphabet.
func HyphenPatterns() string {
	s := ""
	for i := 1; i+1 < 26; i += 2 {
		s += letters[i:i+1] + "1" + letters[i+1:i+2] + "\n"
	}
	return s
}

func (f *Flow) letter(w float64) string {
	c := letters[f.next]
	f.next++
	f.eng.CharW[c] = w
	return string(c)
}

func (f *Flow) word(o FlowOpt, size float64) string {
	w := Word{Break: f.br, Size: size}
	f.br = 0
	k := 0
	if o.Divisible {
		k = sym.Choose("parts", o.Parts)
		if o.Parts == 2 {
			k *= 2
		}
	}
	if k == 0 {
		s := f.letter(sym.Float("w", 0.5, 100, 3))
		if len(f.Words)%2 == 1 {
			s += f.letter(1)
		}
		if f.next%2 == 1 {
			f.next++ // parts start at even letters
		}
		w.Parts = []string{s}
	} else {
		for i := 0; i <= k; i++ {
			w.Parts = append(w.Parts, f.letter(sym.Float("w", 0.5, 100, 3))+f.letter(1))
		}
	}
	w.Text = strings.Join(w.Parts, "")
	f.Words = append(f.Words, w)
	return w.Text
}

// NewFlow makes up to o.Children children holding up to o.Words words.
func NewFlow(e *Eng, o FlowOpt) *Flow {
	f := &Flow{eng: e}
	e.CharW[' '] = sym.Float("blank", 0.5, 4, 3)
	if o.Divisible {
		e.CharW['-'] = sym.Float("hyphen", 0.5, 4, 3)
	}
	if o.Block {
		for len(f.Words) < o.Words {
			f.XML += f.word(o, 8) + " "
		}
		return f
	}
	for i := 0; i < o.Children && len(f.Words) < o.Words; i++ {
		k := sym.Choose("child", o.Kinds)
		if k < 4 && k%2 == 1 && len(f.Words)+2 > o.Words {
			continue
		}
		switch k {
		case 0:
			f.XML += "\n" + f.word(o, 8) + " "
		case 1:
			f.XML += " " + f.word(o, 8) + "\n\t " + f.word(o, 8) + "\r\n"
		case 2:
			f.XML += `<p style="text-color:#ff0000"> ` + f.word(o, 8) + "</p>\n  "
		case 3:
			if o.Big {
				f.XML += `<p style="font-point-size:16">` + f.word(o, 16) + " " + f.word(o, 16) + "</p>"
			} else {
				f.XML += `<p style="font-weight:bold">` + f.word(o, 10) + " " + f.word(o, 10) + "</p>"
			}
		case 4:
			f.XML += "<br/>"
			f.br++
		}
	}
	f.Tail = f.br
	return f
}

func (f *Flow) width(s string, size float64) float64 {
	return f.eng.WidthOf(s, style.Font{PointSize: size})
}

// lines pairs the non-empty lines with the numbers of the words starting on them; ok tells that all words
// came once, in order and separated by single blanks.
func (f *Flow) lines(evs []Ev) (lines []Line, first []int, ok bool) {
	var got []string
	clean := true
	for _, l := range LinesOf(evs) {
		if l.Text == "" {
			continue
		}
		ws := strings.Split(l.Text, " ")
		for _, w := range ws {
			clean = clean && w != ""
		}
		lines = append(lines, l)
		first = append(first, len(got))
		got = append(got, ws...)
		sym.ObserveS("line", l.Text)
	}
	var want []string
	for _, w := range f.Words {
		want = append(want, w.Text)
	}
	sym.Assert(clean, "words of a line are separated by exactly one blank")
	same := strings.Join(got, "|") == strings.Join(want, "|")
	sym.Assert(same, "every word exactly once and in order")
	return lines, first, clean && same
}

// CheckLossless: every word once and in order, single blanks between the words of a line, breaks start lines.
// Lines are lh apart, the first one is at y0; several breaks in a row make empty lines.
func (f *Flow) CheckLossless(evs []Ev, y0, lh float64) {
	lines, first, ok := f.lines(evs)
	if !ok {
		return
	}
	starts := map[int]bool{}
	for _, i := range first {
		starts[i] = true
	}
	for i, w := range f.Words {
		if w.Break > 0 {
			sym.Assert(starts[i], "a line break starts a new line")
		}
	}
	prevY := y0
	for i, l := range lines {
		breaks := float64(f.Words[first[i]].Break)
		sym.Assert(sym.Leq(breaks*lh, l.Y-prevY), "every line break starts a new line")
		prevY = l.Y
	}
	if len(lines) > 1 {
		sym.Reach("several lines")
	}
}

// CheckFit: lines of several words fit, are filled and nothing but breaks and too wide words leaves lines empty.
// y0 is the height of the first line, lh the distance of lines.
func (f *Flow) CheckFit(evs []Ev, avail, y0, lh float64) {
	lines, first, ok := f.lines(evs)
	if !ok {
		return
	}
	blank := f.eng.CharW[' ']
	prevY := y0 - lh
	for i, l := range lines {
		end := len(f.Words)
		if i+1 < len(lines) {
			end = first[i+1]
		}
		ws := f.Words[first[i]:end]
		sum := -blank * (ws[0].Size / 8)
		for _, w := range ws {
			sum += f.width(w.Text, w.Size) + blank*(w.Size/8)
		}
		if len(ws) > 1 {
			sym.Assert(sym.Leq(sum, avail), "a line of several words fits")
			sym.Reach("several words")
		}
		if end < len(f.Words) && f.Words[end].Break == 0 {
			n := f.Words[end]
			sym.Assert(sym.Leq(avail, sum+blank*(n.Size/8)+f.width(n.Text, n.Size)+blank*(ws[0].Size/8)), "a line ends only before a word that does not fit")
			sym.Reach("filled line")
		}
		if lh == 0 {
			continue
		}
		// empty lines
		feeds := (l.Y - prevY) / lh
		min, max := float64(ws[0].Break), float64(ws[0].Break)
		if i == 0 {
			min, max = min+1, max+1
		} else if min == 0 {
			min, max = 1, 1
		}
		tooWide := sym.Not(sym.Leq(f.width(ws[0].Text, ws[0].Size)+blank*(ws[0].Size/8), avail-1e-3))
		sym.Assert(sym.Leq(min, feeds), "line breaks feed lines")
		sym.Assert(sym.Or(sym.Leq(feeds, max), sym.And(tooWide, sym.Leq(feeds, max+1))), "empty lines come from line breaks or too wide words")
		prevY = l.Y
	}
}

// CheckAlign: lines stand where the alignment puts them. x0 is the left edge.
func (f *Flow) CheckAlign(evs []Ev, align string, x0, avail float64) {
	lines, first, ok := f.lines(evs)
	if !ok {
		return
	}
	for i, l := range lines {
		w0 := f.Words[first[i]]
		blank := f.eng.CharW[' '] * (w0.Size / 8)
		left, right := l.X0-x0, x0+avail-l.X1
		switch align {
		case "left":
			sym.Assert(sym.Near(left, 0), "left aligned lines start at the left edge")
		case "right":
			sym.Assert(sym.And(sym.Leq(right, blank), sym.Leq(-blank, right)), "right aligned lines end at the right edge")
		case "center":
			sym.Assert(sym.And(sym.Leq(right-left, blank), sym.Leq(-blank, right-left)), "centred lines have equal room on both sides")
		}
		single := i+1 == len(lines) && first[i]+1 == len(f.Words) || i+1 < len(lines) && first[i]+1 == first[i+1]
		wide := sym.And(single, sym.Not(sym.Leq(f.width(w0.Text, w0.Size)+blank, avail)))
		sym.Assert(sym.Or(wide, sym.And(sym.Leq(0, left), sym.Leq(0, right))), "no line leaves the element")
		x := l.X0
		for _, it := range l.Items {
			sym.Assert(sym.Near(it.X, x), "a line is written without gaps")
			x += it.W
		}
	}
}

// token is a word or a part of one as written.
type token struct {
	text   string
	x0, x1 float64
	word   int // number of the word
	from   int // offset in the word
	full   bool
	size   float64
}

type jline struct {
	toks []token
	y    float64
}

// justified takes written lines apart; ok tells that nothing was lost, added, doubled or divided at a wrong place.
func (f *Flow) justified(evs []Ev) (lines []jline, ok bool) {
	word, off := 0, 0
	ok = true
	all := LinesOf(evs)
	for _, l := range all {
		sym.ObserveS("line", l.Text)
		jl := jline{y: l.Y}
		var toks []token
		for _, it := range l.Items {
			x := it.X
			for rest := it.S; rest != ""; {
				if rest[0] == ' ' {
					x += f.width(" ", Scale(it.Font))
					rest = rest[1:]
					continue
				}
				t := rest
				if i := strings.IndexByte(rest, ' '); i >= 0 {
					t = rest[:i]
				}
				w := f.width(t, Scale(it.Font))
				toks = append(toks, token{text: t, x0: x, x1: x + w, size: Scale(it.Font)})
				x += w
				rest = rest[len(t):]
			}
		}
		for i, t := range toks {
			if word >= len(f.Words) {
				ok = false
				break
			}
			w := f.Words[word]
			t.word, t.from = word, off
			rest := w.Text[off:]
			body := strings.TrimSuffix(t.text, "-")
			switch {
			case t.text == rest:
				t.full = true
				word, off = word+1, 0
			case i == len(toks)-1 && body != t.text && body != "" && len(body) < len(rest) && strings.HasPrefix(rest, body) && f.cutAllowed(w, off+len(body)):
				off += len(body)
				sym.Reach("divided word")
			default:
				ok = false
			}
			jl.toks = append(jl.toks, t)
		}
		if len(jl.toks) > 0 {
			lines = append(lines, jl)
		}
	}
	ok = ok && word == len(f.Words) && off == 0
	sym.Assert(ok, "every character once and in order, hyphens only where a word is divided at a line end")
	return lines, ok
}

func (f *Flow) cutAllowed(w Word, at int) bool {
	n := 0
	for _, p := range w.Parts[:len(w.Parts)-1] {
		n += len(p)
		if n == at {
			return true
		}
	}
	return false
}

// CheckJustifiedLossless: nothing lost or added, words kept apart, breaks start lines.
func (f *Flow) CheckJustifiedLossless(evs []Ev) {
	lines, ok := f.justified(evs)
	if !ok {
		return
	}
	for _, l := range lines {
		for i := 1; i < len(l.toks); i++ {
			sym.Assert(sym.Leq(l.toks[i-1].x1+0.01, l.toks[i].x0), "words of a line are kept apart")
			sym.Assert(f.Words[l.toks[i].word].Break == 0, "a line break starts a new line")
			sym.Assert(l.toks[i].from == 0, "the rest of a divided word starts a line")
		}
	}
}

// CheckJustifiedFit: lines fit and are filled.
func (f *Flow) CheckJustifiedFit(evs []Ev, x0, avail float64) {
	lines, ok := f.justified(evs)
	if !ok {
		return
	}
	blank := f.eng.CharW[' ']
	for i, l := range lines {
		natural := 0.0 // up to the last full word
		n := len(l.toks)
		if n > 1 {
			sym.Assert(sym.Leq(l.toks[n-1].x1, x0+avail), "a line of several words fits")
		}
		full := l.toks
		if !l.toks[n-1].full {
			full = l.toks[:n-1]
		}
		for k, t := range full {
			if k > 0 {
				natural += blank * (t.size / 8)
			}
			natural += t.x1 - t.x0
		}
		if i+1 == len(lines) {
			break
		}
		nx := lines[i+1].toks[0]
		w := f.Words[nx.word]
		if w.Break > 0 && nx.from == 0 {
			continue
		}
		// the next longer part of the word that might have stood on this line
		more := w.Text[nx.from:]
		if len(l.toks) > 0 && !l.toks[n-1].full {
			// the word started on this line at from
			more = f.longer(w, l.toks[n-1].from, nx.from)
		} else if nx.from == 0 {
			more = f.longer(w, 0, 0)
		}
		sep := 0.0
		if len(full) > 0 {
			sep = blank * (w.Size / 8)
		}
		sym.Assert(sym.Leq(avail, natural+sep+f.width(more, w.Size)+blank*2), "a line ends only where nothing more fits")
	}
}

// longer is the shortest text of the word from an offset that reaches beyond the given place, with its hyphen.
func (f *Flow) longer(w Word, from, beyond int) string {
	n := 0
	for i, p := range w.Parts {
		n += len(p)
		if n > beyond {
			if i == len(w.Parts)-1 {
				return w.Text[from:]
			}
			return w.Text[from:n] + "-"
		}
	}
	return w.Text[from:]
}

// CheckJustifiedAlign: lines fill the width with equal gaps, last lines stand at the left edge.
func (f *Flow) CheckJustifiedAlign(evs []Ev, x0, avail float64) {
	lines, ok := f.justified(evs)
	if !ok {
		return
	}
	blank := f.eng.CharW[' ']
	for i, l := range lines {
		n := len(l.toks)
		last := i+1 == len(lines)
		if !last {
			nx := lines[i+1].toks[0]
			last = nx.from == 0 && f.Words[nx.word].Break > 0
		}
		sym.Assert(sym.And(sym.Leq(x0, l.toks[0].x0), sym.Leq(l.toks[0].x0, x0+sym.IteF(n == 1, blank*2, 0))), "lines start at the left edge")
		if n < 2 {
			continue
		}
		if last {
			for k := 1; k < n; k++ {
				sym.Assert(sym.Near(l.toks[k].x0-l.toks[k-1].x1, blank*(l.toks[k].size/8)), "the last line has single blanks")
			}
			sym.Reach("last line")
			continue
		}
		sym.Reach("justified line")
		end := l.toks[n-1].x1
		sym.Assert(sym.And(sym.Leq(end, x0+avail), sym.Leq(x0+avail, end+0.2)), "a justified line fills the width")
		g := l.toks[1].x0 - l.toks[0].x1
		for k := 2; k < n; k++ {
			sym.Assert(sym.Near(l.toks[k].x0-l.toks[k-1].x1, g), "gaps are equal")
		}
	}
}

// JustifiedText, JustifiedBox and JustifiedLong are the texts the justified harnesses use.
func JustifiedText() FlowOpt {
	return FlowOpt{Children: 3, Words: 3, Kinds: 5, Divisible: true, Parts: 2 + sym.Tier()}
}
func JustifiedBox() FlowOpt {
	return FlowOpt{Children: 2 + sym.Tier(), Words: 2 + sym.Tier(), Kinds: 5, Divisible: true, Parts: 2, Box: 1}
}
func JustifiedLong() FlowOpt {
	return FlowOpt{Words: 4 + sym.Tier(), Divisible: true, Parts: 2, Block: true}
}

// Justified makes a document with one block-aligned element; x0 and avail are its left edge and width.
func Justified(e *Eng, o FlowOpt) (f *Flow, txt string, x0, avail float64) {
	f = NewFlow(e, o)
	w := sym.Float("width", 6, 200, 3)
	x := 10.0
	el, pad := "text", ""
	avail, x0 = w, x
	if o.Box == 1 || o.Box == 2 && sym.Bool("box") {
		el, pad = "box", ";padding:1,2,3,4"
		avail, x0 = w-4, x+1
	}
	txt = Doc("", `<setx x="`+sym.FloatText(x)+`"/><`+el+` style="font-point-size:8;line-spacing:2;h-align:block;width:`+sym.FloatText(w)+pad+`">`+f.XML+"</"+el+">")
	return
}

// Many is a long text of words of up to six parts, with bold and bigger words and line breaks; only the width it has is symbolic.
func Many(e *Eng, divisible bool) *Flow {
	f := &Flow{eng: e}
	e.CharW[' '], e.CharW['-'] = 1.25, 0.75
	for i := 0; i < 26; i++ {
		w := 1 + float64(i%7)/8
		e.CharW[letters[i]], e.CharW[letters[26+i]] = w, w+0.5
	}
	add := func(br int, size float64, words string) string {
		for _, t := range strings.Fields(words) {
			w := Word{Text: t, Break: br, Size: size}
			br = 0
			if divisible {
				for t := t; ; t = t[2:] {
					if len(t) <= 2 {
						w.Parts = append(w.Parts, t)
						break
					}
					w.Parts = append(w.Parts, t[:2])
				}
			} else {
				w.Parts = []string{t}
			}
			f.Words = append(f.Words, w)
		}
		return words
	}
	f.XML = add(0, 8, "a Cdefghij ab abcdefghijKL c d ef opqr e g") +
		`<p style="font-weight:bold">` + add(0, 10, "ghij k Klmn abcdefgh m") + "</p>" +
		add(0, 8, " abcdefghIj qrstuvwxYz o AB b\n") + "<br/>" +
		add(1, 8, "st Stuvwx q uvwx c abcdefghijklmnop") + "<br/><br/>" +
		`<p style="font-point-size:16">` + add(2, 16, "abcdef o ab") + "</p>" + add(0, 8, " q rs opqrstuv QR")
	return f
}

// JustifiedMany makes a document of one long block-aligned text.
func JustifiedMany(e *Eng) (f *Flow, txt string, x0, avail float64) {
	f = Many(e, true)
	w := sym.Float("width", 6, 250, 3)
	return f, Doc("", `<text style="font-point-size:8;line-spacing:2;h-align:block;width:`+sym.FloatText(w)+`">`+f.XML+"</text>"), e.L, w
}

var odd = []string{".", ",", ";", ":", "!", "?", "-", "_", "'", `"`, "(", ")", "[", "]", "{", "}", "/", "#", "%", "*", "+", "=", "|", "~", "^", "$", "@", "`", "&amp;", "&lt;", "&gt;", "0", "9", "Z", "ä", "é", "€", "\u00a0", "{}", "{np}", "--", "..."}

// Odd makes a text of words with characters that are no letters at all their places.
func Odd(e *Eng) (xml, want string) {
	c := odd[sym.Choose("char", len(odd))]
	for i := range e.CharW {
		e.CharW[i] = 2
	}
	for i, w := range []string{"c", "ac", "ca", "aca", "cac", "b"} {
		w = strings.ReplaceAll(w, "c", c)
		if i > 0 {
			xml += " "
			want += " "
		}
		xml += w
		want += w
	}
	for _, s := range [][2]string{{"&lt;", "<"}, {"&gt;", ">"}, {"&amp;", "&"}} {
		want = strings.ReplaceAll(want, s[0], s[1])
	}
	return xml, want
}
