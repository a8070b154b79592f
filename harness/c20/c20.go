// Package c20 decides that pattern files load completely or fail.
//
// bounds: pattern texts of up to 2 (thorough 3) lines with blank lines, surrounding blanks and CRLF; patterns of 1..3 letters with symbolic letters and weights; read errors after any byte of a 4-line file delivered in chunks of 1, 3 or all bytes; unreadable weights; HLarge: 6000 patterns, one at 14 places with a symbolic weight; HBuiltin: words made of 288 patterns (with their neighbours) of each of the built-in lists; one line longer than the scanner's buffer
// outside: longer files; all words with the built-in lists
package c20

import (
	"errors"
	"io"
	"strings"

	"github.com/mazzegi/xpdf/hyphenation"
	"github.com/mazzegi/xpdf/zzverif/sym"
)

// faulty delivers the text in chunks and then an error.
type faulty struct {
	txt   string
	pos   int
	end   int // bytes delivered before err
	chunk int
	err   error
	with  bool // deliver the error together with the last bytes
}

func (f *faulty) Read(p []byte) (int, error) {
	if f.pos >= f.end {
		return 0, f.err
	}
	n := f.chunk
	if n > len(p) {
		n = len(p)
	}
	if n > f.end-f.pos {
		n = f.end - f.pos
	}
	copy(p, f.txt[f.pos:f.pos+n])
	f.pos += n
	if f.with && f.pos >= f.end {
		return n, f.err
	}
	return n, nil
}

func HReadError() {
	txt := "a1b\n\n.b2c\nc3d\ndd1\n"
	at := sym.Choose("at", len(txt)+1)
	chunk := []int{1, 3, 100}[sym.Choose("chunk", 3)]
	with := sym.Bool("with")
	fail := sym.Bool("fail")
	f := &faulty{txt: txt, end: at, chunk: chunk, with: with}
	if fail {
		f.err = errors.New("disk failure")
	} else {
		f.err = io.EOF
		f.end = len(txt)
	}
	h, err := hyphenation.Load(f)
	sym.ObserveB("err", err != nil)
	if fail {
		sym.Assert(err != nil, "read error is reported")
		sym.Reach("read error")
	} else {
		sym.Assert(err == nil, "complete file loads")
		if err == nil {
			sym.Assert(len(h.Hyphenate("xabx")) == 2, "first pattern loaded")
			sym.Assert(len(h.Hyphenate("xcdx")) == 2, "third pattern loaded")
			sym.Assert(len(h.Hyphenate("xddxx")) == 2, "last pattern loaded")
		}
	}
}

// HFile: the same from a file, which may be missing.
func HFile() {
	h, err := hyphenation.LoadFromFile(sym.Scratch() + "/missing.pat")
	sym.Assert(err != nil && h == nil, "missing file is an error")
}

// HLayout: every line counts, whatever blank lines, blanks and line ends surround it.
func HLayout() {
	n := 2
	if sym.Tier() > 0 {
		n = 3
	}
	ws := []string{"", " ", "\t", " \t "}
	ends := []string{"\n", "\r\n", "\n\n", "\n \r\n"}
	letters := "abcd"
	txt := ""
	var w []int
	for i := 0; i < n; i++ {
		k := sym.Int("w", 0, 9)
		w = append(w, k)
		lead := ws[sym.Conc(sym.Int("lead", 0, 3))]
		end := ends[sym.Conc(sym.Int("end", 0, 3))]
		if i == n-1 && sym.Bool("noeol") {
			end = ""
		}
		txt += lead + string([]byte{letters[i], '0' + byte(k)}) + lead + end
	}
	h, err := hyphenation.Load(strings.NewReader(txt))
	sym.Assert(err == nil, "patterns load")
	if err != nil {
		return
	}
	for i := 0; i < n; i++ {
		word := "xx" + letters[i:i+1] + "xx"
		parts := h.Hyphenate(word)
		sym.Assert(sym.Iff(w[i]%2 == 1, len(parts) == 2), "every pattern keeps its weight")
		if len(parts) == 2 {
			sym.Assert(parts[0] == word[:3], "weight applies after its letter")
		}
	}
}

// HWeights: a pattern keeps every letter and weight: the weights decide where the word made of its letters divides.
func HWeights() {
	n := 1 + sym.Choose("len", 3)
	letters := sym.Str("l", n, "abc")
	var w []int
	var b []byte
	for i := 0; i <= n; i++ {
		k := sym.Int("w", 0, 9)
		if sym.Bool("written") {
			b = append(b, '0'+byte(k))
		} else {
			sym.Assume(k == 0)
		}
		w = append(w, k)
		if i < n {
			b = append(b, letters[i])
		}
	}
	h, err := hyphenation.Load(strings.NewReader(string(b)))
	sym.Assert(err == nil, "pattern loads")
	if err != nil {
		return
	}
	word := "xxx" + letters + "xxx"
	parts := h.Hyphenate(word)
	// expected divisions, never splitting off a single letter
	var want []string
	last := 0
	for i := 0; i <= n; i++ {
		cut := 3 + i
		if w[i]%2 == 1 && cut-last >= 2 {
			want = append(want, word[last:cut])
			last = cut
		}
	}
	want = append(want, word[last:])
	same := len(want) == len(parts)
	if same {
		for i := range want {
			same = sym.And(same, sym.EqS(want[i], parts[i]))
		}
	}
	sym.Assert(same, "divisions given by the weights")
	if len(want) > 2 {
		sym.Reach("several divisions")
	}
}

// HUnreadable: a line whose weight is no decimal digit is refused, wherever it stands.
func HUnreadable() {
	bad := []string{"a\u0663b", "\u0969ab", "ab\u0661"}[sym.Choose("bad", 3)]
	lines := []string{"a1b", "b1c", "c1d", "d1e", "", "e1f", "1f", "g"}
	lines[sym.Choose("at", len(lines))] = bad
	_, err := hyphenation.Load(strings.NewReader(strings.Join(lines, "\n") + "\n"))
	sym.Assert(err != nil, "unreadable line is reported")
}

// HLongLine: a line that does not fit the scanner's buffer is reported.
func HLongLine() {
	_, err := hyphenation.Load(strings.NewReader("a1b\n" + strings.Repeat("c", 70000) + "\nb1c\n"))
	sym.Assert(err != nil, "over-long line is reported")
}

// HLarge: a file of many patterns, each of which counts.
func HLarge() {
	const n = 6000
	at := []int{0, 1, 255, 256, 999, 1000, 1023, 1024, 2048, 4095, 4096, 4999, 5000, n - 1}[sym.Choose("at", 14)]
	w := sym.Int("w", 0, 9)
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, name(i)...)
		if i == at {
			b = append(b, '0'+byte(w))
		} else {
			b = append(b, '2')
		}
		b = append(b, '\n')
	}
	h, err := hyphenation.Load(strings.NewReader(string(b)))
	sym.Assert(err == nil, "patterns load")
	if err != nil {
		return
	}
	word := "xx" + name(at) + "xx"
	parts := h.Hyphenate(word)
	sym.Assert(sym.Iff(w%2 == 1, len(parts) == 2), "every pattern keeps its weight")
}

// name makes different words of four letters.
func name(i int) string {
	return string([]byte{'a' + byte(i%20), 'a' + byte(i/20%20), 'a' + byte(i/400), 'q'})
}

// HBuiltin: the built-in patterns are all loaded.
func HBuiltin() {
	var h *hyphenation.Hyphenator
	var list string
	if sym.Bool("latin") {
		h, list = hyphenation.NewLatin(), patLatin
	} else {
		h, list = hyphenation.NewEnUs(), patEnUs
	}
	// words made of patterns from all over the list
	lines := strings.Split(strings.TrimSpace(list), "\n")
	k := sym.Choose("part", 24) * (len(lines) - 12) / 23
	weights := map[string]string{}
	for _, l := range lines {
		weights[letters(l)] = l
	}
	for _, l := range lines[k : k+12] {
		l = strings.TrimSpace(l)
		word := "xx" + strings.Trim(letters(l), ".") + "xx"
		if l[0] == '.' {
			word = word[2:]
		}
		if l[len(l)-1] == '.' {
			word = word[:len(word)-2]
		}
		got := strings.Join(h.Hyphenate(word), "-")
		sym.Assert(got == divide(word, weights), "words are divided as the built-in patterns say")
	}
}

// letters of a pattern.
func letters(l string) string {
	r := ""
	for _, c := range strings.TrimSpace(l) {
		if c < '0' || c > '9' {
			r += string(c)
		}
	}
	return r
}

// divide is the rule, written down naively.
func divide(word string, patterns map[string]string) string {
	w := []rune("." + word + ".")
	best := make([]int, len(w)+1)
	for i := range w {
		for j := i + 1; j <= len(w); j++ {
			p, ok := patterns[string(w[i:j])]
			if !ok {
				continue
			}
			at := i
			for _, c := range strings.TrimSpace(p) {
				if c < '0' || c > '9' {
					at++
				} else if int(c-'0') > best[at] {
					best[at] = int(c - '0')
				}
			}
		}
	}
	r := ""
	last := 1
	for i := 1; i < len(w)-1; i++ {
		if best[i]%2 == 1 && i-last > 1 && len(w)-1-i > 1 {
			r += "-"
			last = i
		}
		r += string(w[i])
	}
	if len(word) < 3 {
		return word
	}
	return r
}
