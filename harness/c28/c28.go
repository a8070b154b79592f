// Package c28 decides what processing a document does and when it succeeds.
//
// bounds: HOrder: bodies of 0 to 4 (thorough 5) instructions out of 9 kinds with symbolic coordinates and line counts, the order, place and number of everything drawn; HFail: an engine failing before, at any page of or while writing such a document; HWriter: an output failing at any write with one of 7 errors, of four documents, empty ones too
// outside: failures of the real PDF library itself
package c28

import (
	"errors"
	"io"

	"github.com/mazzegi/xpdf"
	. "github.com/mazzegi/xpdf/zzverif/common"
	"github.com/mazzegi/xpdf/zzverif/sym"
)

func num(name string, lo, hi float64) float64 { return sym.Float(name, lo, hi, 3) }

const lineH = 12 * PtHeight

// HOrder follows the cursor through a body.
func HOrder() {
	e := NewEng(300, 5000, 10, 20, 30, 40)
	for c := 'a'; c <= 'z'; c++ {
		e.CharW[c] = 3
	}
	type exp struct {
		s    string
		x, y float64
		page int
		kind int
	}
	var want []exp
	x, y, page := e.L, e.T, 1
	body := ""
	next := 0
	mark := func() string {
		s := "abcdefghijklmnopqrstuvwxyz"[next : next+1]
		next++
		want = append(want, exp{s, x, y, page, EvText})
		return s
	}
	fh := lineH
	for i := sym.Choose("n", 5+sym.Tier()); i > 0; i-- {
		switch sym.Choose("instruction", 9) {
		case 0:
			body += "<text>" + mark() + "</text>"
			x, y = e.L, y+fh*1.5
		case 1:
			body += `<box style="height:7">` + mark() + "</box>"
			x, y = e.L, y+7
		case 2:
			body += `<table><tr style="height:9"><td>` + mark() + "</td></tr></table>"
			y += 9
		case 3:
			x = num("x", 0, 200)
			body += `<setx x="` + sym.FloatText(x) + `"/>`
		case 4:
			y = num("y", 20, 1000)
			body += `<sety y="` + sym.FloatText(y) + `"/>`
		case 5:
			l := num("lines", 0, 9)
			body += `<lf lines="` + sym.FloatText(l) + `"/>`
			x, y = e.L, y+fh*l
		case 6:
			body += "<newpage/>"
			x, y = e.L, e.T
			page++
		case 7:
			body += `<font style="font-point-size:16"/>`
			fh = 16 * PtHeight
		case 8:
			body += "\n"
		}
	}
	body += "<text>" + mark() + "</text>"
	Run(e, nil, Doc("", body))
	var got []Ev
	for _, v := range e.Evs {
		if v.Kind == EvText {
			got = append(got, v)
		}
	}
	if len(got) != len(want) {
		sym.Assert(false, "every instruction is executed once")
		return
	}
	for i, w := range want {
		sym.Assert(got[i].S == w.s, "instructions are executed in order")
		sym.Assert(got[i].Page == w.page, "on the page they belong to")
		sym.Assert(sym.And(sym.Near(got[i].X, w.x), sym.Near(got[i].Y, w.y)), "at the cursor the instructions before it left")
	}
	sym.Assert(e.Page == page, "no other pages are started")
	frame(e)
}

// frame: first a page, last a single write.
func frame(e *Eng) {
	sym.Assert(len(e.Evs) > 1 && e.Evs[0].Kind == EvPage, "a page is started before anything is drawn")
	sym.Assert(e.Writes == 1, "the PDF is written once")
	sym.Assert(e.Evs[len(e.Evs)-1].Kind == EvWrite, "the PDF is written at the end")
}

var errEngine = errors.New("engine")
var errWrite = errors.New("write")

// failing is an engine failing at its n-th drawing call, or while writing.
type failing struct {
	*Eng
	at      int
	calls   int
	writing bool
	short   int
}

func (f *failing) tick() {
	if f.calls == f.at {
		f.Eng.Fail = errEngine
	}
	f.calls++
}

func (f *failing) AddPage()           { f.tick(); f.Eng.AddPage() }
func (f *failing) WriteText(s string) { f.tick(); f.Eng.WriteText(s) }
func (f *failing) FillRect(x, y, w, h float64) {
	f.tick()
	f.Eng.FillRect(x, y, w, h)
}
func (f *failing) WritePDF(w io.Writer) error {
	f.Eng.Writes++
	for i := 0; i < 3; i++ {
		if _, err := w.Write([]byte("%PDF")); err != nil {
			return err
		}
	}
	if f.writing {
		f.Eng.Fail = errEngine
	}
	return f.Eng.Fail
}

type out struct {
	at, calls int
	n         int
	err       error
	short     int
}

func (o *out) Write(p []byte) (int, error) {
	o.calls++
	if o.calls == o.at {
		return o.short, o.err
	}
	o.n += len(p)
	return len(p), nil
}

var errs = []error{errWrite, io.EOF, io.ErrShortWrite, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, errors.New("EOF")}

func process(e *failing, o *out, txt string) error {
	return xpdf.NewProcessor(e, nil, Load(txt), "/work").Process(o)
}

const doc = "<document><header><text>h</text></header><footer><text>f</text></footer><body><text>a</text><box>b</box><newpage/><table><tr><td>c</td></tr></table><text>d</text></body></document>"

// HFail: the engine fails at one of its calls, even before the first.
func HFail() {
	e := &failing{Eng: NewEng(300, 5000, 10, 20, 30, 40)}
	e.at = sym.Choose("call", 16) - 1
	o := &out{}
	if e.at < 0 {
		e.Eng.Fail = errEngine
	}
	err := process(e, o, doc)
	if e.Eng.Fail != nil {
		sym.Assert(errors.Is(err, errEngine), "an engine failure is returned")
		sym.Assert(e.Writes == 0 && o.n == 0, "nothing is written after an engine failure")
		sym.Reach("failed")
		return
	}
	sym.Assert(err == nil && e.Writes == 1, "without a failure the document is written")
	sym.Reach("written")
}

// HWriter: the output or the writing fails.
func HWriter() {
	e := &failing{Eng: NewEng(300, 5000, 10, 20, 30, 40), at: -1, writing: sym.Bool("writing")}
	o := &out{at: sym.Choose("write", 5), err: errs[sym.Choose("error", len(errs))], short: 4 * sym.Choose("short", 2)}
	txt := doc
	switch sym.Choose("document", 4) {
	case 1:
		txt = "<document/>"
	case 2:
		txt = "<document><body>\n</body></document>"
	case 3:
		txt = "<document><header><text>h</text></header><body/></document>"
	}
	err := process(e, o, txt)
	sym.Assert(e.Evs[0].Kind == EvPage, "a page is started")
	sym.Assert(e.Writes == 1, "the PDF is written once")
	switch {
	case o.at >= 1 && o.at <= 3:
		sym.Assert(errors.Is(err, o.err), "a failure of the output is returned")
	case e.writing:
		sym.Assert(errors.Is(err, errEngine), "a failure while writing is returned")
	default:
		sym.Assert(err == nil && o.n == 12, "success means everything is written")
	}
}
