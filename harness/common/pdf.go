package common

import (
	"strconv"
	"strings"

	"github.com/mazzegi/xpdf/zzverif/sym"
)

// PDFOp is one thing painted on a page of a PDF, in points from the bottom left corner.
type PDFOp struct {
	Kind       string // "text", "rect", "line", "image"
	S          string // text
	X, Y, W, H float64
	X1, Y1     float64 // end of a line
	Size       float64
	Font       string
	Fill, Draw [3]float64
	LW         float64
}

// PDFPage is a page as painted.
type PDFPage struct {
	Ops []PDFOp
}

// PDFDoc is an uncompressed PDF.
type PDFDoc struct {
	Pages []PDFPage
	W, H  float64 // media box
	Count string
}

// fields splits at blanks outside of parentheses.
func fields(s string) []string {
	var r []string
	cur, depth := "", 0
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '\\' && depth > 0 && i+1 < len(s):
			cur += s[i : i+2]
			i++
		case c == '(':
			if depth == 0 && cur != "" {
				r = append(r, cur)
				cur = ""
			}
			depth++
			cur += "("
		case c == ')':
			depth--
			cur += ")"
			if depth == 0 {
				r = append(r, cur)
				cur = ""
			}
		case c == ' ' && depth == 0:
			if cur != "" {
				r = append(r, cur)
				cur = ""
			}
		default:
			cur += s[i : i+1]
		}
	}
	if cur != "" {
		r = append(r, cur)
	}
	return r
}

func unescape(s string) string {
	r := ""
	for i := 1; i < len(s)-1; i++ {
		if s[i] == '\\' {
			i++
			if s[i] == 'r' {
				r += "\r"
				continue
			}
		}
		r += s[i : i+1]
	}
	return r
}

func pdfNum(s string) float64 {
	f, err := strconv.ParseFloat(s, 64)
	sym.Assert(err == nil, "operands are numbers")
	return f
}

type gstate struct {
	fill, draw [3]float64
	lw, size   float64
	font       string
	cm         [4]float64
}

// ParsePDF reads what is painted on the pages.
func ParsePDF(s string) PDFDoc {
	var d PDFDoc
	base := map[string]string{} // object number to font
	name := map[string]string{} // resource name to object number
	page := map[string]bool{}   // object numbers of page contents
	in, skip := false, false
	obj := ""
	var g gstate
	var stack []gstate
	var x, y float64
	for _, ln := range strings.Split(s, "\n") {
		switch {
		case ln == "stream" && !page[obj]:
			skip = true
			continue
		case skip:
			skip = ln != "endstream"
			continue
		case ln == "stream":
			in = true
			d.Pages = append(d.Pages, PDFPage{})
			g = gstate{lw: 1}
			stack = nil
			continue
		case ln == "endstream":
			in = false
			continue
		case !in:
			f := fields(ln)
			if len(f) == 3 && f[2] == "obj" {
				obj = f[0]
			}
			if len(f) == 4 && f[0] == "/Contents" {
				page[f[1]] = true
			}
			if len(f) == 2 && f[0] == "/BaseFont" {
				base[obj] = f[1]
			}
			if len(f) == 4 && strings.HasPrefix(f[0], "/F") && f[3] == "R" {
				name[f[0]] = f[1]
			}
			if len(f) == 2 && f[0] == "/Count" {
				d.Count = f[1]
			}
			if len(f) == 5 && f[0] == "/MediaBox" {
				d.W, d.H = pdfNum(f[3]), pdfNum(strings.TrimSuffix(f[4], "]"))
			}
			continue
		}
		ops := &d.Pages[len(d.Pages)-1].Ops
		var st []string
		pop := func(n int) []string {
			ok := len(st) >= n
			sym.Assert(ok, "operators have their operands")
			sym.Assume(ok)
			r := st[len(st)-n:]
			st = nil
			return r
		}
		for _, t := range fields(ln) {
			switch t {
			case "q":
				stack = append(stack, g)
			case "Q":
				if len(stack) > 0 {
					g = stack[len(stack)-1]
					stack = stack[:len(stack)-1]
				}
			case "w":
				g.lw = pdfNum(pop(1)[0])
			case "G", "g":
				v := pdfNum(pop(1)[0])
				if t == "G" {
					g.draw = [3]float64{v, v, v}
				} else {
					g.fill = [3]float64{v, v, v}
				}
			case "RG", "rg":
				v := pop(3)
				c := [3]float64{pdfNum(v[0]), pdfNum(v[1]), pdfNum(v[2])}
				if t == "RG" {
					g.draw = c
				} else {
					g.fill = c
				}
			case "Tf":
				v := pop(2)
				g.font, g.size = v[0], pdfNum(v[1])
			case "Td":
				v := pop(2)
				x, y = pdfNum(v[0]), pdfNum(v[1])
			case "Tj":
				*ops = append(*ops, PDFOp{Kind: "text", S: unescape(pop(1)[0]), X: x, Y: y, Size: g.size, Font: g.font, Fill: g.fill})
			case "re":
				v := pop(4)
				*ops = append(*ops, PDFOp{Kind: "rect", X: pdfNum(v[0]), Y: pdfNum(v[1]), W: pdfNum(v[2]), H: pdfNum(v[3]), Fill: g.fill, Draw: g.draw, LW: g.lw})
			case "f", "S", "B", "n":
				k := len(*ops) - 1
				for k >= 0 && (*ops)[k].Kind == "line" && (*ops)[k].S == "" {
					(*ops)[k].S = t
					k--
				}
				if k >= 0 && (*ops)[k].Kind == "rect" && (*ops)[k].S == "" {
					(*ops)[k].S = t
				}
			case "m":
				v := pop(2)
				x, y = pdfNum(v[0]), pdfNum(v[1])
			case "l":
				v := pop(2)
				x1, y1 := pdfNum(v[0]), pdfNum(v[1])
				*ops = append(*ops, PDFOp{Kind: "line", X: x, Y: y, X1: x1, Y1: y1, Draw: g.draw, LW: g.lw})
				x, y = x1, y1
			case "cm":
				v := pop(6)
				g.cm = [4]float64{pdfNum(v[4]), pdfNum(v[5]), pdfNum(v[0]), pdfNum(v[3])}
			case "Do":
				*ops = append(*ops, PDFOp{Kind: "image", X: g.cm[0], Y: g.cm[1], W: g.cm[2], H: g.cm[3], S: pop(1)[0]})
			case "BT", "ET":
				st = nil
			case "J", "j":
				pop(1)
			default:
				st = append(st, t)
			}
		}
	}
	for i := range d.Pages {
		for k := range d.Pages[i].Ops {
			op := &d.Pages[i].Ops[k]
			if op.Kind == "text" {
				op.Font = base[name[op.Font]]
			}
		}
	}
	return d
}
