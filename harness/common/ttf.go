package common

// Glyph is a character of a made-up TrueType font.
type Glyph struct {
	Char  int
	Width int // in thousandths of the size
}

func be16(n ...int) []byte {
	b := make([]byte, 0, 2*len(n))
	for _, x := range n {
		b = append(b, byte(x>>8), byte(x))
	}
	return b
}

// Outline is the outline of the i-th glyph of a font, different for each i and mark.
func Outline(i, mark int) []byte {
	b := be16(1, i, mark, i+1, mark+1, 0, 0)
	return append(b, 0x37, byte(i), byte(mark), 0, 0, 0)
}

// TTF makes a TrueType font of the glyphs, ordered by character.
func TTF(gs []Glyph, missing, mark int) []byte {
	n := len(gs) + 1
	var glyf, loca, hmtx []byte
	loca = append(loca, be16(0)...)
	for i := 0; i < n; i++ {
		w := missing
		if i > 0 {
			w = gs[i-1].Width
		}
		hmtx = append(hmtx, be16(w, 0)...)
		glyf = append(glyf, Outline(i, mark)...)
		loca = append(loca, be16(len(glyf)/2)...)
	}
	var end, start, delta, off []byte
	for i, g := range gs {
		end = append(end, be16(g.Char)...)
		start = append(start, be16(g.Char)...)
		delta = append(delta, be16(i+1-g.Char)...)
		off = append(off, be16(0)...)
	}
	end, start, delta, off = append(end, 0xff, 0xff), append(start, 0xff, 0xff), append(delta, 0, 1), append(off, 0, 0)
	sub := append(be16(4, 16+8*n, 0, 2*n, 0, 0, 0), end...)
	sub = append(sub, 0, 0)
	sub = append(append(append(sub, start...), delta...), off...)
	head := make([]byte, 54)
	copy(head, be16(1, 0, 1, 0, 0, 0, 0x5f0f, 0x3cf5, 0, 1000))
	copy(head[36:], be16(0, -200, 1000, 800))
	hhea := make([]byte, 36)
	copy(hhea, be16(1, 0, 800, -200))
	copy(hhea[34:], be16(n))
	maxp := make([]byte, 32)
	copy(maxp, be16(1, 0, n))
	os2 := make([]byte, 78)
	copy(os2, be16(1, 500, 400, 5))
	copy(os2[68:], be16(800, -200, 0))
	post := make([]byte, 32)
	copy(post, be16(3, 0, 0, 0, -100, 50))
	tabs := []struct {
		name string
		data []byte
	}{{"OS/2", os2}, {"cmap", append(be16(0, 1, 3, 1, 0, 12), sub...)}, {"glyf", glyf}, {"head", head}, {"hhea", hhea}, {"hmtx", hmtx},
		{"loca", loca}, {"maxp", maxp}, {"name", be16(0, 0, 6)}, {"post", post}}
	f := be16(1, 0, len(tabs), 128, 3, 32)
	pos := len(f) + 16*len(tabs)
	for _, t := range tabs {
		f = append(f, t.name...)
		f = append(f, be16(0, 0, 0, pos, 0, len(t.data))...)
		pos += (len(t.data) + 3) &^ 3
	}
	for _, t := range tabs {
		f = append(f, t.data...)
		for len(f)%4 != 0 {
			f = append(f, 0)
		}
	}
	return f
}

// FontTable finds a table of a TrueType font.
func FontTable(f []byte, name string) []byte {
	if len(f) < 12 {
		return nil
	}
	n := int(f[4])<<8 + int(f[5])
	for i := 0; i < n && 12+16*i+16 <= len(f); i++ {
		r := f[12+16*i:]
		if string(r[:4]) == name {
			pos := int(r[8])<<24 + int(r[9])<<16 + int(r[10])<<8 + int(r[11])
			l := int(r[12])<<24 + int(r[13])<<16 + int(r[14])<<8 + int(r[15])
			if pos+l <= len(f) {
				return f[pos : pos+l]
			}
		}
	}
	return nil
}
