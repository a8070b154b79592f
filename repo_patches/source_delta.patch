From 5803a6b8edc5a3583b43c5693651f5b4b85f7dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:13 +0000
Subject: [PATCH 01/23] fix: hyphenate without losing single letters or cutting
 multi-byte characters

---
 hyphenation/hyphenation.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/hyphenation/hyphenation.go b/hyphenation/hyphenation.go
index bea782f..b89e202 100644
--- a/hyphenation/hyphenation.go
+++ b/hyphenation/hyphenation.go
@@ -63,22 +63,24 @@ func (h *Hyphenator) Hyphenate(s string) []string {
 		}
 	}
 
+	//patterns match runes, but parts are cut from the bytes
+	offsets := make([]int, 0, len(s))
+	for offset := range s {
+		offsets = append(offsets, offset)
+	}
+
 	sl := []string{}
 	var last int
 	//skip first and last for the dots (.).
 	//skip next to first and prev. to last for start and end of word
 	for i, w := range ws[2 : len(ws)-2] {
 		if w%2 == 1 {
-			part := s[last : i+1]
-			if len(part) > 1 {
-				sl = append(sl, part)
+			//don't split off single runes
+			if i+1-last > 1 && len(offsets)-(i+1) > 1 {
+				sl = append(sl, s[offsets[last]:offsets[i+1]])
 				last = i + 1
 			}
 		}
 	}
-	part := s[last:]
-	if len(part) > 1 {
-		sl = append(sl, part)
-	}
-	return sl
+	return append(sl, s[offsets[last]:])
 }
-- 
2.43.0


From 07e76950b8961b9eb175b12cb1bf3dd308182e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 02/23] fix: report read errors when loading hyphenation
 patterns

---
 hyphenation/pattern.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyphenation/pattern.go b/hyphenation/pattern.go
index afc59b7..208cee9 100644
--- a/hyphenation/pattern.go
+++ b/hyphenation/pattern.go
@@ -92,5 +92,8 @@ func parsePatterns(r io.Reader) (*patternLookup, error) {
 		}
 		pl.patterns[string(p.Letters)] = p
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, errors.Wrap(err, "scan patterns")
+	}
 	return pl, nil
 }
-- 
2.43.0


From e680d8779623841a5429a91811628acefbaf891e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:16 +0000
Subject: [PATCH 03/23] fix: describe the left margin with its own value

---
 xdoc/describe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xdoc/describe.go b/xdoc/describe.go
index 21d6fce..3d44d56 100644
--- a/xdoc/describe.go
+++ b/xdoc/describe.go
@@ -123,7 +123,7 @@ func (desc *Description) describeMargins(margins Margins) []DescribeItem {
 	return []DescribeItem{
 		{
 			Name:  "left",
-			Value: margins.Right,
+			Value: margins.Left,
 		},
 		{
 			Name:  "top",
-- 
2.43.0


From 7f099bbcf97e6b4d334d87b7600d716b2f7e9a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:17 +0000
Subject: [PATCH 04/23] fix: do not leak element fonts into the current styles

---
 text-hyph.go | 6 +++---
 text.go      | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/text-hyph.go b/text-hyph.go
index e43ad4d..bfd0f47 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -59,7 +59,7 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 			continue
 		}
 
-		p.changeFont(isitem.sty.Font)
+		p.engine.ChangeFont(isitem.sty.Font)
 		words := p.words(isitem.text)
 		for _, word := range words {
 			item := &textItem{
@@ -123,14 +123,14 @@ func (p *Processor) writeTextHyphenated(iss []xdoc.Instruction, width float64, s
 		spaceCnt := len(line.items) - 1
 		if spaceCnt < 1 || line.paragraph {
 			for _, item := range line.items {
-				p.changeFont(item.sty.Font)
+				p.engine.ChangeFont(item.sty.Font)
 				p.engine.WriteText(item.text)
 			}
 		} else {
 			//subtract another 0.1 to avoid page breaks on equal widths
 			spaceWidth := (width - 0.1 - line.pureTextWidth) / float64(spaceCnt)
 			for _, item := range line.items {
-				p.changeFont(item.sty.Font)
+				p.engine.ChangeFont(item.sty.Font)
 				p.engine.WriteText(strings.Trim(item.text, " "))
 				cx, _ := p.engine.GetXY()
 				p.engine.SetX(cx + spaceWidth)
diff --git a/text.go b/text.go
index 773dd4d..7e24019 100644
--- a/text.go
+++ b/text.go
@@ -54,7 +54,7 @@ func (p *Processor) textLines(iss []xdoc.Instruction, width float64, sty style.S
 			continue
 		}
 
-		p.changeFont(isitem.sty.Font)
+		p.engine.ChangeFont(isitem.sty.Font)
 		words := p.words(isitem.text)
 		for _, word := range words {
 			item := &textItem{
@@ -103,7 +103,7 @@ func (p *Processor) writeText(iss []xdoc.Instruction, width float64, sty style.S
 			p.engine.SetX(xLeft + width - line.width)
 		}
 		for _, item := range line.items {
-			p.changeFont(item.sty.Font)
+			p.engine.ChangeFont(item.sty.Font)
 			p.engine.WriteText(item.text)
 		}
 		p.engine.LineFeed(sty.LineSpacing)
-- 
2.43.0


From fe21e25abb551d51d3bd10156fcf0b9884693e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:32 +0000
Subject: [PATCH 05/23] fix: write paragraphs with their own text color

---
 text-hyph.go | 2 ++
 text.go      | 1 +
 2 files changed, 3 insertions(+)

diff --git a/text-hyph.go b/text-hyph.go
index bfd0f47..7709e71 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -124,6 +124,7 @@ func (p *Processor) writeTextHyphenated(iss []xdoc.Instruction, width float64, s
 		if spaceCnt < 1 || line.paragraph {
 			for _, item := range line.items {
 				p.engine.ChangeFont(item.sty.Font)
+				p.engine.SetTextColor(item.sty.Text.Values())
 				p.engine.WriteText(item.text)
 			}
 		} else {
@@ -131,6 +132,7 @@ func (p *Processor) writeTextHyphenated(iss []xdoc.Instruction, width float64, s
 			spaceWidth := (width - 0.1 - line.pureTextWidth) / float64(spaceCnt)
 			for _, item := range line.items {
 				p.engine.ChangeFont(item.sty.Font)
+				p.engine.SetTextColor(item.sty.Text.Values())
 				p.engine.WriteText(strings.Trim(item.text, " "))
 				cx, _ := p.engine.GetXY()
 				p.engine.SetX(cx + spaceWidth)
diff --git a/text.go b/text.go
index 7e24019..a7cdd2f 100644
--- a/text.go
+++ b/text.go
@@ -104,6 +104,7 @@ func (p *Processor) writeText(iss []xdoc.Instruction, width float64, sty style.S
 		}
 		for _, item := range line.items {
 			p.engine.ChangeFont(item.sty.Font)
+			p.engine.SetTextColor(item.sty.Text.Values())
 			p.engine.WriteText(item.text)
 		}
 		p.engine.LineFeed(sty.LineSpacing)
-- 
2.43.0


From 99ca641639b2fde7dfebd1c40aafad094d17e067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:33 +0000
Subject: [PATCH 06/23] fix: don't stretch the line ended by a line break

---
 text-hyph.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/text-hyph.go b/text-hyph.go
index 7709e71..d835e28 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -38,10 +38,7 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 		var isitem *textItem
 		switch is := is.(type) {
 		case *xdoc.LineBreak:
-			if len(lines) > 0 {
-				lines[len(lines)-1].paragraph = true
-			}
-
+			curr.paragraph = true
 			lines = append(lines, curr)
 			curr = textLine{}
 			continue
-- 
2.43.0


From f102d00d3634455c1acb5ad1b8df319acce450f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:34 +0000
Subject: [PATCH 07/23] fix: don't take white space between paragraphs for
 words of justified text

---
 text-hyph.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/text-hyph.go b/text-hyph.go
index d835e28..43c7d5b 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -55,6 +55,9 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 		default:
 			continue
 		}
+		if isitem.text == "" {
+			continue
+		}
 
 		p.engine.ChangeFont(isitem.sty.Font)
 		words := p.words(isitem.text)
-- 
2.43.0


From 33b1565dc9cbff0519a8c9a237eae74ddb1842d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 08/23] fix: predict text heights from the fonts the lines are
 written with

---
 text-hyph.go |  6 ++----
 text.go      | 34 ++++++++++++++++++++++++++++++----
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/text-hyph.go b/text-hyph.go
index 43c7d5b..938d382 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -107,10 +107,7 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 
 func (p *Processor) textHeightHyphenated(iss []xdoc.Instruction, width float64, sty style.Styles) float64 {
 	p.engine.ChangeFont(sty.Font)
-	lines := p.textLinesHyphenated(iss, width, sty)
-	lineHeight := p.engine.FontHeight() * sty.Dimension.LineSpacing
-	//subtract line-spacing, to have no space below the last line
-	return float64(len(lines))*lineHeight - lineHeight + p.engine.FontHeight()
+	return p.linesHeight(p.textLinesHyphenated(iss, width, sty), sty)
 }
 
 func (p *Processor) writeTextHyphenated(iss []xdoc.Instruction, width float64, sty style.Styles) {
@@ -138,6 +135,7 @@ func (p *Processor) writeTextHyphenated(iss []xdoc.Instruction, width float64, s
 				p.engine.SetX(cx + spaceWidth)
 			}
 		}
+		p.changeLineFont(line, sty)
 		p.engine.LineFeed(sty.LineSpacing)
 	}
 }
diff --git a/text.go b/text.go
index a7cdd2f..6f95009 100644
--- a/text.go
+++ b/text.go
@@ -82,10 +82,35 @@ func (p *Processor) textLines(iss []xdoc.Instruction, width float64, sty style.S
 
 func (p *Processor) textHeight(iss []xdoc.Instruction, width float64, sty style.Styles) float64 {
 	p.engine.ChangeFont(sty.Font)
-	lines := p.textLines(iss, width, sty)
-	lineHeight := p.engine.FontHeight() * sty.Dimension.LineSpacing
-	//subtract line-spacing, to have no space below the last line
-	return float64(len(lines))*lineHeight - lineHeight + p.engine.FontHeight()
+	return p.linesHeight(p.textLines(iss, width, sty), sty)
+}
+
+// changeLineFont selects the highest font of the line, which determines the height of the line
+func (p *Processor) changeLineFont(line textLine, sty style.Styles) {
+	fnt := sty.Font
+	var max float64
+	for _, item := range line.items {
+		p.engine.ChangeFont(item.sty.Font)
+		if h := p.engine.FontHeight(); h > max {
+			max = h
+			fnt = item.sty.Font
+		}
+	}
+	p.engine.ChangeFont(fnt)
+}
+
+func (p *Processor) linesHeight(lines []textLine, sty style.Styles) float64 {
+	var height float64
+	for i, line := range lines {
+		p.changeLineFont(line, sty)
+		if i < len(lines)-1 {
+			height += p.engine.FontHeight() * sty.Dimension.LineSpacing
+		} else {
+			//no line-spacing, to have no space below the last line
+			height += p.engine.FontHeight()
+		}
+	}
+	return height
 }
 
 func (p *Processor) writeText(iss []xdoc.Instruction, width float64, sty style.Styles) {
@@ -107,6 +132,7 @@ func (p *Processor) writeText(iss []xdoc.Instruction, width float64, sty style.S
 			p.engine.SetTextColor(item.sty.Text.Values())
 			p.engine.WriteText(item.text)
 		}
+		p.changeLineFont(line, sty)
 		p.engine.LineFeed(sty.LineSpacing)
 	}
 }
-- 
2.43.0


From fa54863ebe84b15a5e527a0e25ed1972f244da32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:59 +0000
Subject: [PATCH 09/23] fix: keep font changes of header and footer out of the
 body

---
 process.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/process.go b/process.go
index b523714..060dbf6 100644
--- a/process.go
+++ b/process.go
@@ -52,20 +52,24 @@ func (p *Processor) Process(w io.Writer) error {
 	p.engine.SetPageCountAlias("{np}")
 	p.engine.OnHeader(func() {
 		x, y := p.engine.GetXY()
+		styles := p.currStyles
 		p.preventPageBreak = true
 		defer func() {
 			p.engine.SetX(x)
 			p.engine.SetY(y)
+			p.currStyles = styles
 			p.preventPageBreak = false
 		}()
 		p.processInstructions(p.doc.Header)
 	})
 	p.engine.OnFooter(func() {
 		x, y := p.engine.GetXY()
+		styles := p.currStyles
 		p.preventPageBreak = true
 		defer func() {
 			p.engine.SetX(x)
 			p.engine.SetY(y)
+			p.currStyles = styles
 			p.preventPageBreak = false
 		}()
 		p.processInstructions(p.doc.Footer)
-- 
2.43.0


From c13f46fb332863f4679cf5df17c8954b3b7b98b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:00 +0000
Subject: [PATCH 10/23] fix: ignore page breaks in header and footer

---
 process.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/process.go b/process.go
index 060dbf6..a1c7a7e 100644
--- a/process.go
+++ b/process.go
@@ -143,7 +143,9 @@ func (p *Processor) processInstructions(is xdoc.Instructions) {
 		case *xdoc.Grid:
 			p.renderGrid(i, p.page().printableArea)
 		case *xdoc.PageBreak:
-			p.engine.AddPage()
+			if !p.preventPageBreak {
+				p.engine.AddPage()
+			}
 		}
 	}
 }
-- 
2.43.0


From b50c5aab678188ec81aca3decd1102d6d768f015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:01 +0000
Subject: [PATCH 11/23] fix: consider padding and offset of a box for its page
 break

---
 process.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/process.go b/process.go
index a1c7a7e..e294c7f 100644
--- a/process.go
+++ b/process.go
@@ -197,7 +197,8 @@ func (p *Processor) renderTextBox(box *xdoc.Box, pa PrintableArea) {
 	x0, y0 := p.engine.GetXY()
 	_, _, _, bm := p.engine.Margins()
 	effHeight := p.engine.PageHeight() - bm
-	if !p.preventPageBreak && y0+height >= effHeight {
+	fullHeight := sty.Dimension.OffsetY + height + sty.Box.Padding.Top + sty.Box.Padding.Bottom
+	if !p.preventPageBreak && y0+fullHeight >= effHeight {
 		p.engine.AddPage()
 		x0, y0 = p.engine.GetXY()
 	}
-- 
2.43.0


From a74aac02ec95775ce1edd174d561a0eb7051c1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:02 +0000
Subject: [PATCH 12/23] fix: align justified cell text by its own height

---
 table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/table.go b/table.go
index 7f9a8eb..3fb063e 100644
--- a/table.go
+++ b/table.go
@@ -401,7 +401,7 @@ func (p *Processor) renderCell(pa PrintableArea, cell *tableCell) {
 
 	paddedPa := pa.WithPadding(cell.Padding)
 	if len(cell.iss) > 0 {
-		textHeight := p.textHeight(cell.iss, paddedPa.Width(), cell.Styles)
+		textHeight := p.textHeightFnc(cell.Styles)(cell.iss, paddedPa.Width(), cell.Styles)
 		textMargin := paddedPa.Height() - textHeight
 		switch cell.VAlign {
 		case style.VAlignMiddle:
-- 
2.43.0


From 899982cd4d4f348958ae203527b055d1f2107cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:25 +0000
Subject: [PATCH 13/23] fix: start every box and image of a cell at the padded
 left edge

---
 table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/table.go b/table.go
index 3fb063e..aeac895 100644
--- a/table.go
+++ b/table.go
@@ -416,8 +416,8 @@ func (p *Processor) renderCell(pa PrintableArea, cell *tableCell) {
 		p.writeTextFnc(cell.Styles)(cell.iss, pa.Width()-cell.Padding.Left-cell.Padding.Right, cell.Styles)
 	}
 
-	p.engine.SetX(paddedPa.x0)
 	for _, is := range cell.iss {
+		p.engine.SetX(paddedPa.x0)
 		switch is := is.(type) {
 		case *xdoc.Box:
 			height := p.textBoxHeight(is, paddedPa)
-- 
2.43.0


From a4b5a3d48281bab2397eba61bf1bb34c2bb94d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:26 +0000
Subject: [PATCH 14/23] fix: align boxes in cells by the room they leave

---
 process.go | 2 +-
 table.go   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/process.go b/process.go
index e294c7f..4c50df1 100644
--- a/process.go
+++ b/process.go
@@ -175,7 +175,7 @@ func (p *Processor) textBoxHeight(box *xdoc.Box, pa PrintableArea) float64 {
 	} else {
 		height = sty.Dimension.Height
 	}
-	return height
+	return height + sty.Padding.Top + sty.Padding.Bottom
 }
 
 func (p *Processor) renderTextBox(box *xdoc.Box, pa PrintableArea) {
diff --git a/table.go b/table.go
index aeac895..81f82d0 100644
--- a/table.go
+++ b/table.go
@@ -420,12 +420,12 @@ func (p *Processor) renderCell(pa PrintableArea, cell *tableCell) {
 		p.engine.SetX(paddedPa.x0)
 		switch is := is.(type) {
 		case *xdoc.Box:
-			height := p.textBoxHeight(is, paddedPa)
+			boxMargin := paddedPa.Height() - p.textBoxHeight(is, paddedPa)
 			switch cell.VAlign {
 			case style.VAlignMiddle:
-				p.engine.SetY(paddedPa.y0 + height/2)
+				p.engine.SetY(paddedPa.y0 + boxMargin/2)
 			case style.VAlignBottom:
-				p.engine.SetY(paddedPa.y0 + height)
+				p.engine.SetY(paddedPa.y0 + boxMargin)
 			default: //style.VAlignTop:
 				p.engine.SetY(paddedPa.y0)
 			}
-- 
2.43.0


From 329226d6c41bd301db089aa928860dd87a89a4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:27 +0000
Subject: [PATCH 15/23] fix: don't break pages inside a table row

---
 table.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/table.go b/table.go
index 81f82d0..7b798c0 100644
--- a/table.go
+++ b/table.go
@@ -397,6 +397,11 @@ func (p *Processor) renderTable(xtab *xdoc.Table) {
 }
 
 func (p *Processor) renderCell(pa PrintableArea, cell *tableCell) {
+	//a box in a cell must not start a page in the middle of a row
+	prevent := p.preventPageBreak
+	p.preventPageBreak = true
+	defer func() { p.preventPageBreak = prevent }()
+
 	p.drawBox(pa.x0, pa.y0, pa.x1, pa.y1, cell.Styles)
 
 	paddedPa := pa.WithPadding(cell.Padding)
-- 
2.43.0


From 254ce27aeca73295e6ca97f14938c0c7fab20c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:28 +0000
Subject: [PATCH 16/23] fix: reserve the places of cells spanning rows in all
 their columns

---
 table.go | 73 ++++++++++++++++++++++++++++++++------------------------
 1 file changed, 42 insertions(+), 31 deletions(-)

diff --git a/table.go b/table.go
index 7b798c0..610607e 100644
--- a/table.go
+++ b/table.go
@@ -191,42 +191,53 @@ func (t *table) processColumnSpans() {
 }
 
 func (t *table) processRowSpans() {
-	for ir, row := range t.rows {
-		for ic, cell := range row.cells {
-			if cell.rowSpan <= 1 {
-				continue
+	//places taken by cells spanning down from above, by row and column
+	taken := map[int]map[int]*tableCell{}
+	take := func(ir, ic int, cell *tableCell) {
+		if taken[ir] == nil {
+			taken[ir] = map[int]*tableCell{}
+		}
+		taken[ir][ic] = cell
+	}
+
+	for ir := 0; ir < len(t.rows); ir++ {
+		row := t.rows[ir]
+		newCells := []*tableCell{}
+		//appends cells spanning down until there is a free place
+		appendTaken := func() {
+			for c, ok := taken[ir][len(newCells)]; ok; c, ok = taken[ir][len(newCells)] {
+				delete(taken[ir], len(newCells))
+				newCells = append(newCells, c)
 			}
-			if cell.spannedBy != nil || cell.zero {
-				continue
+		}
+		for _, cell := range row.cells {
+			owner := cell
+			if cell.spannedBy != nil {
+				owner = cell.spannedBy
+				delete(taken[ir], len(newCells))
+			} else {
+				appendTaken()
 			}
-			//insert spanned cell in following rows
-			for n := 0; n < cell.rowSpan-1; n++ {
-				spannedRowIdx := ir + 1 + n
-
-				var spannedRow *tableRow
-				if spannedRowIdx >= len(t.rows) {
-					spannedRow = &tableRow{}
-					t.rows = append(t.rows, spannedRow)
-				} else {
-					spannedRow = t.rows[spannedRowIdx]
-				}
-				for ic > len(spannedRow.cells) {
-					spannedRow.cells = append(spannedRow.cells, &tableCell{
-						zero: true,
-					})
+			for n := 1; n < cell.rowSpan; n++ {
+				spannedCell := &tableCell{
+					spannedBy: owner,
 				}
-
-				newCell := &tableCell{
-					spannedBy: cell,
+				take(ir+n, len(newCells), spannedCell)
+				if owner == cell {
+					cell.spansRows = append(cell.spansRows, spannedCell)
 				}
-				cell.spansRows = append(cell.spansRows, newCell)
-
-				newCells := make([]*tableCell, ic)
-				copy(newCells, spannedRow.cells[:ic])
-				newCells = append(newCells, newCell)
-				newCells = append(newCells, spannedRow.cells[ic:]...)
-				spannedRow.cells = newCells
 			}
+			newCells = append(newCells, cell)
+		}
+		//append cells spanning down right of a short row
+		for appendTaken(); len(taken[ir]) > 0; appendTaken() {
+			newCells = append(newCells, &tableCell{
+				zero: true,
+			})
+		}
+		row.cells = newCells
+		if ir == len(t.rows)-1 && len(taken[ir+1]) > 0 {
+			t.rows = append(t.rows, &tableRow{})
 		}
 	}
 }
-- 
2.43.0


From 479aaf29f023ed2bb636b0c33be11fb49a8a0dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 17/23] fix: don't drop invalid instructions in table cells and
 grids silently

---
 xdoc/grid.go     | 10 ++++++++--
 xdoc/registry.go |  6 ++++++
 xdoc/table.go    |  5 ++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/xdoc/grid.go b/xdoc/grid.go
index d0b9aa2..fe97ec7 100644
--- a/xdoc/grid.go
+++ b/xdoc/grid.go
@@ -61,9 +61,12 @@ func (g *Grid) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 				return g.Validate()
 			}
 		case xml.StartElement:
+			if !registry.Contains(t.Name.Local) {
+				continue
+			}
 			i, err := registry.DecodeInstruction(d, t)
 			if err != nil {
-				continue
+				return err
 			}
 			switch i := i.(type) {
 			case *GridPart:
@@ -117,9 +120,12 @@ func (p *GridPart) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 				return nil
 			}
 		case xml.StartElement:
+			if !registry.Contains(t.Name.Local) {
+				continue
+			}
 			i, err := registry.DecodeInstruction(d, t)
 			if err != nil {
-				continue
+				return err
 			}
 			p.Instructions.ISS = append(p.Instructions.ISS, i)
 		}
diff --git a/xdoc/registry.go b/xdoc/registry.go
index da8391d..80beb63 100644
--- a/xdoc/registry.go
+++ b/xdoc/registry.go
@@ -65,6 +65,12 @@ func (r *Registry) RegisterInstruction(prototype Instruction) error {
 	return nil
 }
 
+// Contains tells whether elements of this name are instructions
+func (r *Registry) Contains(name string) bool {
+	_, contains := r.instructions[name]
+	return contains
+}
+
 func (r *Registry) DecodeInstruction(d *xml.Decoder, start xml.StartElement) (Instruction, error) {
 	proto, contains := r.instructions[start.Name.Local]
 	if !contains {
diff --git a/xdoc/table.go b/xdoc/table.go
index a280462..adab92e 100644
--- a/xdoc/table.go
+++ b/xdoc/table.go
@@ -124,9 +124,12 @@ func (cell *TableCell) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 				return nil
 			}
 		case xml.StartElement:
+			if !registry.Contains(t.Name.Local) {
+				continue
+			}
 			i, err := registry.DecodeInstruction(d, t)
 			if err != nil {
-				continue
+				return err
 			}
 			cell.Instructions.ISS = append(cell.Instructions.ISS, i)
 		case xml.CharData:
-- 
2.43.0


From 2f86e34a591baa3ac388dea1f97ac9425c70abfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:12 +0000
Subject: [PATCH 18/23] fix: don't panic writing characters beyond the basic
 multilingual plane in a registered font

---
 engine/fpdf.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/engine/fpdf.go b/engine/fpdf.go
index c24e082..4185588 100644
--- a/engine/fpdf.go
+++ b/engine/fpdf.go
@@ -3,6 +3,8 @@ package engine
 import (
 	"io"
 	"io/ioutil"
+	"strings"
+	"unicode/utf8"
 
 	"github.com/jung-kurt/gofpdf/v2"
 	"github.com/mazzegi/xpdf/font"
@@ -80,10 +82,25 @@ func NewFPDF(fonts *font.Registry, doc *xdoc.Document) (*FPDF, error) {
 
 	//TODO: make code-page for unicode translator an option (per font?)
 	//e.translateUnicode = e.pdf.UnicodeTranslatorFromDescriptor("")
-	e.translateUnicode = func(s string) string { return s }
+	e.translateUnicode = replaceBeyondBMP
 	return e, nil
 }
 
+// replaceBeyondBMP replaces characters beyond the basic multilingual plane, which gofpdf cannot
+// write (it looks up their widths out of range), by the replacement character.
+func replaceBeyondBMP(s string) string {
+	beyond := func(r rune) bool { return r > 0xFFFF }
+	if strings.IndexFunc(s, beyond) < 0 {
+		return s
+	}
+	return strings.Map(func(r rune) rune {
+		if beyond(r) {
+			return utf8.RuneError
+		}
+		return r
+	}, s)
+}
+
 func (e *FPDF) initFonts(fonts *font.Registry) error {
 	if fonts.MonoFont() != "" {
 		e.monoFont = fonts.MonoFont()
-- 
2.43.0


From 2d169a749a97fcdb5f8b6937d181f2c9551cb533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:27 +0000
Subject: [PATCH 19/23] fix: describe style differences in a fixed order

---
 xdoc/diff.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/xdoc/diff.go b/xdoc/diff.go
index 64be1a6..3a83182 100644
--- a/xdoc/diff.go
+++ b/xdoc/diff.go
@@ -2,6 +2,7 @@ package xdoc
 
 import (
 	"encoding/json"
+	"sort"
 
 	"github.com/mazzegi/xpdf/style"
 	"github.com/pkg/errors"
@@ -30,7 +31,14 @@ func interfaceDiff(path string, org interface{}, mod interface{}) ([]Diff, error
 	diffs := []Diff{}
 	switch org := org.(type) {
 	case map[string]interface{}:
-		for orgKey, orgVal := range org {
+		orgKeys := make([]string, 0, len(org))
+		for orgKey := range org {
+			orgKeys = append(orgKeys, orgKey)
+		}
+		// the order of the diffs must not depend on the iteration order of the map
+		sort.Strings(orgKeys)
+		for _, orgKey := range orgKeys {
+			orgVal := org[orgKey]
 			modMSI, ok := mod.(map[string]interface{})
 			if !ok {
 				return nil, errors.Errorf("%s: org value is map-string-iface. mod is %T", path, mod)
-- 
2.43.0


From 1b069a223de964f98f59a370bb9b992c917155f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:35 +0000
Subject: [PATCH 20/23] fix: don't merge words at line breaks and double blanks
 in descriptions

---
 xdoc/describe.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/xdoc/describe.go b/xdoc/describe.go
index 3d44d56..41c1688 100644
--- a/xdoc/describe.go
+++ b/xdoc/describe.go
@@ -7,12 +7,11 @@ import (
 	"strings"
 
 	"github.com/mazzegi/xpdf/style"
+	"github.com/mazzegi/xpdf/text"
 )
 
 func clearStr(s string) string {
-	s = strings.ReplaceAll(s, "\n", "")
-	s = strings.ReplaceAll(s, "  ", "")
-	return strings.Trim(s, " ")
+	return text.WhitespaceRectified(s)
 }
 
 type DescribeItem struct {
-- 
2.43.0


From da0f0e3b71ce3ad5cf6a764fe2253205af4cdcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:07 +0000
Subject: [PATCH 21/23] fix: negative line feeds go up

---
 engine/fpdf.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/engine/fpdf.go b/engine/fpdf.go
index 4185588..26ba1a5 100644
--- a/engine/fpdf.go
+++ b/engine/fpdf.go
@@ -3,6 +3,7 @@ package engine
 import (
 	"io"
 	"io/ioutil"
+	"math"
 	"strings"
 	"unicode/utf8"
 
@@ -174,6 +175,11 @@ func (e *FPDF) GetXY() (float64, float64) {
 
 func (e *FPDF) LineFeed(lines float64) {
 	_, heightMM := e.pdf.GetFontSize()
+	if lines < 0 {
+		//Ln takes a negative height for the one of the last printed cell
+		e.pdf.SetY(math.Max(0, e.pdf.GetY()+heightMM*lines))
+		return
+	}
 	e.pdf.Ln(heightMM * lines)
 }
 
@@ -227,7 +233,7 @@ func (e *FPDF) WriteText(s string) {
 	e.pdf.Write(heightMM, e.translateUnicode(s))
 }
 
-//drawing
+// drawing
 func (e *FPDF) SetLineWidth(w float64) {
 	e.pdf.SetLineWidth(w)
 }
-- 
2.43.0


From 85d40469a7ca1116c3e28cab3fd3a3f59cd351c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:18 +0000
Subject: [PATCH 22/23] fix: reject style values that are no finite numbers

---
 style/box.go    |  6 ++++++
 style/decode.go | 14 ++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/style/box.go b/style/box.go
index 22bf403..e4bbaf1 100644
--- a/style/box.go
+++ b/style/box.go
@@ -47,6 +47,9 @@ func (b *Padding) UnmarshalStyle(v string) error {
 	if err != nil {
 		return errors.Wrapf(err, "scan padding value (%s)", v)
 	}
+	if err := checkFinite(b.Left, b.Top, b.Right, b.Bottom); err != nil {
+		return errors.Wrapf(err, "scan padding value (%s)", v)
+	}
 	return nil
 }
 
@@ -55,5 +58,8 @@ func (b *Margin) UnmarshalStyle(v string) error {
 	if err != nil {
 		return errors.Wrapf(err, "scan margin value (%s)", v)
 	}
+	if err := checkFinite(b.Left, b.Top, b.Right, b.Bottom); err != nil {
+		return errors.Wrapf(err, "scan margin value (%s)", v)
+	}
 	return nil
 }
diff --git a/style/decode.go b/style/decode.go
index 8d178c7..017b9b9 100644
--- a/style/decode.go
+++ b/style/decode.go
@@ -3,6 +3,7 @@ package style
 import (
 	"io"
 	"io/ioutil"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
@@ -136,6 +137,9 @@ func makeSetValueFnc(kind reflect.Kind, styleValue string) (func(v reflect.Value
 		if err != nil {
 			return nil, errors.Wrapf(err, "parse-float (%s)", styleValue)
 		}
+		if err := checkFinite(f); err != nil {
+			return nil, errors.Wrapf(err, "parse-float (%s)", styleValue)
+		}
 		return func(v reflect.Value) {
 			v.SetFloat(f)
 		}, nil
@@ -160,6 +164,16 @@ func makeSetValueFnc(kind reflect.Kind, styleValue string) (func(v reflect.Value
 	}
 }
 
+// checkFinite rejects values which are parsed as numbers, but can neither be drawn nor described
+func checkFinite(fs ...float64) error {
+	for _, f := range fs {
+		if math.IsNaN(f) || math.IsInf(f, 0) {
+			return errors.Errorf("not a finite number (%v)", f)
+		}
+	}
+	return nil
+}
+
 func appendedCopy(sl []int, a int) []int {
 	c := make([]int, len(sl)+1)
 	for i, v := range sl {
-- 
2.43.0


From 586a6369bef14a9c2b83ec2ab80e1e7a6d3614ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:38 +0000
Subject: [PATCH 23/23] fix: reject coordinates, line counts and margins that
 are no finite numbers

---
 xdoc/doc.go          |  4 ++++
 xdoc/instructions.go | 23 +++++++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/xdoc/doc.go b/xdoc/doc.go
index 2f6dc4e..175c80a 100644
--- a/xdoc/doc.go
+++ b/xdoc/doc.go
@@ -16,6 +16,10 @@ func Load(r io.Reader) (*Document, error) {
 	if err != nil {
 		return nil, err
 	}
+	m := doc.Page.Margins
+	if err := checkFinite(m.Left, m.Top, m.Right, m.Bottom); err != nil {
+		return nil, errors.Wrap(err, "page margins")
+	}
 	doc.styleClasses, err = style.DecodeClasses(bytes.NewBufferString(doc.Style))
 	if err != nil {
 		return nil, err
diff --git a/xdoc/instructions.go b/xdoc/instructions.go
index 0439702..e7e1bd9 100644
--- a/xdoc/instructions.go
+++ b/xdoc/instructions.go
@@ -2,6 +2,7 @@ package xdoc
 
 import (
 	"encoding/xml"
+	"math"
 
 	"github.com/mazzegi/xpdf/style"
 	"github.com/pkg/errors"
@@ -61,18 +62,40 @@ type LineFeed struct {
 	Lines   float64  `xml:"lines,attr"`
 }
 
+func (i *LineFeed) DecodeAttrs(attrs []xml.Attr) error {
+	return checkFinite(i.Lines)
+}
+
 type SetX struct {
 	NoStyles
 	XMLName xml.Name `xml:"setx"`
 	X       float64  `xml:"x,attr"`
 }
 
+func (i *SetX) DecodeAttrs(attrs []xml.Attr) error {
+	return checkFinite(i.X)
+}
+
 type SetY struct {
 	NoStyles
 	XMLName xml.Name `xml:"sety"`
 	Y       float64  `xml:"y,attr"`
 }
 
+func (i *SetY) DecodeAttrs(attrs []xml.Attr) error {
+	return checkFinite(i.Y)
+}
+
+// checkFinite rejects values which are parsed as numbers, but are no positions or lengths
+func checkFinite(fs ...float64) error {
+	for _, f := range fs {
+		if math.IsNaN(f) || math.IsInf(f, 0) {
+			return errors.Errorf("not a finite number (%v)", f)
+		}
+	}
+	return nil
+}
+
 type Box struct {
 	Styled
 	XMLName xml.Name `xml:"box"`
-- 
2.43.0

