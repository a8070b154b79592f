#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that ids, anchors and wording stay in one place).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None,
                   **({"state":[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}))))

T="No existing test renders anything: "
p("C01","Flowing text is written completely, in order and exactly once",
  "Rendering a text element or box that is left-, right- or centre-aligned hands the drawing engine every word of its character data and paragraphs exactly once and in document order. Words of one line are separated by exactly one blank, <br/> always starts a new line, and nothing else is added, whatever the words' widths, fonts and the available width.",
  ["inputs","programs"],"all sequences of text/paragraph/line-break children, all word widths, all available widths, within the stated bounds",
  T+"the only root-package test logs table spans. Which words fall where depends on the widths, so samples cannot settle it.",
  ["text.go","process.go","text/text.go"],[("line building","text.go textLines"),("line writing","text.go writeText")],["engine.WriteText/LineFeed call sequence"])
p("C02","Justified text is written losslessly, hyphens only at line ends",
  "Rendering block-aligned text writes every character of every word exactly once and in order; the only characters ever added are blanks and one hyphen at the end of a line, at a point where the hyphenator allows the word to be divided. No part of a divided word is lost, duplicated or reordered.",
  ["inputs","programs"],"all child sequences, word widths, available widths and hyphenation pattern sets within the stated bounds",
  T+"hyphenation tests only log their result, and no test reaches the justified writer.",
  ["text-hyph.go","hyphenation/hyphenation.go"],[("hyphenating line building","text-hyph.go textLinesHyphenated"),("justified writing","text-hyph.go writeTextHyphenated")],["engine.WriteText call sequence"])
p("C03","Wrapped lines fit the available width and are filled greedily",
  "No line holding more than one word (or word part) extends beyond the width available to its element. A line is only ended before a word or word part when that, with its separating blank, would not fit with a blank's width to spare; lines without words arise only from <br/>, or above a word that is itself wider than the line.",
  ["inputs"],"all word widths and available widths on the stated grid, all child sequences within bounds",
  T+"line fitting is arithmetic over arbitrary glyph widths; no test measures a line.",
  ["text.go","text-hyph.go"],[("fit test","text.go textLines; text-hyph.go textLinesHyphenated/tryHyphenate")],["x position after each engine.WriteText relative to the line start"])
p("C04","Horizontal alignment puts lines where the style says",
  "Left-aligned lines start at the element's left edge; right-aligned lines end at its right edge and centred lines have equal room on both sides, up to the width of one blank; no aligned line leaves the element's horizontal extent unless it is a single word that, with a blank, is wider than it. In justified text every line of several words fills the available width (up to 0.2 mm) with equal gaps between words, except a line ended by <br/> or the end of the text, which stands left with single blanks.",
  ["inputs"],"all word widths, element widths and the four alignments, within bounds",
  T+"alignment is never asserted.",
  ["text.go","text-hyph.go","process.go"],[("x offsets","text.go writeText"),("gap computation","text-hyph.go writeTextHyphenated"),("dispatch","process.go writeTextFnc")],["engine.SetX/WriteText positions"])
p("C05","A box is as large as its style and content demand and encloses its text",
  "A box is drawn as one rectangle at the cursor plus its offset: as wide as the styled width, clipped to the printable width, and as high as its styled height or else the height of its text, plus vertical padding. Its text starts at the padded corner, an automatically sized box encloses all its text lines, and afterwards the cursor is at the box's bottom edge; filling, line width, colours and the four border sides are those of the style.",
  ["inputs","programs"],"all box styles (width, height, padding, offset, border, line width, colours), texts and cursor positions within bounds",
  T+"no test renders a box.",
  ["process.go","draw.go","text.go","dim.go"],[("layout","process.go renderTextBox"),("drawing","draw.go drawBox"),("height prediction","text.go textHeight")],["engine FillRect/MoveTo/LineTo/SetLineWidth/SetDrawColor/SetFillColor/SetY calls"])
p("C06","Boxes break to a new page exactly when they would cross the bottom margin",
  "In the body, a box whose full height fits between the page's top and bottom margins is never drawn across the bottom margin: it is moved to a fresh page first. A box that fits entirely above the bottom margin with room to spare never causes a page break, and at most one page is started per box.",
  ["inputs","histories"],"all cursor positions, box heights, paddings and margins, and sequences of boxes within bounds",
  T+"nothing paginates in the tests.",
  ["process.go"],[("break test","process.go renderTextBox")],["engine.AddPage calls and drawn rectangles"])
p("C07","Table cells occupy disjoint colspan x rowspan regions in document order",
  "Every cell of a table is drawn exactly once (apart from repeated header rows) as one rectangle covering exactly its colspan columns and rowspan rows, at the first column of its row not taken by a preceding cell or by a cell spanning down from above. For tables whose spans do not claim the same place twice, drawn cells never overlap, and spans running past the last row or short rows neither drop nor shift other cells.",
  ["inputs","programs"],"all combinations of row lengths, colspan and rowspan values within bounds",
  "TestTableSpans builds nine span layouts but asserts nothing, it only logs them; overlap is a property of every combination.",
  ["table.go"],[("column spans","table.go processColumnSpans"),("row spans","table.go processRowSpans"),("normalisation","table.go normalize"),("extent","table.go tableCell.dim")],["rectangles passed to engine.FillRect"])
p("C08","Table columns are consistent and share the table width",
  "All cells of one column have the same width in every row: the largest column-width any cell of the column asks for, and otherwise an equal share of the width the fixed columns leave. When at least one column is automatic and the fixed ones fit, the columns fill exactly the table's styled width clipped to the printable width; columns are laid side by side from the cursor without gap or overlap.",
  ["inputs"],"all column-width assignments, table widths and page geometries within bounds",
  T+"TestTableSpans stops before widths are assigned.",
  ["table.go","dim.go"],[("width assignment","table.go assignColumnWidths"),("clipping","dim.go Page.EffectiveWidth")],["rectangles passed to engine.FillRect"])
p("C09","Table rows are high enough for their cells and stack without gap",
  "Every row is at least as high as each of its cells demands (the styled height, or the height of the cell's wrapped text plus vertical padding; a cell spanning rows demands it of the spanned rows together), all cells of a row share its top and height, a row no cell of which spans rows is exactly as high as its most demanding cell, and each row starts where the previous one ends. After the table the cursor is at the bottom of the last row.",
  ["inputs","programs"],"all cell texts, word widths, paddings, heights and spans within bounds",
  T+"row heights are never computed in tests.",
  ["table.go","text.go"],[("cell demand","table.go assignCellMinHeight"),("row height","table.go assignHeights"),("stacking","table.go renderTable")],["rectangles passed to engine.FillRect, engine.SetY after the table"])
p("C10","Tables paginate between rows and repeat their header rows",
  "In the body no table row that fits on a page together with the repeated header is drawn across the bottom of the printable area; every row is drawn exactly once, in order. After a page break inside the table the first repeatheader rows are drawn again, in order, at the top of the new page before the next row, and header rows are not left alone at the bottom of a page when header and first row fit on a fresh one.",
  ["inputs","histories"],"all row heights, start positions, page heights and repeatheader counts within bounds",
  T+"pagination depends on arbitrary heights and positions.",
  ["table.go"],[("table start test, row test, header repetition","table.go renderTable")],["engine.AddPage calls and rectangles"])
p("C11","Headers and footers cannot disturb the body",
  "On every page the header and footer instructions are run exactly once; when they finish, the cursor is back where it was and the body continues with the styles it had before. Nothing in a header or footer starts a page, whatever its content and height.",
  ["inputs","histories","programs"],"all header/footer/body instruction sequences within bounds, page breaks at any point of the body",
  T+"no test renders a header.",
  ["process.go","table.go"],[("callbacks","process.go Process OnHeader/OnFooter"),("break suppression","process.go preventPageBreak, renderTextBox; table.go renderTable")],["engine call sequence during AddPage"],
  [("preventPageBreak","set while a header or footer runs","process.go")])
p("C12","An element's style applies to that element only",
  "The font and text colour with which text is written are those of the innermost element holding it: defaults, overlaid by the last <font>, the element's own style and a paragraph's style. Once an element is finished its style leaves no trace in any sibling or following element; only <font> changes what follows it, and only its font.",
  ["programs","histories"],"all sequences of text, box, paragraph, table and font elements with arbitrary styles within bounds",
  T+"scoping is about sequences of elements; tests decode single styles only.",
  ["process.go","text.go","text-hyph.go","table.go"],[("scoping","process.go resetStyles/changeFont"),("style computation","xdoc/style.go MutatedStyles")],["font/colour in force at every engine.WriteText"],
  [("currStyles","style every element starts from","process.go")])
p("C13","Styles cascade: inherited, then classes in order, then inline style",
  "The effective style of an element is the inherited style overlaid by its classes in the order listed (unknown names ignored) and finally by its inline style, each overriding only the properties it names. Row and cell selector rules (first-row, last-row, first-cell, last-cell) replace the plain class rules exactly at those positions when the class defines them, and computing a style never alters the inherited one or any other element's.",
  ["inputs","programs"],"all class lists, class definitions and inline styles within bounds, with arbitrary property values",
  "TestClasses samples one or two concrete class lists; precedence quantifies over all combinations.",
  ["xdoc/style.go","style/class.go","style/decode.go","table.go"],[("overlay","xdoc/style.go MutatedStyles/MutatedStylesWithSelector"),("class application","style/class.go Classes.Mutate/MutateWithSelector"),("selectors","table.go transformTable")],["resulting style.Styles; style used for drawn cells"])
p("C14","A style declaration sets exactly the properties it names",
  "Decoding a list of key:value declarations and applying it sets each named property to the given value, the last one winning when a key repeats, and leaves every other property unchanged, independent of declaration order, spacing and internal iteration order. Unknown keys are ignored; a declaration without exactly one colon or with a value that does not parse for its property (numbers that are not finite included) is an error.",
  ["inputs","schedules"],"all subsets and orders of the known keys with arbitrary values, arbitrary blanks, all map iteration orders, within bounds",
  "TestMutate decodes three fixed phrases; map iteration order is not under test control.",
  ["style/decode.go","style/box.go"],[("parsing","style/decode.go parseRaw"),("field lookup","style/decode.go makeMutateFnc/makeSetValueFnc"),("composite values","style/box.go UnmarshalStyle")],["style.Styles after Mutate, error of DecodeMutator"])
p("C15","Colours decode exactly",
  "A colour value of six hexadecimal digits, with or without a leading '#', in either case, yields exactly the three byte components it spells. Every other string is rejected with an error and changes nothing.",
  ["inputs"],"all byte strings up to the stated length","no test decodes a colour; the space of strings is not sampled",
  ["style/color.go"],[("decoder","style/color.go RGB.UnmarshalStyle")],["RGB value and error"])
p("C16","Style sheets decode into exactly the classes they define",
  "Decoding a style sheet yields one class per name{...} rule, a later rule of a name replacing the earlier one, and attaches each name:selector{...} rule to its class. A selector rule before its class, a rule without a name, an unclosed brace or a body with an invalid declaration is an error; line breaks, tabs and blanks around names, braces, declarations and their separators do not matter.",
  ["inputs"],"all rule sequences within bounds, arbitrary white space","TestClasses covers two sheets",
  ["style/class.go"],[("decoder","style/class.go DecodeClasses")],["effect of Classes.Mutate/MutateWithSelector, error"])
p("C17","White space is normalised without touching anything else",
  "Normalising a text replaces every run of blanks, tabs and line breaks by one blank, drops it at both ends and next to a backslash, keeps every other character in order, and is idempotent; it terminates for every input. Removing twins leaves no doubled occurrence and changes nothing but runs of the given twin.",
  ["inputs"],"all byte strings up to the stated length over any alphabet","eleven fixed strings are tested; the claim is for every string",
  ["text/text.go"],[("normalisation","text/text.go WhitespaceRectified"),("twin removal","text/text.go RemoveTwins")],["returned string"])
p("C18","Hyphenation is lossless and never cuts a character",
  "For every word and every pattern set the parts returned by the hyphenator, joined, are the word itself; no part is empty, and none starts or ends inside a multi-byte character. Texts with blanks, words shorter than three bytes or longer than 100 bytes come back undivided.",
  ["inputs","configurations"],"all words (any bytes) and pattern sets up to the stated sizes","the hyphenation tests only log",
  ["hyphenation/hyphenation.go"],[("splitting","hyphenation/hyphenation.go Hyphenate")],["returned parts"])
p("C19","Words are divided exactly where the patterns allow it",
  "A word is divided between two letters exactly when the largest weight any matching pattern assigns to that position is odd, patterns matching case-insensitively anywhere in the word with '.' standing for its ends; going from left to right, no division ever leaves a single letter before or after it. The result depends only on the word and the pattern set, not on the order of the patterns nor on what was divided before.",
  ["inputs","configurations"],"all words and pattern sets within the stated sizes, compared with an independent reference","no expected division is asserted in any test",
  ["hyphenation/hyphenation.go","hyphenation/pattern.go"],[("weighting","hyphenation/hyphenation.go Hyphenate"),("pattern parsing","hyphenation/pattern.go parsePattern")],["returned parts"])
p("C20","Hyphenation patterns load completely or fail visibly",
  "Loading a pattern file takes one pattern per non-blank line, each keeping all its letters and the weight written between each pair of them (0 when none is written). A read error, wherever in the file it strikes, or a line that cannot be read is reported as an error instead of yielding a hyphenator with a part of the patterns. The hyphenators made of the built-in lists (English and Latin) have all the patterns of these lists.",
  ["inputs","fault_sequences"],"all pattern texts within bounds; a read error after any prefix","TestParse logs two patterns; no test injects a read error",
  ["hyphenation/pattern.go","hyphenation/hyphenation.go"],[("line scan","hyphenation/pattern.go parsePatterns"),("pattern parser","hyphenation/pattern.go parsePattern")],["error of Load, divisions made by the loaded hyphenator"])
p("C21","Loading a document keeps all its content in document order",
  "Loading a document yields, for header, footer and body and for every box, text and table cell inside them, exactly one instruction per child element and one text block per stretch of character data, in document order, and for tables all rows and cells in order. Elements in a table cell that are no instructions are left out, while what they hold stays in the cell. Element attributes and values (coordinates, line counts, spans, header repetition, sources, classes, styles) arrive unchanged.",
  ["inputs","programs"],"all element trees within bounds with arbitrary numeric attributes and text bytes","no test loads a document",
  ["xdoc/doc.go","xdoc/instructions.go","xdoc/table.go","xdoc/grid.go","xdoc/registry.go"],[("instruction decoding","xdoc/instructions.go Instructions.UnmarshalXML, xdoc/table.go UnmarshalXML"),("dispatch","xdoc/registry.go DecodeInstruction")],["xdoc.Document returned by Load"])
p("C22","Invalid documents are rejected, not half loaded",
  "A header, footer, body, box or text holding an element that is not an instruction, a non-numeric (or not finite) numeric attribute or margin, a repeatheader outside 0..10, an invalid inline style or an invalid style sheet makes loading fail with an error and yield no document. Input that ends before the document is closed fails as well, wherever it ends.",
  ["inputs","fault_sequences","crash_points"],"all positions of the fault within bounds, all truncation points, arbitrary attribute values","no test loads a document, valid or not",
  ["xdoc/doc.go","xdoc/instructions.go","xdoc/table.go","xdoc/registry.go","xdoc/style.go"],[("error propagation","xdoc/instructions.go UnmarshalXML, xdoc/registry.go DecodeInstruction"),("range check","xdoc/table.go Table.DecodeAttrs")],["error returned by xdoc.Load"])
p("C23","Describe reports the document as it is",
  "The description of a document lists its metadata, page orientation, format and the four margins with the document's own values, and for header, footer and body one item per instruction in document order with that instruction's value (texts with their white space normalised), nested items for boxes, texts, tables and grids. The style differences listed for an element are exactly the properties its classes and inline style change from the empty style, with old and new value.",
  ["inputs","programs"],"all page values and instruction trees within bounds, arbitrary style values","TestDiff logs one diff and asserts nothing",
  ["xdoc/describe.go","xdoc/diff.go"],[("describing","xdoc/describe.go Describe"),("diffing","xdoc/diff.go stylesDiff")],["xdoc.Description"])
p("C24","Images keep their proportions and never exceed the area",
  "An image is placed at the cursor plus its offset with the styled size; when only one dimension is styled the other follows the picture's aspect ratio, and without either the size is its pixel size at 96 dpi. The result is scaled down, keeping proportions, until it fits the printable area less the offset, and never scaled up; an unreadable picture draws nothing and does not stop the document.",
  ["inputs"],"all pixel sizes, styled sizes, offsets and areas within bounds","no test renders an image",
  ["image.go"],[("sizing","image.go renderImage"),("dimensions","image.go ImageDescriptor.WidthMm/HeightMm")],["engine.PutImage arguments"])
p("C25","Relative resources are resolved against their base directory",
  "A relative image path in a document is read from, and handed to the engine as, the cleaned join of the processor's working directory and that path; an absolute one is used as it is. Font files named in a font definition file are resolved the same way against that file's own directory, each style of each font is registered exactly once, in file order, and iteration stops at the first error.",
  ["inputs"],"all path strings up to the stated length, all font definition shapes within bounds","no test touches paths or fonts",
  ["process.go","image.go","font/definition.go","font/registry.go"],[("image path","process.go resolveFile"),("font path","font/definition.go LoadRegistryFromFile"),("iteration","font/registry.go Registry.Each")],["path given to engine.PutImage; descriptors visited by Registry.Each"])
p("C26","The page is set up as the document says",
  "The engine made for a document has the paper size of its format and orientation (A4 when the format is unknown, portrait when the orientation is), the document's four margins, and a printable area lying inside them: starting at the left and top margin, ending at the bottom margin and 2 mm inside the right one. This holds on every page.",
  ["inputs","configurations"],"all formats, orientations (any string) and margin values within bounds","package engine has no tests",
  ["engine/fpdf.go"],[("construction","engine/fpdf.go NewFPDF/fpdfFormat/fpdfOrientation"),("area","engine/fpdf.go PrintableArea")],["PageWidth, PageHeight, PrintableArea, Margins of engine.FPDF"])
p("C27","The PDF engine's cursor and text state follow its contract",
  "Setting x or y changes only that coordinate; a line feed returns to the left margin and advances (or goes back, for a negative number) by the given number of current font heights; a new page puts the cursor at the top left margin, counts up the page number and runs the header. Writing text that fits advances x by its measured width only, measuring does not move the cursor, and a font change selects the family, size, weight, slant and underline asked for.",
  ["inputs","histories"],"all coordinates, line counts, font sizes and style values within bounds, on the real engine and PDF library code","package engine has no tests",
  ["engine/fpdf.go"],[("adapter","engine/fpdf.go SetX/SetY/LineFeed/AddPage/ChangeFont/WriteText/TextWidth")],["GetXY, CurrentPage, FontHeight, TextWidth of engine.FPDF"])
p("C28","Processing succeeds only if the whole PDF was produced",
  "Processing a document starts one page before the body's first instruction, executes every body instruction once and in order, and writes the PDF exactly once at the end. If the engine has failed or the output cannot be written that error is returned, nothing is written after an engine failure, and no failure is reported as success.",
  ["inputs","fault_sequences","programs"],"all body instruction sequences within bounds, an engine error or write error arising at any engine call","no test runs the processor",
  ["process.go"],[("driver","process.go Process/processInstructions")],["engine call sequence, error returned by Process"])
p("C29","Page numbers are substituted with the current page",
  "Every occurrence of {cp} in rendered text is replaced by the number of the page current when the element is rendered, in headers, footers, boxes, texts and table cells alike, and no other text is altered; the page count alias {np} is announced to the engine before the first page and left in the text for it.",
  ["inputs","histories"],"all positions of {cp} in text up to the stated length, all page numbers within bounds","no test renders text",
  ["process.go","text.go","text-hyph.go"],[("substitution","process.go tr"),("alias","process.go Process")],["engine.WriteText/SetPageCountAlias arguments"])
p("C30","Grid definitions are accepted exactly when they are consistent",
  "A grid loads exactly when it has at least one row, all rows name the same number of areas and every part names an area of some row; otherwise loading fails. Rows, area names and parts keep their order and content, and a grid whose areas are not solid rectangles is refused when rendered: an error is logged and nothing is drawn.",
  ["inputs","programs"],"all grids of area names up to the stated size","no test loads or renders a grid",
  ["xdoc/grid.go","grid.go"],[("validation","xdoc/grid.go Grid.Validate"),("area check","grid.go gridBox.add/validate")],["error of xdoc.Load, loaded Grid, log output"])
p("C31","Cell content is placed inside its cell as aligned",
  "The text of a table cell is placed inside the cell's padded width as its horizontal alignment says (left aligned and justified text starting at the padded left edge) and, for top, middle and bottom alignment, with the room above it zero, half or all of the cell's padded height not taken by the text, for every horizontal alignment including justified. Text of a cell whose row was sized for it stays inside the cell's padded area, and images and boxes in a cell start at the padded left edge, a single box being aligned vertically like text.",
  ["inputs","programs"],"all paddings, widths, heights, alignments and cell texts within bounds","no test renders a cell",
  ["table.go"],[("placement","table.go renderCell")],["cursor position at the first engine.WriteText of each cell"])
p("C32","No style or pattern text can crash or hang the decoder",
  "Decoding an inline style, a style sheet or a hyphenation pattern file from arbitrary bytes always terminates with a result or an error; it never panics and never loops forever. The same holds for applying the result to any style and for dividing any word with it.",
  ["inputs"],"all byte strings up to the stated length","tests feed a handful of well-formed inputs",
  ["style/decode.go","style/class.go","style/color.go","hyphenation/pattern.go","hyphenation/hyphenation.go"],[("parsers","style/decode.go parseRaw, style/class.go DecodeClasses, hyphenation/pattern.go parsePattern")],["return of the call"])
p("C33","Everything drawn with the PDF engine is painted in the PDF",
  "The PDF made by the engine has a page for every page started, of the paper's size, and paints on each page exactly what was drawn there, in order: text as written in the font, size, face, text color and underlining selected, rectangles in the fill color, lines in the draw color and line width, images, all at the coordinates given; the page count alias is painted as the number of pages.",
  ["inputs","programs"],"all sequences of drawing operations up to the stated length, all coordinates, sizes and colours within bounds","package engine has no tests; no test writes a PDF",
  ["engine/fpdf.go"],[("drawing","engine/fpdf.go WriteText/FillRect/MoveTo/LineTo/DrawPath/PutImage/Set*Color/SetLineWidth/ChangeFont"),("output","engine/fpdf.go WritePDF/SetPageCountAlias")],["operators in the page contents of the uncompressed PDF"])
p("C34","A processed document's PDF holds all its content within the margins",
  "In the PDF of a whole document, made by processor and PDF engine together, every word of the body is painted exactly once and in document order, between the margins of the page; boxes are painted whole with their text inside their padded area, repeated table header rows start every page of a table and are never alone on it, every page has header and footer with its page number and the number of pages, and no page is started without need.",
  ["inputs","programs"],"all margins, starting heights, paddings, heights and alignments within bounds for documents of the stated shapes","no test runs the processor on the PDF engine",
  ["process.go","text.go","text-hyph.go","table.go","engine/fpdf.go"],[("driver","process.go Process"),("engine","engine/fpdf.go")],["page contents of the uncompressed PDF written by Process"])
p("C35","Registered fonts are used for exactly what they are registered for",
  "Text in a registered font is measured with the advance widths of the very file registered for its family and style and advances by them; it is painted character by character in order, whatever bytes its characters are coded with, at its position and size, in a font of the PDF that holds the width and the outline of each of its characters from that file. A style that is not registered, and a file that cannot be read, are errors; no character makes the engine panic, and the page count alias works in registered fonts too, its digits being embedded.",
  ["inputs","configurations"],"all sets of registered styles, all short texts of characters of one to three bytes, all positions and sizes within bounds","no test loads a font or writes a PDF",
  ["engine/fpdf.go","font/registry.go"],[("registration","engine/fpdf.go initFonts (gofpdf AddUTF8FontFromBytes)"),("text","engine/fpdf.go ChangeFont/TextWidth/WriteText")],["TextWidth and GetXY of the engine","page contents and font objects of the PDF"])
p("C36","The commands do what they are asked and report failure by their status",
  "The xpdf command writes the PDF of the document to the file named, or else to the current directory under the document's base name with the extension pdf, replacing whatever was there by one whole PDF; it finds fonts and images relative to the current directory. Its status is zero if and only if that was done: documents that don't load, fonts that can't be read, unknown fonts and outputs that can't be created give a message and another status. The describe command prints the description of the document, the image command format and size of the image, with non-zero status when they cannot.",
  ["inputs","configurations","faults"],"all combinations of document, output, font definition and existing file within bounds, all file names up to the stated length","no test runs a command",
  ["cmd/xpdf/main.go","cmd/describe/main.go","cmd/image/main.go"],[("command","cmd/xpdf/main.go main"),("description","cmd/describe/main.go main"),("image","cmd/image/main.go main")],["exit status, output and files of the commands"])
p("C37","What is drawn depends on the document only",
  "Processing a document draws the same every time, from the same loaded document or one loaded anew, whatever other documents with other class definitions, working directories and pictures were processed, failed or did not load before, and also while another document is processed in between; drawing does not change the document. Output and description do not depend on the order of iterating maps.",
  ["inputs","histories","schedules"],"all documents within bounds, all histories of one other document, every order of map iteration",T+"no test processes a document twice; map order shows rarely",
  ["process.go","text.go","text-hyph.go","table.go","xdoc/doc.go","xdoc/diff.go","style/class.go","hyphenation/hyphenation.go"],[("processing","process.go Process"),("description of differences","xdoc/diff.go"),("classes","style/class.go")],["calls of the engine","text of the description"])
p("C38","Lines and elements follow one another as line spacing and cursor say",
  "The lines of a text, box or table cell follow one another at the line spacing times the height of the highest font used in the line above (an empty line counting with the element's font), for every alignment; after a text the cursor is at the left margin, that distance below its last line. A line feed goes to the left margin and down by its number of heights of the current font, setx and sety set one coordinate, images and empty texts leave the cursor where it is. Every element of body, header and footer alike starts at the cursor so left.",
  ["inputs","programs"],"all contents of texts and all sequences of elements within bounds, with arbitrary sizes, spacings, coordinates and line counts",T+"no test renders text.",
  ["text.go","text-hyph.go","process.go","image.go"],[("line feeds","text.go changeLineFont, writeText, text-hyph.go writeTextHyphenated"),("instructions","process.go processInstructions")],["positions of text and images drawn"])
p("C90","The PDF file is displayed by viewers as its contents say",
  "The cross reference table, stream lengths, compression and font descriptions of the PDF are valid, so that any viewer displays the page contents as painted.",
  ["inputs","programs"],"all documents","no test writes a PDF",
  ["engine/fpdf.go"],[("output","engine/fpdf.go WritePDF (gofpdf)")],["PDF bytes"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+"\n" for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
