BUGS=[
dict(id='s01-leading-newline',property='C01',needs='AddText with a text that starts with a newline',
 breaks='a line break at the start of an added text is not written',
 edits=[('apitext.go','if i > 0 {\n','if i > 0 && len(c) > 0 {\n')],imports=['strings'],
 demo='''d := docx.New().WithDefaultTheme()
p := d.AddParagraph()
p.AddText("\\nab")
s := parts(save(d))["word/document.xml"]
if strings.Count(s, "<w:br") != 1 { die("the line break is lost: %s", s) }
if got := open(save(d)).Document.Body.Items[0].(*docx.Paragraph).String(); got != "\\nab" { die("%q", got) }'''),
dict(id='s02-trheight-attr-order',property='C02',needs='a w:trHeight whose w:hRule attribute comes before w:val (as the library itself writes it)',
 breaks='the height rule of a table row is lost on parsing',
 edits=[('structtable.go','''						th.Val, err = GetInt64(attr.Value)
						if err != nil {
							return err
						}
					case "hRule":''','''						v, err := GetInt64(attr.Value)
						if err != nil {
							return err
						}
						th = &WTableRowHeight{Val: v}
					case "hRule":''')],imports=['strings'],
 demo='''b := pkg(`<w:tbl><w:tblPr/><w:tblGrid><w:gridCol w:w="100"/></w:tblGrid><w:tr><w:trPr><w:trHeight w:val="567" w:hRule="exact"/></w:trPr><w:tc><w:p/></w:tc></w:tr></w:tbl>`, "")
b = save(open(b))
b = save(open(b))
if s := parts(b)["word/document.xml"]; !strings.Contains(s, `hRule="exact"`) { die("%s", s) }'''),
dict(id='s03-sectprchange',property='C03',needs='a w:sectPr with a tracked w:sectPrChange after its own settings',
 breaks='the old page size inside the tracked change replaces the current one',
 edits=[('structsect.go','''			default:
				err = d.Skip() // skip unsupported tags
				if err != nil {
					return err
				}
''','''			default:
				continue // unsupported tags
''')],imports=['strings'],
 demo='''b := pkg(`<w:p/><w:sectPr><w:pgSz w:w="100" w:h="200"/><w:sectPrChange w:id="1" w:author="a"><w:sectPr><w:pgSz w:w="7" w:h="8"/></w:sectPr></w:sectPrChange></w:sectPr>`, "")
d := open(b)
for _, it := range d.Document.Body.Items {
	if s, ok := it.(*docx.SectPr); ok && (s.PgSz.W != 100 || s.PgSz.H != 200) { die("%v", s.PgSz) }
}
if s := parts(save(d))["word/document.xml"]; !strings.Contains(s, `w:w="100"`) { die("%s", s) }'''),
dict(id='s04-rel-reuse',property='C04',needs='a picture is added and later a link whose target equals the target of the picture relationship',
 breaks='the hyperlink uses the image relationship',
 edits=[('link.go','''func (f *Docx) addLinkRelation(link string) string {
''','''func (f *Docx) addLinkRelation(link string) string {
	for _, a := range f.docRelation.Relationship {
		if a.Target == link { // linked before
			return a.ID
		}
	}
'''),('link.go','''		TargetMode: REL_TARGETMODE,
	}

''','''		TargetMode: REL_TARGETMODE,
	}
''')],imports=[],
 demo='''d := docx.New().WithDefaultTheme()
p := d.AddParagraph()
_, err := p.AddInlineDrawing(png(10, 10, 1))
must(err)
h := p.AddLink("the file", "media/image1.png")
ok := false
d = open(save(d))
must(d.RangeRelationships(func(r *docx.Relationship) error {
	if r.ID == h.ID { ok = r.Type == docx.REL_HYPERLINK && r.Target == "media/image1.png" && r.TargetMode == "External" }
	return nil
}))
if !ok { die("the relationship of the link is no hyperlink") }'''),
dict(id='s05-rid-last',property='C05',needs='a relationships part whose last relationship does not have the highest id, then a link or picture is added',
 breaks='new relationship ids repeat ids in use',
 edits=[('unpack.go','''		if f.rID < uintptr(id) {
			f.rID = uintptr(id)
		}
''','''		f.rID = uintptr(id)
''')],imports=[],
 demo='''rel := func(id, tgt string) string { return `<Relationship Id="`+id+`" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink" Target="`+tgt+`" TargetMode="External"/>` }
d := open(pkg(`<w:p><w:hyperlink r:id="rId7"><w:r><w:t>x</w:t></w:r></w:hyperlink></w:p>`, rel("rId7", "http://a/")+rel("rId6", "http://b/")))
h := d.AddParagraph().AddLink("c", "http://c/")
seen := map[string]bool{}
must(d.RangeRelationships(func(r *docx.Relationship) error {
	if seen[r.ID] { die("two relationships %s", r.ID) }
	seen[r.ID] = true
	return nil
}))
if t, _ := d.ReferTarget(h.ID); t != "http://c/" { die("%s is %s", h.ID, t) }'''),
dict(id='s06-shape-docpr-id',property='C05',needs='shapes with different names (or a shape and a picture) in one document',
 breaks='drawing ids are counted per name, so two drawings get the same id',
 edits=[('apishape.go','''func (p *Paragraph) AddAnchorShape(w, h int64, name, bwMode, prst string, ln *ALine) *Run {
	idn := int(atomic.AddUintptr(&p.file.docID, 1))
	id := strconv.Itoa(int(p.file.IncreaseID(name)))
''','''func (p *Paragraph) AddAnchorShape(w, h int64, name, bwMode, prst string, ln *ALine) *Run {
	idn := int(p.file.IncreaseID(name))
	id := strconv.Itoa(idn)
''')],imports=[],
 demo='''d := docx.New().WithDefaultTheme()
p := d.AddParagraph()
a := p.AddAnchorShape(10, 10, "A", "auto", "rect", nil).Children[0].(*docx.Drawing).Anchor.DocPr.ID
b := p.AddAnchorShape(10, 10, "B", "auto", "rect", nil).Children[0].(*docx.Drawing).Anchor.DocPr.ID
if a == b { die("both drawings have id %d", a) }'''),
dict(id='s07-media-dedupe',property='C06',needs='two pictures of the same length that begin with the same 64 bytes',
 breaks='the second picture shows the bytes of the first one',
 edits=[('media.go','''	f.mediaNameIdx[m.Name] = len(f.media)
''','''	for i, x := range f.media { // do not store the same picture twice
		if len(x.Data) == len(m.Data) && len(m.Data) > 64 && string(x.Data[:64]) == string(m.Data[:64]) {
			m.Data = f.media[i].Data
			break
		}
	}
	f.mediaNameIdx[m.Name] = len(f.media)
''')],imports=[],
 demo='''d := docx.New().WithDefaultTheme()
p := d.AddParagraph()
_, err := p.AddInlineDrawing(png(10, 10, 1))
must(err)
_, err = p.AddInlineDrawing(png(10, 10, 2))
must(err)
m := parts(save(d))
if m["word/media/image1.png"] != string(png(10, 10, 1)) || m["word/media/image2.png"] != string(png(10, 10, 2)) { die("a picture has the bytes of another one") }'''),
dict(id='s08-cell-empty-paragraph',property='C07',needs='appending a document with a table cell of several paragraphs, one of them empty',
 breaks='empty paragraphs in table cells are not copied',
 edits=[('structdoc.go','''			for _, p := range tc.Paragraphs {
				np := p.copymedia(to)
''','''			for _, p := range tc.Paragraphs {
				if len(p.Children) == 0 && len(tc.Paragraphs) > 1 {
					continue // nothing to copy
				}
				np := p.copymedia(to)
''')],imports=[],
 demo='''a := docx.New().WithDefaultTheme()
c := a.AddTable(1, 1, 0, nil).TableRows[0].TableCells[0]
c.AddParagraph().AddText("x")
c.AddParagraph()
c.AddParagraph().AddText("y")
d := docx.New().WithDefaultTheme()
d.AppendFile(a)
if n := len(d.Document.Body.Items[0].(*docx.Table).TableRows[0].TableCells[0].Paragraphs); n != 3 { die("%d paragraphs instead of 3", n) }'''),
dict(id='s09-run-copy-alias',property='C07',needs='appending a document with a drawing, then changing or saving the source document',
 breaks='the copy of a run shares its children array with the source, so the source run holds the drawings of the copy',
 edits=[('structdoc.go','	nr.Children = make([]interface{}, 0, len(r.Children))\n','	nr.Children = r.Children[:0]\n')],imports=[],
 demo='''a := docx.New().WithDefaultTheme()
_, err := a.AddParagraph().AddInlineDrawing(png(10, 10, 1))
must(err)
d := docx.New().WithDefaultTheme()
d.AddParagraph().AddLink("l", "http://l/")
d.AppendFile(a)
was := parts(save(a))["word/document.xml"]
d.Document.Body.Items[1].(*docx.Paragraph).Children[0].(*docx.Run).Children[0].(*docx.Drawing).Inline.Size(3, 4)
if parts(save(a))["word/document.xml"] != was { die("changing the copy changed the source") }'''),
dict(id='s10-split-adjacent',property='C08',needs='two separator paragraphs in a row',
 breaks='a section that consists of its separator only is merged with the next section',
 edits=[('structdoc.go','if separator(o) && len(ndoc.Document.Body.Items) > 0 {','if separator(o) && len(ndoc.Document.Body.Items) > 1 {')],imports=['regexp'],
 demo='''d := docx.New().WithDefaultTheme()
for _, s := range []string{"# a", "x", "# b", "# c", "y"} { d.AddParagraph().AddText(s) }
if n := len(d.SplitByParagraph(docx.SplitDocxByPlainTextRegex(regexp.MustCompile("^#")))); n != 3 { die("%d documents instead of 3", n) }'''),
dict(id='s11-blank-segment',property='C09',needs='AddText with a segment of only blanks between tabs or line breaks',
 breaks='blanks are missing from the plain text',
 edits=[('apitext.go','			if k != "" {\n','			if strings.TrimSpace(k) != "" {\n')],imports=[],
 demo='''d := docx.New().WithDefaultTheme()
p := d.AddParagraph()
p.AddText("a\\t  \\tb")
if p.String() != "a\\t  \\tb" { die("%q", p.String()) }'''),
dict(id='s12-merge-strike',property='C10',needs='two adjacent runs that differ only in the last property (strike)',
 breaks='runs of different formatting are merged and one loses its strike',
 edits=[('structtext.go','for i := 1; i < rr1.NumField(); i++ {','for i := 1; i < rr1.NumField()-1; i++ {')],imports=[],
 demo='''d := docx.New().WithDefaultTheme()
p := d.AddParagraph()
p.AddText("a").Bold()
p.AddText("b").Bold().Strike(true)
if np := p.MergeText(docx.MergeSamePropRuns); len(np.Children) != 2 { die("merged runs of different formatting") }'''),
dict(id='s13-dropnil-anchor',property='C11',needs='an anchored group or canvas when DropNilPicture is called',
 breaks='drawings that are no pictures stay',
 edits=[('structpara.go','''						if d.Anchor.Graphic.GraphicData.Pic == nil {
''','''						if d.Anchor.Graphic.GraphicData.Pic == nil && d.Anchor.Graphic.GraphicData.Shape != nil {
''')],imports=[],
 demo='''d := docx.New().WithDefaultTheme()
p := d.AddParagraph()
r := p.AddAnchorShape(1, 1, "s", "auto", "rect", nil)
g := r.Children[0].(*docx.Drawing).Anchor.Graphic.GraphicData
g.Shape, g.Group = nil, &docx.WordprocessingGroup{}
p.DropNilPicture()
if len(r.Children) != 0 { die("the group is still there") }'''),
dict(id='s14-drop-first-cell-paragraph',property='C11',needs='a drawing in the second paragraph of a table cell',
 breaks='only the first paragraph of each cell is filtered',
 edits=[('structdoc.go','''						if !f.IsValid() {
							continue
						}
						_ = f.Call(nil)
''','''						if !f.IsValid() {
							continue
						}
						_ = f.Call(nil)
						break
''')],imports=[],
 demo='''d := docx.New().WithDefaultTheme()
c := d.AddTable(1, 1, 0, nil).TableRows[0].TableCells[0]
c.AddParagraph().AddText("x")
r := c.AddParagraph().AddInlineShape(1, 1, "s", "auto", "rect", nil)
d.Document.Body.DropDrawingOf("Shape")
if len(r.Children) != 0 { die("the shape is still there") }'''),
dict(id='s15-template-read-error',property='C12',needs='a read error of a template part while saving',
 breaks='the save reports success with a truncated part',
 edits=[('pack.go','''		_, err = io.Copy(w, r)
		if err != nil {
''','''		_, err = io.Copy(w, r)
		if _, own := r.(marshaller); err != nil && own {
''')],imports=['errors','io','io/fs','testing/fstest','bytes'],
 top='''type badfs struct{ fs.FS }
type badfile struct { fs.File; n int }
func (b badfs) Open(name string) (fs.File, error) {
	f, err := b.FS.Open(name)
	if err != nil { return nil, err }
	return &badfile{File: f}, nil
}
func (b *badfile) Read(p []byte) (int, error) {
	if b.n > 0 { return 0, errors.New("disk error") }
	b.n++
	return b.File.Read(p[:1])
}
var _ io.Reader = (*badfile)(nil)
''',
 demo='''m := fstest.MapFS{"xml/t/word/styles.xml": &fstest.MapFile{Data: []byte("<w:styles/>")}}
d := docx.New().UseTemplate("t", []string{"word/styles.xml"}, badfs{m})
var b bytes.Buffer
_, err := d.WriteTo(&b)
if err == nil { die("the read error of the template is not reported") }'''),
dict(id='s16-media-checksum',property='C13',needs='a package with damaged bytes of a stored picture',
 breaks='a picture with a wrong checksum is accepted',
 edits=[('unpack.go','''	data, err := io.ReadAll(zf)
	if err != nil {
''','''	data, err := io.ReadAll(zf)
	if err != nil && err != zip.ErrChecksum { // tolerate old writers
''')],imports=['archive/zip','bytes','hash/crc32','io'],
 demo='''src := pkg(`<w:p/>`, "")
var b bytes.Buffer
z := zip.NewWriter(&b)
zr, err := zip.NewReader(bytes.NewReader(src), int64(len(src)))
must(err)
for _, f := range zr.File { must(z.Copy(f)) }
data := png(1, 1, 1)
w, err := z.CreateRaw(&zip.FileHeader{Name: "word/media/image1.png", Method: zip.Store, CRC32: crc32.ChecksumIEEE(data), CompressedSize64: uint64(len(data)), UncompressedSize64: uint64(len(data))})
must(err)
data[40] ^= 1
_, err = io.Copy(w, bytes.NewReader(data))
must(err)
must(z.Close())
_, err = docx.Parse(bytes.NewReader(b.Bytes()), int64(b.Len()))
if err == nil { die("a damaged picture is accepted") }'''),
dict(id='s17-shape-nosppr',property='C14',needs='the string form of an anchored shape without spPr',
 breaks='nil dereference',
 edits=[('structdrawing.go','''			if r.Graphic.GraphicData.Shape.SpPr != nil {
				sb.WriteString(r.Graphic.GraphicData.Shape.SpPr.PrstGeom.Prst)
			}
''','''			sb.WriteString(r.Graphic.GraphicData.Shape.SpPr.PrstGeom.Prst)
''')],imports=[],
 demo='''defer func() { if e := recover(); e != nil { die("%v", e) } }()
d := open(pkg(`<w:p><w:r><w:drawing><wp:anchor><wp:docPr id="1" name="n"/><a:graphic><a:graphicData uri="http://schemas.microsoft.com/office/word/2010/wordprocessingShape"><wps:wsp><wps:bodyPr/></wps:wsp></a:graphicData></a:graphic></wp:anchor></w:drawing></w:r></w:p>`, ""))
_ = d.Document.Body.Items[0].(*docx.Paragraph).String()'''),
dict(id='s18-numfont-resets',property='C16',needs='NumSize followed by NumFont on the same paragraph',
 breaks='the font call removes the size set before',
 edits=[('apipara.go','''	if p.Properties.RunProperties == nil {
		p.Properties.RunProperties = &RunProperties{}
	}
	p.Properties.RunProperties.Fonts = &RunFonts{
		ASCII:    ascii,
		EastAsia: eastAsia,
		HAnsi:    hansi,
		Hint:     hint,
	}
''','''	p.Properties.RunProperties = &RunProperties{
		Fonts: &RunFonts{
			ASCII:    ascii,
			EastAsia: eastAsia,
			HAnsi:    hansi,
			Hint:     hint,
		},
	}
''')],imports=[],
 demo='''d := docx.New().WithDefaultTheme()
p := d.AddParagraph().NumPr("1", "0").NumSize("44").NumFont("a", "b", "c", "d")
if p.Properties.RunProperties.Size == nil { die("the size is gone") }'''),
dict(id='s19-shared-cells',property='C17',needs='a table of at least two rows',
 breaks='all rows share one slice of cells: the cells of the last row',
 edits=[('apitable.go','''	trs := make([]*WTableRow, row)
	for i := 0; i < row; i++ {
		cells := make([]*WTableCell, col)
''','''	trs := make([]*WTableRow, row)
	cells := make([]*WTableCell, col)
	for i := 0; i < row; i++ {
''')],imports=[],
 demo='''d := docx.New().WithDefaultTheme()
t := d.AddTable(2, 2, 0, nil)
if t.TableRows[0].TableCells[0] == t.TableRows[1].TableCells[0] { die("two rows have the same cell") }'''),
dict(id='s20-glossary-rels',property='C18',needs='a package with a glossary document (word/glossary/_rels/document.xml.rels)',
 breaks='the relationships of the glossary are taken for those of the main document and their part is not saved',
 edits=[('unpack.go','if f.Name == "word/_rels/document.xml.rels" {','if strings.HasSuffix(f.Name, "/_rels/document.xml.rels") {')],imports=[],
 demo='''r := `<?xml version="1.0"?><Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships"><Relationship Id="rId9" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/styles" Target="styles.xml"/></Relationships>`
d := open(pkg(`<w:p/>`, "", part{"word/glossary/document.xml", `<w:glossaryDocument/>`}, part{"word/glossary/_rels/document.xml.rels", r}))
if parts(save(d))["word/glossary/_rels/document.xml.rels"] != r { die("the relationships of the glossary are gone") }
if _, err := d.ReferTarget("rId9"); err == nil { die("the glossary's relationship is in the document") }'''),
dict(id='s21-scale-order',property='C19',needs='a picture whose width does not divide the page width',
 breaks='the height is computed from a truncated factor, so the aspect ratio is off',
 edits=[('apidrawing.go','''	if float64(w)/float64(h) > 1.2 {
		h = A4_EMU_MAX_WIDTH * h / w
		w = A4_EMU_MAX_WIDTH
	} else {
		h = A4_EMU_MAX_WIDTH * h / w / 2
		w = A4_EMU_MAX_WIDTH / 2
	}
	d := &Drawing{
		Anchor:''','''	if float64(w)/float64(h) > 1.2 {
		h = A4_EMU_MAX_WIDTH / w * h
		w = A4_EMU_MAX_WIDTH
	} else {
		h = A4_EMU_MAX_WIDTH * h / w / 2
		w = A4_EMU_MAX_WIDTH / 2
	}
	d := &Drawing{
		Anchor:''')],imports=[],
 demo='''d := docx.New().WithDefaultTheme()
r, err := d.AddParagraph().AddAnchorDrawing(png(100000, 50000, 1))
must(err)
e := r.Children[0].(*docx.Drawing).Anchor.Extent
if e.CX != 5274310 || e.CY != 5274310/2 { die("%d x %d", e.CX, e.CY) }'''),
dict(id='s22-referid-suffix',property='C20',needs='a target that is the end of the path of another relationship',
 breaks='ReferID answers with the id of another target',
 edits=[('link.go','''		if a.Target == target {
''','''		if a.Target == target || strings.HasSuffix(a.Target, "/"+target) {
'''),('link.go','	"strconv"\n','	"strconv"\n	"strings"\n')],imports=[],
 demo='''d := docx.New().WithDefaultTheme()
p := d.AddParagraph()
p.AddLink("a", "http://x/page")
h := p.AddLink("b", "page")
if id, err := d.ReferID("page"); err != nil || id != h.ID { die("%s %v", id, err) }'''),
dict(id='s23-sectpr-last',property='C21',needs='a document with a section before further content (WithA4Page before AddParagraph) is saved and used afterwards',
 breaks='saving moves the section properties to the end of the document in memory',
 edits=[('pack.go','''	files["word/document.xml"] = marshaller{data: &f.Document}
''','''	items := f.Document.Body.Items
	for i, it := range items { // the section properties come last
		if _, ok := it.(*SectPr); ok && i < len(items)-1 {
			copy(items[i:], items[i+1:])
			items[len(items)-1] = it
			break
		}
	}
	files["word/document.xml"] = marshaller{data: &f.Document}
''')],imports=[],
 demo='''d := docx.New().WithDefaultTheme().WithA4Page()
d.AddParagraph().AddText("a")
_ = save(d)
if _, ok := d.Document.Body.Items[0].(*docx.SectPr); !ok { die("saving changed the document") }'''),
dict(id='s25-float32',property='C23',needs='a number with a fraction that has more than 24 significant bits',
 breaks='the number is rounded to single precision',
 edits=[('helper.go','''func GetInt64(s string) (int64, error) {
	v, err := strconv.ParseInt(s, 10, 64)''','''func GetInt64(s string) (int64, error) {
	v, err := strconv.ParseInt(s, 10, 64)'''),('helper.go','	v2, err := strconv.ParseFloat(s, 64)\n','	v2, err := strconv.ParseFloat(s, 32)\n',2)],imports=[],
 demo='''v, err := docx.GetInt64("16777217.0")
must(err)
if v != 16777217 { die("%d", v) }'''),
]
C22='''#!/bin/bash
# run with cwd = the repository: 0 if -s names its files after the given one
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off
tmp=$(mktemp -d) || exit 2
trap 'find "$tmp" -mindepth 1 -delete; rmdir "$tmp"' EXIT
(cd "$repo" && go build -o "$tmp/tool" ./cmd/main) || exit 3
mkdir "$tmp/w"; cp -r "$repo/testdata" "$tmp/w/testdata"
cd "$tmp/w" || exit 2
timeout 60 "$tmp/tool" -f v1.2.docx -s size > out.txt 2>&1 || { cat out.txt; exit 1; }
ls
[ -f unmarshal_v1.2_split0.docx ] || { echo "BROKEN: unmarshal_v1.2_split0.docx is missing"; exit 1; }
'''
BUGS.append(dict(id='s24-split-name',property='C22',needs='-s with a file name that has more than one dot',
 breaks='the split files get wrong names',
 edits=[('cmd/main/main.go','b := strings.LastIndex(*fileLocation, ".")','b := a + 1 + strings.Index((*fileLocation)[a+1:], ".")')],sh=C22))
