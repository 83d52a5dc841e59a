BUGS=[
dict(id='s26-split-lock',property='C15',needs='two threads increasing the same counter, one switching away between the two locked sections',
 breaks='an increment is lost and a number is given twice',
 edits=[('id.go','''	n = f.slowIDs[name]
	n++
	f.slowIDs[name] = n
''','''	n = f.slowIDs[name]
	f.slowIDsMu.Unlock()
	n++
	f.slowIDsMu.Lock()
	f.slowIDs[name] = n
''')],imports=['sync'],
 demo='''for round := 0; round < 20; round++ {
	d := docx.New()
	var wg sync.WaitGroup
	const n = 50000
	for t := 0; t < 8; t++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < n; i++ {
				d.IncreaseID("a")
			}
		}()
	}
	wg.Wait()
	if got := d.IncreaseID("a"); got != 8*n+1 { die("%d", got) }
}'''),
dict(id='s27-anchor-docid',property='C15',needs='an anchored shape added while another thread adds a shape to another paragraph of the document',
 breaks='two drawings get the same id',
 edits=[('apishape.go','''func (p *Paragraph) AddAnchorShape(w, h int64, name, bwMode, prst string, ln *ALine) *Run {
	idn := int(atomic.AddUintptr(&p.file.docID, 1))
''','''func (p *Paragraph) AddAnchorShape(w, h int64, name, bwMode, prst string, ln *ALine) *Run {
	p.file.docID++
	idn := int(p.file.docID)
''')],imports=['sync'],
 demo='''for round := 0; round < 30; round++ {
	d := docx.New()
	var wg sync.WaitGroup
	ids := make([][]int, 8)
	for t := 0; t < 8; t++ {
		p := d.AddParagraph()
		wg.Add(1)
		go func(t int) {
			defer wg.Done()
			for i := 0; i < 3000; i++ {
				ids[t] = append(ids[t], p.AddAnchorShape(1, 1, "s", "auto", "rect", nil).Children[0].(*docx.Drawing).Anchor.DocPr.ID)
			}
		}(t)
	}
	wg.Wait()
	seen := map[int]bool{}
	for _, l := range ids {
		for _, id := range l {
			if seen[id] { die("id %d twice", id) }
			seen[id] = true
		}
	}
}'''),
dict(id='s28-shared-encoder-buffer',property='C15',needs='two documents saved at the same time',
 breaks='the parts of one document are written into the package of the other',
 edits=[('pack.go','''	_, err = io.WriteString(w, xml.Header)
	if err != nil {
		return
	}
	err = xml.NewEncoder(w).Encode(m.data)
	return
''','''	marshalBuffer.Reset()
	marshalBuffer.WriteString(xml.Header)
	err = xml.NewEncoder(&marshalBuffer).Encode(m.data)
	if err != nil {
		return
	}
	_, err = w.Write(marshalBuffer.Bytes())
	return
'''),('pack.go','type marshaller struct {','''// marshalBuffer spares an allocation for each part
var marshalBuffer bytes.Buffer

type marshaller struct {''')],imports=['sync','strings'],
 demo='''var wg sync.WaitGroup
var mu sync.Mutex
bad := 0
for t := 0; t < 8; t++ {
	wg.Add(1)
	go func(t int) {
		defer wg.Done()
		defer func() {
			if recover() != nil {
				mu.Lock()
				bad++
				mu.Unlock()
			}
		}()
		d := docx.New().WithDefaultTheme()
		tx := strings.Repeat(string(rune('a'+t)), 5000)
		d.AddParagraph().AddText(tx)
		for i := 0; i < 100; i++ {
			if !strings.Contains(parts(save(d))["word/document.xml"], ">"+tx+"<") {
				mu.Lock()
				bad++
				mu.Unlock()
			}
		}
	}(t)
}
wg.Wait()
if bad > 0 { die("%d", bad) }'''),
dict(id='s29-table-string-builder',property='C15',needs='two threads taking the string form of tables at the same time',
 breaks='the string form of a table holds pieces of another one',
 edits=[('structtable.go','''	sb := strings.Builder{}
	sb.WriteString("| ")
''','''	sb := &tableText
	sb.Reset()
	sb.WriteString("| ")
'''),('structtable.go','''func (t *Table) String() string {
''','''var tableText strings.Builder

func (t *Table) String() string {
''')],imports=['sync','fmt'],
 demo='''var wg sync.WaitGroup
var mu sync.Mutex
bad := 0
for t := 0; t < 8; t++ {
	wg.Add(1)
	go func(t int) {
		defer wg.Done()
		defer func() {
			if recover() != nil {
				mu.Lock()
				bad++
				mu.Unlock()
			}
		}()
		d := docx.New().WithDefaultTheme()
		tb := d.AddTable(1, 1, 0, nil)
		tb.TableRows[0].TableCells[0].AddParagraph().AddText(fmt.Sprint("cell ", t))
		want := "|  :----: |\\n| " + fmt.Sprint("cell ", t) + " |"
		for i := 0; i < 50000; i++ {
			if tb.String() != want {
				mu.Lock()
				bad++
				mu.Unlock()
			}
		}
	}(t)
}
wg.Wait()
if bad > 0 { die("%d", bad) }'''),
dict(id='s30-tab-joins',property='C16',needs='two tabs added in a row, then one of them is formatted',
 breaks='both tabs are one run, so formatting the second one formats the first one too',
 edits=[('apitext.go','''func (p *Paragraph) AddTab() *Run {
	c := make([]interface{}, 1, 64)
''','''func (p *Paragraph) AddTab() *Run {
	if n := len(p.Children); n > 0 {
		if r, ok := p.Children[n-1].(*Run); ok && len(r.Children) > 0 {
			if _, ok := r.Children[len(r.Children)-1].(*Tab); ok && *r.RunProperties == (RunProperties{}) {
				return r.AddTab()
			}
		}
	}
	c := make([]interface{}, 1, 64)
''')],imports=[],
 demo='''p := docx.New().AddParagraph()
a := p.AddTab()
b := p.AddTab().Underline("single")
_ = b
if a.RunProperties.Underline != nil { die("the first tab is underlined") }'''),
dict(id='s31-kern-zero',property='C02',needs='a run with w:kern w:val="0" (kerning switched off against a style)',
 breaks='the element is lost',
 edits=[('structrun.go','''				r.Kern = &value
''','''				if value.Val != 0 {
					r.Kern = &value
				}
''')],imports=['strings'],
 demo='''b := save(open(pkg(`<w:p><w:r><w:rPr><w:kern w:val="0"/></w:rPr><w:t>x</w:t></w:r></w:p>`, "")))
if s := parts(b)["word/document.xml"]; !strings.Contains(s, `<w:kern w:val="0"`) { die("%s", s) }'''),
dict(id='s32-foreign-in-text',property='C03',needs='an unsupported element with text inside w:t',
 breaks='the text of the unsupported element becomes text of the run',
 edits=[('structtext.go','''		switch tt := t.(type) {
		case xml.CharData:
			r.Text += string(tt) // implicitly copy
		case xml.StartElement:
			err = d.Skip() // skip unsupported tags
			if err != nil {
				return err
			}
		}
''','''		if tt, ok := t.(xml.CharData); ok {
			r.Text += string(tt) // implicitly copy
		}
''')],imports=['strings'],
 demo='''d := open(pkg(`<w:p><w:r><w:t>a<x:y xmlns:x="urn:x">zz</x:y>b</w:t></w:r></w:p>`, ""))
if s := d.Document.Body.Items[0].(*docx.Paragraph).String(); s != "ab" { die("%q", s) }
_ = strings.Contains'''),
dict(id='s33-media-case',property='C04',needs='a picture whose media name has upper-case letters in the extension, with that extension typed in lower case only... appended into another document',
 breaks='a part without a content type',
 edits=[('contenttypes.go','''		ext := strings.ToLower(m.Name[i:])
		if known[ext] {
''','''		ext := strings.ToLower(m.Name[i:])
		if known[ext] || ext == ".webp" || ext == ".jpeg" {
''')],imports=['strings'],skip=True,demo=''),
dict(id='s34-nested-group-media',property='C07',needs='appending a document with a picture inside a group inside a group',
 breaks='the picture of the inner group keeps the relationship id of the source document',
 edits=[('structcopy.go','''		case *WordprocessingGroup:
			e = o.copymedia(from, to)
''','')],imports=['strings'],skip=True,demo=''),
dict(id='s35-rid-restored',property='C05',needs='a document parsed from a package whose relationships come after the document in the archive, with links inside',
 breaks='-',edits=[],skip=True,imports=[],demo=''),
dict(id='s36-image-counter-shared',property='C05',needs='pictures loaded with names image1.png.. by LoadBodyItems, then an added picture of another format',
 breaks='the per-name counter restarts: LoadBodyItems counts the pictures from the media list length only',
 edits=[],skip=True,imports=[],demo=''),
dict(id='s37-append-media-by-name',property='C06',needs='both documents have a media of the same name with different bytes, and the target was parsed',
 breaks='the appended picture shows the picture of the target document',
 edits=[('image.go','''	for f.Media(m.Name) != nil { // used by a media that was not added here
''','''	for f.Media(m.Name) != nil && len(f.Media(m.Name).Data) != len(data) { // used by a media that was not added here
'''),('image.go','''"sync/atomic"
)''','''"sync/atomic"
)''')],imports=[],skip=True,demo=''),
dict(id='s38-append-alias-self',property='C07',needs='a document appended to itself when its item list has spare capacity',
 breaks='-',edits=[],skip=True,imports=[],demo=''),
dict(id='s39-split-first-match',property='C08',needs='a document whose first item is a table or section and whose second item matches',
 breaks='no new document is started at a match that directly follows the first item',
 edits=[('structdoc.go','if separator(o) && len(ndoc.Document.Body.Items) > 0 {','if i > 1 && separator(o) || i == 1 && len(docs) > 0 && separator(o) {')],imports=['regexp'],
 demo='''d := docx.New().WithDefaultTheme()
d.AddTable(1, 1, 0, nil)
d.AddParagraph().AddText("S")
d.AddParagraph().AddText("x")
if n := len(d.SplitByParagraph(docx.SplitDocxByPlainTextRegex(regexp.MustCompile("^S$")))); n != 2 { die("%d", n) }'''),
dict(id='s40-link-text-tab',property='C09',needs='a link whose run has a tab or break (parsed from a document)',
 breaks='-',edits=[],skip=True,imports=[],demo=''),
dict(id='s41-merge-emptytext',property='C10',needs='a run whose text elements are empty before a tab',
 breaks='-',edits=[],skip=True,imports=[],demo=''),
dict(id='s42-keep-hyperlink',property='C11',needs='KeepElements of a paragraph that names *docx.Run, with a link inside',
 breaks='links are kept although only runs are named',
 edits=[('structpara.go','''		_, ok := namemap[reflect.ValueOf(item).Type().String()]
		if ok {
''','''		_, ok := namemap[reflect.ValueOf(item).Type().String()]
		if h, link := item.(*Hyperlink); link && !ok && len(h.Run.Children) > 0 {
			_, ok = namemap["*docx.Run"] // the run of the link
		}
		if ok {
''')],imports=[],
 demo='''d := open(pkg(`<w:p><w:hyperlink w:anchor="b"><w:r><w:t>x</w:t></w:r></w:hyperlink><w:r><w:t>y</w:t></w:r></w:p>`, ""))
p := d.Document.Body.Items[0].(*docx.Paragraph)
p.KeepElements("*docx.Run")
if len(p.Children) != 1 { die("%d", len(p.Children)) }'''),
dict(id='s43-close-error',property='C12',needs='a destination that fails only when the last bytes (the directory of the archive) are written',
 breaks='the save reports success although the directory was not written',
 edits=[('docx.go','''	defer func() {
		cerr := zipWriter.Close()
		if err == nil {
			err = cerr
		}
	}()

	return 0, f.pack(zipWriter)
''','''	defer zipWriter.Close()
	err = f.pack(zipWriter)
	if err != nil {
		return 0, err
	}
	return 0, zipWriter.Flush()
''')],imports=['errors','io'],top='''
type limited struct{ n int }

func (l *limited) Write(p []byte) (int, error) {
	if len(p) > l.n {
		return 0, errors.New("full")
	}
	l.n -= len(p)
	return len(p), nil
}

var _ io.Writer = (*limited)(nil)
''',
 demo='''d := docx.New().WithDefaultTheme()
d.AddParagraph().AddText("x")
n := len(save(d))
if _, err := d.WriteTo(&limited{n - 10}); err == nil { die("a failed save reported success") }'''),
dict(id='s44-doc-without-document',property='C13',needs='a package whose main document ends right after a complete body',
 breaks='-',edits=[],skip=True,imports=[],demo=''),
dict(id='s45-tabs-bar',property='C02',needs='two tab stops at the same position, the first one clearing it',
 breaks='only one of them is kept',
 edits=[('structtext.go','''				tb.Tabs = append(tb.Tabs, &value)
''','''				if n := len(tb.Tabs); n > 0 && tb.Tabs[n-1].Position == value.Position {
					tb.Tabs[n-1] = &value
					continue
				}
				tb.Tabs = append(tb.Tabs, &value)
''')],imports=['strings'],
 demo='''b := save(open(pkg(`<w:p><w:pPr><w:tabs><w:tab w:val="clear" w:pos="720"/><w:tab w:val="left" w:pos="720"/></w:tabs></w:pPr></w:p>`, "")))
if s := parts(b)["word/document.xml"]; strings.Count(s, `<w:tab `) != 2 { die("%s", s) }'''),
dict(id='s46-empty-table-row',property='C14',needs='the string form of a table whose second row has more cells... ',
 breaks='-',edits=[],skip=True,imports=[],demo=''),
dict(id='s47-twips-shared-width',property='C17',needs='AddTableTwips with several columns, one cell resized afterwards',
 breaks='the cells of a column share their width',
 edits=[('apitable.go','''	for i, w := range colWidths {
		grids[i] = &WGridCol{}
''','''	widths := make([]*WTableCellWidth, len(colWidths))
	for i, w := range colWidths {
		widths[i] = &WTableCellWidth{W: w, Type: "dxa"}
		grids[i] = &WGridCol{}
'''),('apitable.go','''		for i, w := range colWidths {
			cells[i] = &WTableCell{
				TableCellProperties: &WTableCellProperties{
					TableCellWidth: &WTableCellWidth{W: w, Type: "dxa"},
				},
''','''		for i := range colWidths {
			cells[i] = &WTableCell{
				TableCellProperties: &WTableCellProperties{
					TableCellWidth: widths[i],
				},
''')],imports=[],
 demo='''t := docx.New().AddTableTwips([]int64{1, 2}, []int64{5, 6}, 0, nil)
t.TableRows[0].TableCells[0].TableCellProperties.TableCellWidth.W = 9
if w := t.TableRows[1].TableCells[0].TableCellProperties.TableCellWidth.W; w != 5 { die("%d", w) }'''),
dict(id='s48-template-prefix',property='C18',needs='a template from a file system with an empty template name',
 breaks='-',edits=[],skip=True,imports=[],demo=''),
dict(id='s49-square-ratio',property='C19',needs='a picture exactly 1.2 times as wide as high (or close to it)',
 breaks='a picture of exactly 6:5 is placed at the full width',
 edits=[('apidrawing.go','''	if float64(w)/float64(h) > 1.2 {
		h = A4_EMU_MAX_WIDTH * h / w
		w = A4_EMU_MAX_WIDTH
''','''	if w*5 >= h*6 {
		h = A4_EMU_MAX_WIDTH * h / w
		w = A4_EMU_MAX_WIDTH
''',2)],imports=[],
 demo='''r, err := docx.New().AddParagraph().AddInlineDrawing(png(60, 50, 1))
must(err)
if w := r.Children[0].(*docx.Drawing).Inline.Extent.CX; w != 5274310/2 { die("%d", w) }'''),
dict(id='s50-range-live',property='C20',needs='an iteration whose callback adds a relationship',
 breaks='-',edits=[],skip=True,imports=[],demo=''),
dict(id='s51-pack-media-map',property='C21',needs='saving, replacing nothing, then saving again: media sorted in place',
 breaks='saving sorts the media list but not its index, so a name later gives other bytes',
 edits=[('pack.go','''	for _, m := range f.media {
		files[m.String()]''','''	sort.Slice(f.media, func(i, j int) bool { return f.media[i].Name < f.media[j].Name })
	for _, m := range f.media {
		files[m.String()]'''),('pack.go','''	"io"
	"os"
''','''	"io"
	"os"
	"sort"
''')],imports=[],
 demo='''d := docx.New().WithDefaultTheme()
p := d.AddParagraph()
_, err := p.AddInlineDrawing(png(10, 10, 1))
must(err)
var names []string
for i := 2; i < 12; i++ {
	_, err := p.AddInlineDrawing(png(10, 10, i))
	must(err)
}
d.RangeRelationships(func(r *docx.Relationship) error {
	if len(r.Target) > 6 && r.Target[:6] == "media/" { names = append(names, r.Target[6:]) }
	return nil
})
before := string(d.Media(names[1]).Data)
save(d)
if string(d.Media(names[1]).Data) != before { die("the media changed") }'''),
dict(id='s52-getint-plus',property='C23',needs='a number with a leading plus sign followed by a unit',
 breaks='-',edits=[],skip=True,imports=[],demo=''),
dict(id='s53-parse-rels-after',property='C05',needs='a package whose document part comes before its relationships part in the archive, with a drawing id above 100000',
 breaks='the drawing id of the parsed document is used again',
 edits=[('unpack.go','''	//TODO: find last docID
	f.docID = 100000
	err = xml.NewDecoder(zf).Decode(&f.Document)
	if err != nil {
		return err
	}
''','''	err = xml.NewDecoder(zf).Decode(&f.Document)
	if err != nil {
		return err
	}
	//TODO: find last docID
	f.docID = 100000
''')],imports=[],
 demo='''b := pkg(`<w:p><w:r><w:drawing><wp:inline><wp:docPr id="100001" name="a"/></wp:inline></w:drawing></w:r></w:p>`, "")
d := open(b)
r := d.AddParagraph().AddInlineShape(1, 1, "s", "auto", "rect", nil)
if id := r.Children[0].(*docx.Drawing).Inline.DocPr.ID; id == 100001 { die("id %d is used twice", id) }'''),
dict(id='s54-split-shared-template',property='C21',needs='a piece of a split document gets another template',
 breaks='-',edits=[],skip=True,imports=[],demo=''),
dict(id='s55-append-order',property='C07',needs='appending a document with a table before a paragraph',
 breaks='-',edits=[],skip=True,imports=[],demo=''),
dict(id='s56-anchor-behind',property='C02',needs='an anchored drawing with behindDoc="1" after allowOverlap',
 breaks='-',edits=[],skip=True,imports=[],demo=''),
]
BUGS=[b for b in BUGS if not b.get('skip')]
