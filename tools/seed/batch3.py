import os
here='/verif/tools/seed'
P={}
for n in (1,2,3):
    g={}; exec(open(f'{here}/probes{n}.py').read(),g)
    for b in g['PROBES']: P[b['id']]=b
def seed(new,old,needs,breaks,imports,demo,edits=None):
    return dict(id=new,property=P[old]['property'],needs=needs,breaks=breaks,edits=edits or P[old]['edits'],imports=imports,demo=demo)
BUGS=[
seed('s60-many-pieces','p02-64kids','a text of more than 64 pieces (tabs and line breaks count)','the rest of the text is lost',['strings'],'''d := docx.New()
d.AddParagraph().AddText(strings.Repeat("a\\t", 50))
s := d.Document.Body.Items[0].(*docx.Paragraph).String()
if strings.Count(s, "a") != 50 { die("%d of 50", strings.Count(s, "a")) }'''),
seed('s61-numpr-empty-level','p03-numpr-shared','NumPr called again with the same number and an empty level','the old level stays',[],'''d := docx.New()
p := d.AddParagraph()
p.NumPr("1", "2").NumPr("1", "")
if v := p.Properties.NumProperties.Ilvl.Val; v != "" { die("level %q", v) }'''),
seed('s62-range-eof','p35-range-stop','a callback that returns io.EOF','the error of the callback is swallowed',['io'],'''d := docx.New()
d.AddParagraph().AddLink("l", "http://h/")
if err := d.RangeRelationships(func(*docx.Relationship) error { return io.EOF }); err != io.EOF { die("%v", err) }'''),
seed('s63-big-media','q10-bigmedia','a package with a medium above 1 MB','the medium is cut when read',['bytes'],'''d := docx.New().WithDefaultTheme()
img := append(png(1, 1, 1), bytes.Repeat([]byte{7}, 1<<21)...)
if _, err := d.AddParagraph().AddInlineDrawing(img); err != nil { die("%v", err) }
var buf bytes.Buffer
if _, err := d.WriteTo(&buf); err != nil { die("%v", err) }
e := open(buf.Bytes())
n := 0
for name := range parts(save(e)) {
	if len(name) > 11 && name[:11] == "word/media/" {
		n++
		if m := e.Media(name[11:]); m == nil || !bytes.Equal(m.Data, img) { die("medium differs") }
	}
}
if n != 1 { die("%d media", n) }'''),
seed('s64-lookup-break','q13-bsearch','more than 64 relationships whose ids differ in length','an id that is in the document is not found',['fmt'],'''d := docx.New()
p := d.AddParagraph()
ids := map[string]string{}
for i := 0; i < 130; i++ {
	u := fmt.Sprint("http://h/", i)
	p.AddLink("l", u)
	ids[p.Children[len(p.Children)-1].(*docx.Hyperlink).ID] = u
}
for id, u := range ids {
	if tg, err := d.ReferTarget(id); err != nil || tg != u { die("%s: %q %v", id, tg, err) }
}'''),
seed('s65-cell-many','q38-cell-only-text','a table cell of ten or more paragraphs','the text of the cell is missing from the text of the table',['strings'],'''d := docx.New()
t := d.AddTable(1, 1, 0, nil)
c := t.TableRows[0].TableCells[0]
for i := 0; i < 12; i++ {
	c.AddParagraph().AddText("cell")
}
if s := t.String(); !strings.Contains(s, "cell") { die("%q", s) }'''),
seed('s66-keep-1023','q56-keep-body','a body of more than 1023 items filtered with KeepElements','items of a kind to keep are lost',[],'''d := docx.New()
for i := 0; i < 1100; i++ {
	d.AddParagraph().AddText("x")
}
d.Document.Body.KeepElements("*docx.Paragraph")
if n := len(d.Document.Body.Items); n != 1100 { die("%d", n) }'''),
seed('s67-link-hash','r02-link-strip-hash','a link target that ends with a number sign','the target is changed',[],'''d := docx.New()
p := d.AddParagraph()
p.AddLink("top", "http://h/p#")
if tg, err := d.ReferTarget(p.Children[0].(*docx.Hyperlink).ID); tg != "http://h/p#" { die("%q %v", tg, err) }'''),
seed('s68-tables-join','r09-tables-join','two tables without properties next to each other','they become one table',[],'''tbl := `<w:tbl><w:tr><w:tc><w:p/></w:tc></w:tr></w:tbl>`
d := open(pkg(tbl+tbl, ""))
if n := len(d.Document.Body.Items); n != 2 { die("%d items", n) }'''),
seed('s69-border-space','r12-border-space31','a border with a space of 32 or more','the space is changed',['strings'],'''d := open(pkg(`<w:tbl><w:tblPr><w:tblBorders><w:top w:val="single" w:sz="4" w:space="40" w:color="auto"/></w:tblBorders></w:tblPr></w:tbl>`, ""))
if s := parts(save(d))["word/document.xml"]; !strings.Contains(string(s), `w:space="40"`) { die("%s", s) }'''),
seed('s70-box-blank-lines','r16-txbx-long','a text box with two empty paragraphs in a row','one of them is lost',['strings'],'''d := open(pkg(`<w:p><w:r><w:drawing><wp:inline><a:graphic><a:graphicData uri="u"><wps:wsp><wps:txbx><w:txbxContent><w:p/><w:p/><w:p><w:r><w:t>x</w:t></w:r></w:p></w:txbxContent></wps:txbx></wps:wsp></a:graphicData></a:graphic></wp:inline></w:drawing></w:r></w:p>`, ""))
if s := string(parts(save(d))["word/document.xml"]); strings.Count(s, "<w:p>")+strings.Count(s, "<w:p/>") != 4 { die("%s", s) }'''),
seed('s71-comment-starts-run','r18-comment-in-run','a comment inside a run that already has content','the rest of the run is dropped',['strings'],'''d := open(pkg(`<w:p><w:r><w:t>one</w:t><!-- note --><w:t>two</w:t></w:r></w:p>`, ""))
if s := d.Document.Body.Items[0].(*docx.Paragraph).String(); !strings.Contains(s, "two") { die("%q", s) }'''),
seed('s72-unsupported-ends-run','r19-choice-second-el','an unsupported element inside a compatibility choice before supported ones','the rest of the choice is dropped',['strings'],'''d := open(pkg(`<w:p><w:r><w:t>one</w:t><mc:AlternateContent><mc:Choice Requires="wps"><w:lastRenderedPageBreak/><w:t>two</w:t></mc:Choice></mc:AlternateContent></w:r></w:p>`, ""))
if s := d.Document.Body.Items[0].(*docx.Paragraph).String(); !strings.Contains(s, "two") { die("%q", s) }'''),
seed('s73-deep-unsupported','r21-deep-foreign','an unsupported element of a paragraph that nests six levels deep','what follows it is misread',['strings'],'''deep := strings.Repeat("<w:sdt>", 6) + "<w:r><w:t>hidden</w:t></w:r>" + strings.Repeat("</w:sdt>", 6)
d := open(pkg(`<w:p><w:r><w:t>one</w:t></w:r>`+deep+`<w:r><w:t>two</w:t></w:r></w:p><w:p><w:r><w:t>three</w:t></w:r></w:p>`, ""))
if n := len(d.Document.Body.Items); n != 2 { die("%d items", n) }
if s := d.Document.Body.Items[0].(*docx.Paragraph).String(); s != "onetwo" { die("%q", s) }'''),
seed('s74-many-attributes','r22-attr-count','an element with more than eight attributes, the known one behind unknown ones','the known attribute is lost',['strings'],'''d := open(pkg(`<w:p><w:pPr><w:jc w:a1="1" w:a2="1" w:a3="1" w:a4="1" w:a5="1" w:a6="1" w:a7="1" w:a8="1" w:a9="1" w:val="center"/></w:pPr><w:r><w:t>x</w:t></w:r></w:p>`, ""))
if s := string(parts(save(d))["word/document.xml"]); !strings.Contains(s, `"center"`) { die("%s", s) }'''),
seed('s76-part-tilde','q34-tmpl-hidden','a package part whose name begins with a tilde','the part is lost on re-save',['archive/zip','bytes'],'''var buf bytes.Buffer
zw := zip.NewWriter(&buf)
for n, b := range parts(pkg(`<w:p/>`, "")) {
	w, _ := zw.Create(n)
	w.Write([]byte(b))
}
w, _ := zw.Create("customXml/~item1.xml")
w.Write([]byte("<a/>"))
zw.Close()
if _, ok := parts(save(open(buf.Bytes())))["customXml/~item1.xml"]; !ok { die("part lost") }'''),
]
