package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	docx "github.com/fumiama/go-docx"

	. "verif/harness/core"
)

// mdoc couples one implementation document with its model: the expected semantic items.
type mdoc struct {
	d     *docx.Docx
	items []*Node
}

// H is a multi-document state: slot 0 is the document operated on, slot 1 the other one.
type H struct {
	s      [2]*mdoc
	pieces []*mdoc // of the last split
	src    *mdoc   // what was split
	newID  string  // relationship id of the last added link
	newTo  string  // and its target
	refuse error   // result of the last refused picture
	nums   map[string]map[uintptr]bool
	err    error
	dir    string
}

// HOp is one operation.
type HOp struct {
	Name string
	Kind string // add, append, split, load, swap, reopen, none
	Do   func(h *H) bool
}

func mini(d *docx.Docx) *docx.Docx {
	n, l, f := MiniTemplate()
	return d.UseTemplate(n, l, f)
}

func newM() *mdoc { return &mdoc{d: mini(docx.New())} }

func (m *mdoc) lastPara() (*docx.Paragraph, *Node) {
	its := m.d.Document.Body.Items
	if len(its) != len(m.items) {
		return nil, nil
	}
	for i := len(its) - 1; i >= 0; i-- {
		if p, ok := its[i].(*docx.Paragraph); ok {
			return p, m.items[i]
		}
	}
	return nil, nil
}

// parsedM parses a package and takes its content as the model.
func parsedM(b []byte) *mdoc {
	p, err := ReadPkg(b)
	if err != nil {
		panic(err)
	}
	d, err := docx.Parse(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		panic(err)
	}
	return &mdoc{d, p.Canon(p.Body(), CanonOpts{}).Kids}
}

func hPara(text string) HOp {
	return HOp{"AddParagraph(" + text + ")", "none", func(h *H) bool {
		p := h.s[0].d.AddParagraph()
		n := E("w:p", nil)
		if text != "" {
			p.AddText(text)
			n.Kids = append(n.Kids, E("w:r", nil, mText(text)...))
		}
		h.s[0].items = append(h.s[0].items, n)
		return true
	}}
}

func hLink(text, to string) HOp {
	return HOp{fmt.Sprintf("AddLink(%s)", to), "add", func(h *H) bool {
		p, n := h.s[0].lastPara()
		if p == nil {
			return false
		}
		w := &W{ip: p, mp: n}
		opLink(text, to).Do(w)
		h.newID, h.newTo = w.il.ID, to
		return true
	}}
}

func hPic(kind, format string, wd, tag int) HOp {
	return HOp{fmt.Sprintf("Add%sDrawing(%s#%d)", kind, format, tag), "add", func(h *H) bool {
		p, n := h.s[0].lastPara()
		if p == nil {
			return false
		}
		w := &W{ip: p, mp: n}
		opPic(kind, format, wd, tag).Do(w)
		h.err = w.err
		return true
	}}
}

// hPicFrom adds a picture from a file.
func hPicFrom(kind, format string, tag int) HOp {
	return HOp{fmt.Sprintf("Add%sDrawingFrom(%s#%d)", kind, format, tag), "add", func(h *H) bool {
		p, n := h.s[0].lastPara()
		if p == nil {
			return false
		}
		b := Img(format, 1, 1, tag)
		fn := filepath.Join(h.dir, fmt.Sprintf("p-%s-%d.bin", format, tag))
		w := &W{ip: p, mp: n}
		var r *docx.Run
		var err error
		if kind == "inline" {
			r, err = p.AddInlineDrawingFrom(fn)
		} else {
			r, err = p.AddAnchorDrawingFrom(fn)
		}
		if err != nil {
			h.err = err
			return true
		}
		w.newRun(r, mPic(kind, b, format, 2637155, 2637155))
		return true
	}}
}

func hShape(kind, name string) HOp {
	return HOp{fmt.Sprintf("Add%sShape(%s)", kind, name), "add", func(h *H) bool {
		p, n := h.s[0].lastPara()
		if p == nil {
			return false
		}
		w := &W{ip: p, mp: n}
		opShape(kind, 11, 22, name, "rect", 1).Do(w)
		return true
	}}
}

func hTable(pic bool) HOp {
	return HOp{fmt.Sprintf("AddTable(1,2) with cell content (picture %v)", pic), "add", func(h *H) bool {
		w := &W{d: h.s[0].d, items: h.s[0].items}
		opTable(1, 2, 0, nil).Do(w)
		opCellPara(0, 1).Do(w)
		if pic {
			opPic("inline", "png", 2, 77).Do(w)
		}
		opLink("cell", "http://cell/").Do(w)
		h.err = w.err
		h.s[0].items = w.items
		return true
	}}
}

func hPage() HOp {
	return HOp{"WithA4Page", "none", func(h *H) bool {
		w := &W{d: h.s[0].d, items: h.s[0].items}
		opPage(false).Do(w)
		h.s[0].items = w.items
		return true
	}}
}

func hReopen() HOp {
	return HOp{"SaveAndParse", "reopen", func(h *H) bool {
		b, err := Save(h.s[0].d)
		if err != nil {
			h.err = err
			return true
		}
		d, err := docx.Parse(bytes.NewReader(b), int64(len(b)))
		if err != nil {
			h.err = fmt.Errorf("parse of own output: %w", err)
			return true
		}
		h.s[0] = &mdoc{d, h.s[0].items}
		return true
	}}
}

func hSave() HOp {
	return HOp{"Save", "none", func(h *H) bool {
		if _, err := Save(h.s[0].d); err != nil {
			h.err = err
		}
		return true
	}}
}

func cloneAll(ns []*Node) []*Node {
	var o []*Node
	for _, n := range ns {
		o = append(o, n.Clone())
	}
	return o
}

func hAppend(i int) HOp {
	return HOp{"AppendFile(" + []string{"itself", "other"}[i] + ")", "append", func(h *H) bool {
		if h.s[i] == nil {
			return false
		}
		add := cloneAll(h.s[i].items)
		h.s[0].d.AppendFile(h.s[i].d)
		h.s[0].items = append(h.s[0].items, add...)
		return true
	}}
}

func hSwap() HOp {
	return HOp{"swap", "swap", func(h *H) bool {
		if h.s[1] == nil {
			return false
		}
		h.s[0], h.s[1] = h.s[1], h.s[0]
		return true
	}}
}

var sepRe = regexp.MustCompile(`^S$`)

// isSep is the separator rule on the model.
func isSep(n *Node) bool {
	if n.Name != "w:p" || n.Content() != "S" {
		return false
	}
	plain := true
	n.Walk(func(x *Node) {
		switch x.Name {
		case "w:hyperlink", "w:drawing", "w:tab", "w:br", "w:instrText":
			plain = false
		}
	})
	return plain
}

func splitModel(items []*Node) (out [][]*Node) {
	for i, n := range items {
		if i == 0 || isSep(n) {
			out = append(out, nil)
		}
		out[len(out)-1] = append(out[len(out)-1], n.Clone())
	}
	return
}

// hSplit splits slot 0 and continues with piece 0 in slot 0 and the last piece (if another) in slot 1;
// last: the other way round.
func hSplit(last bool) HOp {
	return HOp{fmt.Sprintf("SplitByParagraph (continue with last %v)", last), "split", func(h *H) bool {
		if len(h.s[0].items) == 0 {
			return false
		}
		want := splitModel(h.s[0].items)
		got := h.s[0].d.SplitByParagraph(docx.SplitDocxByPlainTextRegex(sepRe))
		if len(got) != len(want) {
			h.err = fmt.Errorf("split gives %d documents, expected %d", len(got), len(want))
			return true
		}
		h.src = h.s[0]
		h.pieces = nil
		for i := range got {
			h.pieces = append(h.pieces, &mdoc{got[i], want[i]})
		}
		a, b := h.pieces[0], h.pieces[len(got)-1]
		if last {
			a, b = b, a
		}
		h.s[0] = a
		if a != b {
			h.s[1] = b
		}
		return true
	}}
}

func hLoad(withMedia bool) HOp {
	return HOp{fmt.Sprintf("LoadBodyItems (with media %v)", withMedia), "load", func(h *H) bool {
		var ms []docx.Media
		if withMedia {
			h.s[0].d.RangeRelationships(func(r *docx.Relationship) error {
				if m := h.s[0].d.Media(strings.TrimPrefix(strings.TrimPrefix(r.Target, "/word/"), "media/")); m != nil {
					for _, x := range ms {
						if x.Name == m.Name {
							return nil
						}
					}
					ms = append(ms, *m)
				}
				return nil
			})
		}
		h.s[0] = &mdoc{mini(docx.LoadBodyItems(append([]interface{}(nil), h.s[0].d.Document.Body.Items...), ms)), h.s[0].items}
		return true
	}}
}

// hBad offers something that is no picture.
func hBad(kind string, which int) HOp {
	bad := [][]byte{nil, []byte("x"), []byte("\x89PNG\r\n\x1a\n"), Img("png", 2, 1, 1)[:20], []byte("<svg/>"), []byte("GIF89"), []byte("GIF89a\x00\x00\x05\x00"), []byte("\xff\xd8\xff\xe0\x00\x10JFIF"), []byte("RIFFxxxxWEBP")}[which]
	return HOp{fmt.Sprintf("Add%sDrawing(garbage %d)", kind, which), "bad", func(h *H) bool {
		p, _ := h.s[0].lastPara()
		if p == nil {
			return false
		}
		if kind == "inline" {
			_, h.refuse = p.AddInlineDrawing(bad)
		} else {
			_, h.refuse = p.AddAnchorDrawing(bad)
		}
		return true
	}}
}

func hInc(name string) HOp {
	return HOp{"IncreaseID(" + name + ")", "inc", func(h *H) bool {
		k := fmt.Sprintf("%p/%s", h.s[0].d, name)
		if h.nums[k] == nil {
			h.nums[k] = map[uintptr]bool{}
		}
		n := h.s[0].d.IncreaseID(name)
		if h.nums[k][n] {
			h.err = fmt.Errorf("IncreaseID(%s) returned %d again", name, n)
		}
		h.nums[k][n] = true
		return true
	}}
}

// snap is what both documents look like when saved.
type snap struct {
	raw [2][]byte
	pkg [2]*Pkg
	bad [2][]string
	err error
}

func takeSnap(h *H) (s snap) {
	for i, m := range h.s {
		if m == nil {
			continue
		}
		b, err := Save(m.d)
		if err != nil {
			s.err = fmt.Errorf("save of slot %d: %w", i, err)
			return
		}
		s.raw[i] = b
		s.pkg[i], s.bad[i] = Consistent(b)
		if s.pkg[i] == nil {
			s.err = fmt.Errorf("saved slot %d: %s", i, s.bad[i][0])
			return
		}
	}
	return
}

// start is an initial pair of documents.
type start struct {
	name string
	mk   func() *H
}

// trans is one explored transition.
type trans struct {
	h             *H
	op            HOp
	before, after snap
	rep           string
}

// exploreH enumerates every history up to depth from every start and calls check on every transition.
func exploreH(c *Ctx, starts []start, ops []HOp, depth int, check func(t *trans)) {
	dir, clean := Scratch()
	defer clean()
	for _, f := range []string{"png", "gif", "jpeg"} {
		for tag := 0; tag < 100; tag += 9 {
			os.WriteFile(filepath.Join(dir, fmt.Sprintf("p-%s-%d.bin", f, tag)), Img(f, 1, 1, tag), 0o600)
		}
	}
	var rec func(st start, seq []int, before snap, sub func(k int) bool)
	rec = func(st start, seq []int, before snap, sub func(int) bool) {
		if c.Failing() {
			return
		}
		var nm []string
		for _, i := range seq {
			nm = append(nm, ops[i].Name)
		}
		rep := st.name + " :: " + strings.Join(nm, "; ")
		var after snap
		ok := false
		c.Guard("history", rep, func() {
			h := st.mk()
			h.nums = map[string]map[uintptr]bool{}
			h.dir = dir
			for k, i := range seq {
				h.newID, h.refuse, h.pieces, h.src = "", nil, nil, nil
				if !ops[i].Do(h) {
					return
				}
				if h.err != nil {
					if k == len(seq)-1 {
						c.Fail(ops[i].Kind+" error", h.err.Error(), rep)
					}
					return
				}
			}
			c.Trans(len(seq))
			after = takeSnap(h)
			if after.err != nil {
				c.Fail("save", after.err.Error(), rep)
				return
			}
			c.Trace()
			ok = true
			if len(seq) == 0 {
				return
			}
			c.Sample(fmt.Sprint("len", len(seq)), rep)
			check(&trans{h, ops[seq[len(seq)-1]], before, after, rep})
		})
		if !ok || len(seq) == depth {
			return
		}
		for i := range ops {
			if sub == nil || sub(i) {
				rec(st, append(append(make([]int, 0, len(seq)+1), seq...), i), after, nil)
			}
		}
	}
	Par(len(starts)*len(ops), func(k int) {
		st, first := starts[k/len(ops)], k%len(ops)
		rec(st, nil, snap{}, func(i int) bool { return i == first })
	})
}

// content compares the saved documents with the model.
func (t *trans) content(c *Ctx, tag string) bool {
	ok := true
	for i, m := range t.h.s {
		if m == nil {
			continue
		}
		want, got := Render(AbsNodes(m.items)), Render(t.after.pkg[i].Abs())
		c.State(got)
		if want != got {
			c.Fail(tag+" after "+t.op.Kind+": content of "+[]string{"the document", "the other document"}[i], FirstDiff(want, got), t.rep)
			ok = false
		}
	}
	return ok
}

// docPrIDs lists the drawing ids of a package in document order.
func docPrIDs(p *Pkg) (ids []string) {
	p.Doc.Walk(func(n *Node) {
		if n.Name == "wp:docPr" {
			ids = append(ids, n.Attr("id"))
		}
	})
	return
}

func mediaOf(p *Pkg) map[string]string {
	m := map[string]string{}
	for n, b := range p.Parts {
		if strings.HasPrefix(n, "word/media/") {
			m[n] = Sum(b)
		}
	}
	return m
}

// partsDiff compares all parts of two saves.
func partsDiff(a, b *Pkg) string {
	var d []string
	for n, x := range a.Parts {
		y, ok := b.Parts[n]
		if !ok {
			d = append(d, "part lost: "+n)
		} else if !bytes.Equal(x, y) {
			d = append(d, "part changed: "+n+": "+FirstDiff(string(x), string(y)))
		}
	}
	for n := range b.Parts {
		if _, ok := a.Parts[n]; !ok {
			d = append(d, "new part: "+n)
		}
	}
	sort.Strings(d)
	return strings.Join(d, "; ")
}

// masked is the body with references resolved and what copying may change in drawings hidden:
// the id of every drawing, and id and name of pictures.
func masked(p *Pkg) []*Node {
	b := p.Canon(p.Body(), CanonOpts{})
	b.Walk(func(n *Node) {
		if n.Name != "wp:inline" && n.Name != "wp:anchor" {
			return
		}
		dp := n.Child("wp:docPr")
		pic := n.Path("a:graphic", "a:graphicData", "pic:pic")
		if dp != nil {
			dp.Set("id", "#")
			if pic != nil {
				dp.Set("name", "#")
			}
		}
		if pic != nil {
			if cn := pic.Path("pic:nvPicPr", "pic:cNvPr"); cn != nil {
				cn.Set("id", "#").Set("name", "#")
			}
		}
	})
	return b.Kids
}

// relsKept: every relationship of before is unchanged in after.
func relsKept(before, after *Pkg) string {
	for _, r := range before.Rels {
		x, ok := after.Rel(r.ID)
		if !ok || x != r {
			return fmt.Sprintf("relationship %+v became %+v", r, x)
		}
	}
	m2 := mediaOf(after)
	for n, s := range mediaOf(before) {
		if m2[n] != s {
			return "media " + n + " changed or lost"
		}
	}
	return ""
}

// ---- start documents

// odd is a package with unusual but valid ids, names and nesting.
func odd(variant int) []byte {
	pic := func(kind, rid, docpr, name string) *Node {
		return E("w:r", nil, E("w:drawing", nil, E("wp:"+kind, A("distT", "0", "distB", "0", "distL", "0", "distR", "0"),
			E("wp:extent", A("cx", "11", "cy", "22")), E("wp:docPr", A("id", docpr, "name", name)), E("a:graphic", nil, E("a:graphicData", A("uri", "p"), pic0(rid))))))
	}
	link := func(rid string) *Node {
		return E("w:hyperlink", A("r:id", rid), E("w:r", nil, E("w:t", nil, T("lk "+rid))))
	}
	inl := func(docpr string, gd *Node) *Node {
		return E("w:r", nil, E("w:drawing", nil, E("wp:inline", A("distT", "0", "distB", "0", "distL", "0", "distR", "0"),
			E("wp:extent", A("cx", "11", "cy", "22")), E("wp:docPr", A("id", docpr, "name", "g")), E("a:graphic", nil, E("a:graphicData", A("uri", "p"), gd)))))
	}
	rels := BaseRels()
	rel := func(id, ty, tgt, mode string) { rels = append(rels, Rel{ID: id, Type: ty, Target: tgt, Mode: mode}) }
	media := func(name, f string, tag int) ZipEntry {
		return ZipEntry{Name: "word/media/" + name, Data: Img(f, 1, 1, tag)}
	}
	var es []ZipEntry
	body := E("w:body", nil)
	tx := func(s string) *Node { return E("w:p", nil, E("w:r", nil, E("w:t", nil, T(s)))) }
	switch variant {
	case 0: // ids out of order with gaps, media names the library would choose next, shared media
		rel("rId10", RelImage, "media/image100001.png", "")
		rel("rId7", RelLink, "http://old/", "External")
		rel("rId9", RelImage, "media/image1.png", "")
		rel("rId8", RelImage, "media/image1.png", "")
		es = []ZipEntry{media("image100001.png", "png", 41), media("image1.png", "png", 42), media("image2.gif", "gif", 43)}
		body.Kids = []*Node{tx("S"), E("w:p", nil, link("rId7"), pic("inline", "rId10", "100001", "a"), pic("anchor", "rId9", "100003", "b")),
			tx("S"), E("w:p", nil, pic("inline", "rId8", "5", "c"), link("rId7"), inl("100002", shape0("x")))}
	case 1: // absolute targets, link with picture, extension in capitals, names without number
		rel("rId4", RelImage, "/word/media/photo.JPEG", "")
		rel("rId5", RelImage, "media/a.b.png", "")
		rel("rId6", RelLink, "http://old/?a=1&b=2", "External")
		es = []ZipEntry{media("photo.JPEG", "jpeg", 44), media("a.b.png", "png", 45), media("image1.png", "png", 46)}
		lp := E("w:hyperlink", A("r:id", "rId6"), pic("inline", "rId5", "3", "in link"))
		body.Kids = []*Node{E("w:p", nil, pic("inline", "rId4", "2", "abs"), lp), E("w:tbl", nil, E("w:tblPr", nil), E("w:tblGrid", nil, E("w:gridCol", A("w:w", "5"))),
			E("w:tr", nil, E("w:tc", nil, E("w:p", nil, link("rId6"), pic("anchor", "rId5", "4", "in cell")))))}
	case 2: // nested references: group, canvas, group shape, text box, blip fill
		rel("rId4", RelImage, "media/n1.png", "")
		rel("rId5", RelImage, "media/n2.gif", "")
		rel("rId6", RelLink, "http://nested/", "External")
		es = []ZipEntry{media("n1.png", "png", 47), media("n2.gif", "gif", 48)}
		grp := E("wpg:wgp", nil, E("wpg:cNvGrpSpPr", nil), E("wpg:grpSpPr", nil, xfrm0()), pic0("rId4"),
			E("wpg:grpSp", nil, E("wpg:cNvPr", A("id", "9", "name", "gs")), E("wpg:cNvGrpSpPr", nil), E("wpg:grpSpPr", nil, xfrm0()), pic0("rId5"), shape0("rId4")))
		cnv := E("wpc:wpc", nil, E("wpc:bg", nil), E("wpc:whole", nil), pic0("rId5"), shape0("rId5"))
		box := shape0("x")
		box.Kids = append(box.Kids[:len(box.Kids)-1], E("wps:txbx", nil, E("w:txbxContent", nil, E("w:p", nil, link("rId6"), pic("inline", "rId4", "200001", "boxed"), inl("200002", shape0("x"))))), E("wps:bodyPr", nil))
		body.Kids = []*Node{E("w:p", nil, inl("7", grp), inl("8", cnv)), tx("S"), E("w:p", nil, inl("9", box))}
	case 3: // no relationship beyond styles; content types without images; foreign part, header
		rels = rels[:1]
		body.Kids = []*Node{E("w:p", nil, E("w:r", nil, E("w:t", nil, T("plain")))), tx("S")}
		es = []ZipEntry{{Name: "[Content_Types].xml", Data: []byte(`<?xml version="1.0"?><Types xmlns="` + NCT + `"><Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/><Default Extension="xml" ContentType="application/xml"/><Override PartName="/word/document.xml" ContentType="application/vnd.openxmlformats-officedocument.wordprocessingml.document.main+xml"/></Types>`)},
			{Name: "customXml/item1.xml", Data: []byte("<c/>")}}
	case 4: // content types with prefixes and an override for one media; prefixed relationships; huge ids
		rel("rId900000", RelImage, "media/m.bin", "")
		rel("rId99", RelLink, "http://huge/", "External")
		es = []ZipEntry{{Name: "[Content_Types].xml", Data: []byte(`<?xml version="1.0"?><c:Types xmlns:c="` + NCT + `"><c:Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/><c:Default Extension="XML" ContentType="application/xml"/><c:Override PartName="/word/media/m.bin" ContentType="image/png"/></c:Types>`)},
			{Name: "word/media/m.bin", Data: Img("png", 1, 1, 49)}}
		body.Kids = []*Node{E("w:p", nil, pic("anchor", "rId900000", "2147483646", "huge"), link("rId99")), E("w:sectPr", nil, E("w:pgSz", A("w:w", "5", "w:h", "6")))}
	}
	rx := RelsXML(rels...)
	if variant == 4 {
		rx = strings.NewReplacer("<Relationship", "<q:Relationship", "</Relationship", "</q:Relationship", `xmlns="`, `xmlns:q="`).Replace(rx)
	}
	return MiniPackage(DocXML(body), rx, es...)
}

func xfrm0() *Node {
	return E("a:xfrm", nil, E("a:off", A("x", "1", "y", "2")), E("a:ext", A("cx", "3", "cy", "4")))
}

func pic0(rid string) *Node {
	return E("pic:pic", nil, E("pic:nvPicPr", nil, E("pic:cNvPr", A("id", "3", "name", "pic")), E("pic:cNvPicPr", nil)),
		E("pic:blipFill", nil, E("a:blip", A("r:embed", rid), E("a:alphaModFix", A("amt", "50000"))), E("a:stretch", nil, E("a:fillRect", nil))),
		E("pic:spPr", nil, xfrm0(), E("a:prstGeom", A("prst", "rect"))))
}

// shape0 is a shape; fill: relationship of its picture fill ("x": none).
func shape0(fill string) *Node {
	sp := E("wps:spPr", nil, xfrm0(), E("a:prstGeom", A("prst", "ellipse")))
	if fill != "x" {
		sp.Kids = append(sp.Kids, E("a:blipFill", A("dpi", "0", "rotWithShape", "1"), E("a:blip", A("r:embed", fill)), E("a:tile", A("sx", "5"))))
	}
	return E("wps:wsp", nil, E("wps:cNvPr", A("id", "6", "name", "shp")), E("wps:cNvSpPr", nil), sp, E("wps:bodyPr", nil))
}

func startsH() []start {
	two := func(a, b func() *mdoc) func() *H {
		return func() *H { return &H{s: [2]*mdoc{a(), b()}} }
	}
	o := make([][]byte, 5)
	for i := range o {
		o[i] = odd(i)
	}
	od := func(i int) func() *mdoc { return func() *mdoc { return parsedM(o[i]) } }
	built := func() *mdoc {
		h := &H{s: [2]*mdoc{newM(), nil}}
		for _, op := range []HOp{hPara("S"), hLink("b", "http://b/"), hPic("inline", "png", 2, 31), hShape("anchor", "S")} {
			op.Do(h)
		}
		return h.s[0]
	}
	return []start{
		{"new|built", two(newM, built)},
		{"odd0|built", two(od(0), built)},
		{"odd1|odd0", two(od(1), od(0))},
		{"odd2|odd4", two(od(2), od(4))},
		{"odd3|odd2", two(od(3), od(2))},
		{"odd4|new", two(od(4), newM)},
	}
}

// edgeStarts are parsed documents whose greatest relationship id belongs to a relationship of each kind, at each end of
// the list, and documents with a drawing in each place whose ids are those the library would choose next.
func edgeStarts() (out []start) {
	for _, ty := range []string{RelLink, RelImage, RelBase + "header", RelBase + "customXml", RelBase + "theme", "urn:x", ""} {
		for _, mode := range []string{"", "External", "Internal"} {
			for _, first := range []bool{false, true} {
				for _, tgt := range []string{"media/image1.png", "http://e/", ""} {
					if (ty == RelImage) != (tgt == "media/image1.png") || ty == RelImage && mode == "External" {
						continue
					}
					big := Rel{ID: "rId8", Type: ty, Target: tgt, Mode: mode}
					rs := append(BaseRels(), Rel{ID: "rId7", Type: RelLink, Target: "http://old/", Mode: "External"})
					if first {
						rs = append([]Rel{big}, rs...)
					} else {
						rs = append(rs, big)
					}
					body := E("w:body", nil, E("w:p", nil, E("w:hyperlink", A("r:id", "rId7"), E("w:r", nil, E("w:t", nil, T("b"))))))
					pk := MiniPackage(DocXML(body), RelsXML(rs...), ZipEntry{Name: "word/media/image1.png", Data: Img("png", 1, 1, 50)})
					out = append(out, start{fmt.Sprintf("greatest id at %+v, first %v", big, first), func() *H { return &H{s: [2]*mdoc{parsedN(pk), newM()}} }})
				}
			}
		}
	}
	draw := func(kind, id string, gd ...*Node) *Node {
		return E("w:r", nil, E("w:drawing", nil, E("wp:"+kind, A("distT", "0", "distB", "0", "distL", "0", "distR", "0"),
			E("wp:extent", A("cx", "11", "cy", "22")), E("wp:docPr", A("id", id, "name", "图片 1")), E("a:graphic", nil, E("a:graphicData", A("uri", "p"), gd...)))))
	}
	box := func(x *Node) *Node {
		b := shape0("x")
		b.Kids = append(b.Kids[:len(b.Kids)-1], E("wps:txbx", nil, E("w:txbxContent", nil, E("w:p", nil, x))), E("wps:bodyPr", nil))
		return b
	}
	grp := func(x *Node) *Node {
		return E("wpg:wgp", nil, E("wpg:cNvGrpSpPr", nil), E("wpg:grpSpPr", nil, xfrm0()), x)
	}
	cnv := func(x *Node) *Node { return E("wpc:wpc", nil, E("wpc:bg", nil), E("wpc:whole", nil), x) }
	for _, kind := range []string{"inline", "anchor"} {
		for _, id := range []string{"100001", "100002", "1", "2"} {
			for i, gd := range []*Node{pic0("rId5"), shape0("x"), grp(pic0("rId5")), cnv(shape0("x")), nil} {
				var d *Node
				if gd == nil {
					d = draw(kind, id)
				} else {
					d = draw(kind, id, gd)
				}
				places := map[string]*Node{
					"paragraph":                   E("w:p", nil, d),
					"link":                        E("w:p", nil, E("w:hyperlink", A("r:id", "rId7"), d.Clone())),
					"text box":                    E("w:p", nil, draw("inline", "5", box(d.Clone()))),
					"text box in group":           E("w:p", nil, draw("anchor", "5", grp(box(d.Clone())))),
					"text box in group in canvas": E("w:p", nil, draw("inline", "5", cnv(grp(box(d.Clone()))))),
					"text box in a text box":      E("w:p", nil, draw("inline", "5", box(draw("inline", "6", box(d.Clone()))))),
				}
				places["cell"] = E("w:tbl", nil, E("w:tblPr", nil), E("w:tblGrid", nil, E("w:gridCol", A("w:w", "5"))), E("w:tr", nil, E("w:tc", nil, E("w:p", nil, d.Clone()))))
				places["cell of a table in a cell"] = E("w:tbl", nil, E("w:tblPr", nil), E("w:tblGrid", nil, E("w:gridCol", A("w:w", "5"))), E("w:tr", nil, E("w:tc", nil, places["cell"].Clone())))
				places["choice"] = E("w:p", nil, E("w:r", nil, E("mc:AlternateContent", nil, E("mc:Choice", A("Requires", "wps"), d.Clone().Kids...), E("mc:Fallback", nil))))
				var names []string
				for n := range places {
					names = append(names, n)
				}
				sort.Strings(names)
				for _, n := range names {
					rs := append(BaseRels(), Rel{ID: "rId7", Type: RelLink, Target: "http://old/", Mode: "External"}, Rel{ID: "rId5", Type: RelImage, Target: "media/image1.png"})
					pk := MiniPackage(DocXML(E("w:body", nil, places[n], E("w:p", nil))), RelsXML(rs...), ZipEntry{Name: "word/media/image1.png", Data: Img("png", 1, 1, 50)})
					out = append(out, start{fmt.Sprintf("%s drawing %d with id %s in %s", kind, i, id, n), func() *H { return &H{s: [2]*mdoc{parsedN(pk), newM()}} }})
				}
			}
		}
	}
	return
}

// parsedN is parsedM of markup that a save normalises.
func parsedN(b []byte) *mdoc {
	d := mustParse(b)
	raw, err := Save(d)
	if err != nil {
		panic(err)
	}
	return &mdoc{d, parsedM(raw).items}
}
