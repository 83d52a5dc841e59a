package main

import (
	"bytes"
	"fmt"
	"io/fs"
	"regexp"
	"strconv"
	"strings"

	docx "github.com/fumiama/go-docx"

	. "verif/harness/core"
)

func init() {
	checks["C07"] = check{"model_checking", runC07}
	checks["C08"] = check{"model_checking", runC08}
}

// masked2 is masked with the identity of pictures hidden completely (sparse pictures get one when copied).
func masked2(p *Pkg) []*Node {
	ks := masked(p)
	for _, k := range ks {
		k.Walk(func(n *Node) {
			if n.Name != "wp:inline" && n.Name != "wp:anchor" {
				return
			}
			pic := n.Path("a:graphic", "a:graphicData", "pic:pic")
			if pic == nil {
				return
			}
			del := func(x *Node, name string) {
				for i, k := range x.Kids {
					if k.Name == name {
						x.Kids = append(append([]*Node{}, x.Kids[:i]...), x.Kids[i+1:]...)
						return
					}
				}
			}
			del(n, "wp:docPr")
			if nv := pic.Child("pic:nvPicPr"); nv != nil {
				del(nv, "pic:cNvPr")
				if len(nv.Kids) == 0 || (len(nv.Kids) == 1 && nv.Kids[0].Name == "pic:cNvPicPr" && len(nv.Kids[0].Kids) == 0 && len(nv.Kids[0].Attrs) == 0) {
					del(pic, "pic:nvPicPr")
				}
			}
		})
	}
	return ks
}

// vocabDocs lists documents that cover the vocabulary: every edge with a full child, and some dense ones.
func vocabDocs(depth int) (out []struct {
	name string
	body *Node
}) {
	add := func(n string, b *Node) {
		out = append(out, struct {
			name string
			body *Node
		}{n, b})
	}
	for _, e := range Edges() {
		add(e.Parent+"/"+e.Child, Wrap(e.Path, Full(e.Child, e.Parent, depth)))
		add("bare "+e.Parent+"/"+e.Child, Wrap(e.Path, Bare(e.Child, e.Parent)))
		if strings.Join(e.Path, " ") != "w:body" {
			add("twice "+e.Parent+"/"+e.Child, E("w:body", nil, Wrap(e.Path[1:], Full(e.Child, e.Parent, 1)), Wrap(e.Path[1:], Full(e.Child, e.Parent, 1))))
		}
	}
	// shapes with text and links, and pictures, at the end of every chain of groups and canvases
	text := E("w:p", nil, E("w:r", nil, E("w:rPr", nil, E("w:b", nil), E("w:color", A("w:val", "112233"))), E("w:t", nil, T("deep"))), E("w:hyperlink", A("r:id", "rId4"), E("w:r", nil, E("w:t", nil, T("link")))))
	shape := E("wps:wsp", nil, E("wps:txbx", nil, E("w:txbxContent", nil, text)), Full("wps:bodyPr", "wps:wsp", 2))
	next := map[string][]string{"a:graphicData": {"wpc:wpc", "wpg:wgp"}, "wpc:wpc": {"wpg:wgp"}, "wpg:wgp": {"wpg:grpSp", "wpc:wpc"}}
	var chain func(path []string, n int)
	chain = func(path []string, n int) {
		last := path[len(path)-1]
		if last != "a:graphicData" {
			add("chain "+strings.Join(path[6:], "/"), Wrap(path, shape.Clone(), Full("pic:pic", last, depth), shape.Clone()))
		}
		if n == 0 {
			return
		}
		for _, x := range next[last] {
			chain(append(append([]string{}, path...), x), n-1)
		}
	}
	for _, k := range []string{"wp:inline", "wp:anchor"} {
		chain([]string{"w:body", "w:p", "w:r", "w:drawing", k, "a:graphic", "a:graphicData"}, 3)
	}
	return
}

type vdoc = struct {
	name string
	body *Node
}

// seqDocs: every sequence of up to n repeatable children (bare and full ones) in every container,
// every container without each one of its children, and with each pair of its single children.
func seqDocs(n int) (out []vdoc) {
	done := map[string]bool{}
	for _, ed := range Edges() {
		if done[ed.Parent] {
			continue
		}
		done[ed.Parent] = true
		e := Lookup(ed.Parent, "")
		path := ed.Path
		mk := func(name string, kids ...*Node) {
			body := Wrap(path)
			par := body
			for _, p := range path[1:] {
				par = par.Child(p)
			}
			par.Kids = kids
			out = append(out, vdoc{name, body})
		}
		var al []func() *Node
		for _, k := range e.Seq {
			k := k
			al = append(al, func() *Node { return Bare(k, e.Name) }, func() *Node { return Full(k, e.Name, 2) })
		}
		max := n
		if len(al) > 4 {
			max = n - 1
		}
		var rec func(seq []int)
		rec = func(seq []int) {
			if len(seq) > 1 {
				var kids []*Node
				for _, i := range seq {
					kids = append(kids, al[i]())
				}
				mk(fmt.Sprintf("children %v of %s", seq, e.Name), kids...)
			}
			if len(seq) < max {
				for i := range al {
					rec(append(append([]int{}, seq...), i))
				}
			}
		}
		rec(nil)
		full := Full(e.Name, "", 2).Kids
		for i := range full {
			var kids []*Node
			for j, k := range Full(e.Name, "", 2).Kids {
				if i != j {
					kids = append(kids, k)
				}
			}
			mk(fmt.Sprintf("%s without %s", e.Name, full[i].Name), kids...)
		}
		ks := e.KidNames()
		for i := range ks {
			for j := range ks[:i] {
				if Exclusive(e, ks[i], ks[j]) || ks[i] == "w:instrText" || ks[j] == "w:instrText" {
					continue
				}
				mk(fmt.Sprintf("%s with %s and %s", e.Name, ks[j], ks[i]), Full(ks[j], e.Name, 1), Full(ks[i], e.Name, 1))
			}
		}
	}
	return
}

// pairDocs: any two features of the vocabulary together.
func pairDocs(rich bool, keep func(a, b Feature) bool) (out []vdoc) {
	PairDocs(rich, keep, func(name string, b *Node) { out = append(out, vdoc{name, b}) })
	return
}

// manyDocs: many copies of everything that repeats, and every word and number as every value.
func manyDocs(counts []int, batch int) (out []vdoc) {
	BulkDocs(counts, func(name string, b *Node) { out = append(out, vdoc{name, b}) })
	ValueBatches(batch, func(name string, b *Node) { out = append(out, vdoc{name, b}) })
	TwinBatches(batch, func(name string, b *Node) { out = append(out, vdoc{name, b}) })
	return
}

func mustParse(b []byte) *docx.Docx {
	d, err := docx.Parse(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		panic(err)
	}
	return d
}

func savePkg(d *docx.Docx) (*Pkg, []byte, error) {
	b, err := Save(d)
	if err != nil {
		return nil, nil, err
	}
	p, err := ReadPkg(b)
	return p, b, err
}

// formatAll applies every formatting and editing call of the API to everything in a document.
func formatAll(d *docx.Docx) {
	var para func(p *docx.Paragraph)
	var drawing func(x *docx.Drawing)
	shape := func(s *docx.WordprocessingShape) {
		if s != nil && s.TextBox != nil && s.TextBox.Content != nil {
			for i := range s.TextBox.Content.Paragraphs {
				para(&s.TextBox.Content.Paragraphs[i])
			}
		}
	}
	var elems func(es []interface{})
	elems = func(es []interface{}) {
		for _, e := range es {
			switch x := e.(type) {
			case *docx.WordprocessingShape:
				shape(x)
			case *docx.WordprocessingGroup:
				elems(x.Elems)
			case *docx.WPGGroupShape:
				elems(x.Elems)
			case *docx.WordprocessingCanvas:
				elems(x.Items)
			}
		}
	}
	data := func(g *docx.AGraphicData) {
		shape(g.Shape)
		if g.Group != nil {
			elems([]interface{}{g.Group})
		}
		if g.Canvas != nil {
			elems([]interface{}{g.Canvas})
		}
	}
	drawing = func(x *docx.Drawing) {
		if in := x.Inline; in != nil {
			if in.Graphic != nil && in.Graphic.GraphicData != nil {
				if in.Extent != nil && in.Graphic.GraphicData.Pic != nil && in.Graphic.GraphicData.Pic.SpPr != nil {
					in.Size(77, 88)
				}
				data(in.Graphic.GraphicData)
			}
		}
		if a := x.Anchor; a != nil {
			if a.Graphic != nil && a.Graphic.GraphicData != nil {
				if a.Extent != nil && a.Graphic.GraphicData.Pic != nil && a.Graphic.GraphicData.Pic.SpPr != nil {
					a.Size(77, 88)
				}
				data(a.Graphic.GraphicData)
			}
		}
	}
	run := func(r *docx.Run) {
		if r.RunProperties != nil {
			r.Color("ABCDEF").Size("99").SizeCs("98").Shade("mut", "mut", "mut").Spacing(77).Bold().Italic().Underline("mut").Highlight("mut").Strike(true).Font("m", "m", "m", "m")
		}
		for _, c := range r.Children {
			if x, ok := c.(*docx.Drawing); ok {
				drawing(x)
			}
		}
		r.AddTab()
	}
	para = func(p *docx.Paragraph) {
		p.Justification("mut").Style("mut").NumPr("77", "8").NumFont("m", "m", "m", "m").NumSize("77")
		for _, c := range p.Children {
			switch x := c.(type) {
			case *docx.Run:
				run(x)
			case *docx.Hyperlink:
				run(&x.Run)
			}
		}
		p.AddText("mut")
	}
	for _, it := range d.Document.Body.Items {
		switch x := it.(type) {
		case *docx.Paragraph:
			para(x)
		case *docx.Table:
			if x.TableProperties != nil {
				x.Justification("mut")
			}
			for _, tr := range x.TableRows {
				if tr.TableRowProperties != nil {
					tr.Justification("mut")
				}
				for _, tc := range tr.TableCells {
					for _, p := range tc.Paragraphs {
						para(p)
					}
					if tc.TableCellProperties != nil {
						tc.Shade("mut", "mut", "mut")
					}
					tc.AddParagraph().AddText("mut")
				}
			}
		}
	}
	d.AddParagraph().AddText("mut")
}

// appendDoc appends B to A and checks the whole of C07 on the pair.
func appendDoc(c *Ctx, what string, mkA, mkB func() *docx.Docx, rep string) {
	c.Guard("append "+what, rep, func() {
		a, b := mkA(), mkB()
		pa, _, err := savePkg(a)
		if err != nil {
			c.Fail("save before append: "+what, err.Error(), rep)
			return
		}
		pb, rb, err := savePkg(b)
		if err != nil {
			c.Fail("save before append: "+what, err.Error(), rep)
			return
		}
		a.AppendFile(b)
		c.Trans(1)
		c.Trace()
		qa, ra := checkAppend(c, what, pa, pb, a, rep)
		if qa == nil {
			return
		}
		if x, err := Save(b); err != nil || !sameParts(x, rb) {
			c.Fail("append changes the appended document: "+what, fmt.Sprint(err, " ", FirstDiff(string(pb.Parts["word/document.xml"]), docXMLOf(x))), rep)
		}
		c.State(Render(masked2(qa)))
		// the copy and the source are independent
		formatAll(b)
		if x, err := Save(a); err != nil || !sameParts(x, ra) {
			c.Fail("editing the source changes the result: "+what, fmt.Sprint(err, " ", FirstDiff(docXMLOf(ra), docXMLOf(x))), rep)
		}
		b2 := mkB()
		a2 := mkA()
		a2.AppendFile(b2)
		formatAll(a2)
		if x, err := Save(b2); err != nil || !sameParts(x, rb) {
			c.Fail("editing the result changes the source: "+what, fmt.Sprint(err, " ", FirstDiff(docXMLOf(rb), docXMLOf(x))), rep)
		}
		c.Trans(2)
	})
}

// selfAppend appends a document to itself.
func selfAppend(c *Ctx, what string, mk func() *docx.Docx, rep string) {
	c.Guard("self-append "+what, rep, func() {
		a := mk()
		p, _, err := savePkg(a)
		if err != nil {
			c.Fail("save before append: "+what, err.Error(), rep)
			return
		}
		a.AppendFile(a)
		c.Trans(1)
		c.Trace()
		checkAppend(c, what+", to itself", p, p, a, rep)
		// the items and their copies are independent
		all := a.Document.Body.Items
		n := len(all) / 2
		a.Document.Body.Items = all[n:len(all):len(all)]
		before, err := Save(a)
		a.Document.Body.Items = all[:n:n]
		formatAll(a)
		a.Document.Body.Items = all[n:len(all):len(all)]
		after, err2 := Save(a)
		if err != nil || err2 != nil || docXMLOf(before) != docXMLOf(after) {
			c.Fail("after appending to itself, editing an original item changes its copy: "+what, FirstDiff(docXMLOf(before), docXMLOf(after)), rep)
		}
		c.Trans(1)
	})
}

// sameParts: two saved packages have the same parts (the order in the archive is free).
func sameParts(a, b []byte) bool {
	_, x, err := ReadZip(a)
	_, y, err2 := ReadZip(b)
	if err != nil || err2 != nil || len(x) != len(y) {
		return false
	}
	for n := range x {
		if z, ok := y[n]; !ok || !bytes.Equal(x[n], z) {
			return false
		}
	}
	return true
}

func docXMLOf(b []byte) string {
	_, parts, err := ReadZip(b)
	if err != nil {
		return err.Error()
	}
	return string(parts["word/document.xml"])
}

// checkAppend compares A after the append with A and B before.
func checkAppend(c *Ctx, what string, pa, pb *Pkg, a *docx.Docx, rep string) (*Pkg, []byte) {
	raw, err := Save(a)
	if err != nil {
		c.Fail("save after append: "+what, err.Error(), rep)
		return nil, nil
	}
	qa, bad := Consistent(raw)
	if qa == nil || len(bad) > 0 {
		c.Fail("result of append is inconsistent: "+what, strings.Join(bad, "; "), rep)
		return nil, nil
	}
	own := pa.Canon(pa.Body(), CanonOpts{}).Kids
	now := qa.Canon(qa.Body(), CanonOpts{}).Kids
	if len(now) != len(own)+len(pb.Body().Kids) {
		c.Fail("append: number of items: "+what, fmt.Sprintf("%d + %d gives %d", len(own), len(pb.Body().Kids), len(now)), rep)
		return qa, raw
	}
	if w, g := Render(own), Render(now[:len(own)]); w != g {
		c.Fail("append changes the existing items: "+what, FirstDiff(w, g), rep)
	}
	if w, g := Render(masked2(pb)), Render(masked2(qa)[len(own):]); w != g {
		c.Fail("appended items differ: "+what, FirstDiff(w, g), rep)
	}
	if d := relsKept(pa, qa); d != "" {
		c.Fail("append does not keep relationships and media: "+what, d, rep)
	}
	for n, x := range pa.Parts {
		if n != "word/document.xml" && n != "word/_rels/document.xml.rels" && n != "[Content_Types].xml" && !bytes.Equal(x, qa.Parts[n]) {
			c.Fail("append changes another part: "+what, n, rep)
		}
	}
	return qa, raw
}

func runC07(c *Ctx) {
	c.Rule = "every history of appends up to the depth between two documents, and every vocabulary document appended to four receivers and to itself, documents of many sizes; state = content of the result"
	// histories
	chk := func(t *trans) {
		if t.op.Kind != "append" {
			return
		}
		i := 0
		if strings.Contains(t.op.Name, "other") {
			i = 1
		}
		qa, _ := checkAppend(c, "history", t.before.pkg[0], t.before.pkg[i], t.h.s[0].d, t.rep)
		if qa == nil {
			return
		}
		if i == 1 {
			if d := partsDiff(t.before.pkg[1], t.after.pkg[1]); d != "" {
				c.Fail("append changes the appended document", d, t.rep)
			}
		}
		t.content(c, "content")
	}
	ops := []HOp{hPara("S"), hLink("l", "http://l/"), hPic("inline", "png", 2, 1), hPic("anchor", "gif", 1, 2), hShape("anchor", "S"), hTable(true), hPage(),
		hReopen(), hAppend(1), hAppend(0), hSwap(), hSplit(true), hLoad(true)}
	exploreH(c, startsH(), ops, c.Pick(3, 4), chk)
	exploreBulk(c, chk)
	exploreH(c, startsH(), []HOp{hLink("l", "http://l/"), hPic("inline", "jpeg", 2, 3), hAppend(1), hAppend(0), hSwap()}, c.Pick(4, 5), chk)
	// link targets that look like targets of other relationships, equal ones, and odd ones
	for _, t := range []string{"media/image1.png", "styles.xml", "", "#a b", "http://é?a=1&b=<\"'>", "/word/media/image1.png"} {
		exploreH(c, startsH(), []HOp{hLink("l", t), hLink("m", "http://l/"), hPic("inline", "png", 2, 1), hAppend(1), hAppend(0), hSwap(), hReopen()}, c.Pick(3, 4), chk)
	}
	// vocabulary
	recv := []func() *docx.Docx{func() *docx.Docx { return mini(docx.New()) }}
	for i := 0; i < 3; i++ {
		o := odd(i)
		recv = append(recv, func() *docx.Docx { return mustParse(o) })
	}
	docs := append(vocabDocs(c.Pick(3, 4)), seqDocs(c.Pick(3, 4))...)
	Par(len(docs)*2, func(k int) {
		i := k / 2
		pkg := GrammarPackage(DocXML(docs[i].body))
		rep := docs[i].name + " :: " + docs[i].body.String()
		if k%2 == 1 {
			appendDoc(c, docs[i].name, recv[i%3+1], func() *docx.Docx { return mustParse(pkg) }, rep)
		} else {
			appendDoc(c, docs[i].name, recv[0], func() *docx.Docx { return mustParse(pkg) }, rep)
			selfAppend(c, docs[i].name, func() *docx.Docx { return mustParse(pkg) }, rep)
		}
		c.Sample("vocabulary", docs[i].name)
	})
	ps := pairDocs(false, func(a, b Feature) bool { return c.Thorough() || a.Below("w:drawing") || b.Below("w:drawing") })
	c.AddExtra("combinations of two features", len(ps))
	ms := manyDocs([]int{3, 17, 65, 130}, c.Pick(32, 8))
	c.AddExtra("documents of many copies and values", len(ms))
	ps = append(ps, ms...)
	Par(len(ps), func(i int) {
		pkg := GrammarPackage(DocXML(ps[i].body))
		appendDoc(c, "two features", recv[i%4], func() *docx.Docx { return mustParse(pkg) }, ps[i].name+" :: "+ps[i].body.String())
		selfAppend(c, "two features", func() *docx.Docx { return mustParse(pkg) }, ps[i].name+" :: "+ps[i].body.String())
	})
	// what refers to nothing in the source refers to nothing in the copy
	Par(60, func(k int) {
		id := fmt.Sprint("rId", k)
		for _, r := range GrammarRels() {
			if r.ID == id {
				return
			}
		}
		link := E("w:p", nil, E("w:hyperlink", A("r:id", id), E("w:r", nil, E("w:t", nil, T("b")))), E("w:r", nil, E("w:t", nil, T("c"))))
		pic := Bare("w:drawing", "w:r")
		for _, x := range docs {
			if ds := x.body.All("w:drawing"); len(ds) > 0 && len(ds[0].All("a:blip")) > 0 {
				pic = ds[0].Clone()
				for _, b := range pic.All("a:blip") {
					b.Set("r:embed", id)
				}
				break
			}
		}
		tbl := E("w:tbl", nil, E("w:tr", nil, E("w:tc", nil, link)))
		for ri, body := range []*Node{E("w:body", nil, link), E("w:body", nil, tbl), E("w:body", nil, E("w:p", nil, E("w:r", nil, pic)))} {
			for rj, mk := range recv {
				rep := fmt.Sprintf("reference to the missing %s (%d) appended to receiver %d", id, ri, rj)
				c.Guard("dangling", rep, func() {
					a, b := mk(), mustParse(GrammarPackage(DocXML(body)))
					a.AddParagraph().AddLink("own", "http://own/")
					own := len(a.Document.Body.Items)
					a.AppendFile(b)
					c.Trans(1)
					c.Trace()
					c.State(rep)
					raw, err := Save(a)
					if err != nil {
						c.Fail("dangling: save", err.Error(), rep)
						return
					}
					p, err := ReadPkg(raw)
					if err != nil {
						c.Fail("dangling: read", err.Error(), rep)
						return
					}
					for _, it := range p.Body().Kids[own:] {
						if txt := it.All("w:t"); ri < 2 && (len(txt) != 2 || txt[0].String() != "<w:t>b</w:t>") {
							c.Fail("the text of a link that points nowhere is lost", it.String(), rep)
						}
						for _, n := range append(it.All("w:hyperlink"), it.All("a:blip")...) {
							for _, at := range []string{"r:id", "r:embed"} {
								for _, r := range p.Rels {
									if v := n.Attr(at); v != "" && v == r.ID {
										c.Fail("a reference to nothing refers to something once appended", v+" -> "+r.Target, rep)
									}
								}
							}
						}
					}
				})
			}
		}
	})
	// receivers and appended documents with other parts
	others := otherParts()
	Par(len(others)*2, func(k int) {
		o := others[k/2]
		body := E("w:body", nil, E("w:p", nil, E("w:hyperlink", A("r:id", "rId4"), E("w:r", nil, E("w:t", nil, T("b"))))), E("w:p", nil))
		with, without := GrammarPackage(DocXML(body), o...), odd(k/2%4)
		rep := fmt.Sprintf("a package that also has %d parts like %s, %s", len(o)-1, o[0].Name, []string{"as receiver", "appended"}[k%2])
		if k%2 == 1 {
			with, without = without, with
		}
		appendDoc(c, "other parts", func() *docx.Docx { return mustParse(with) }, func() *docx.Docx { return mustParse(without) }, rep)
	})
	// the odd documents with each other, both ways, and with themselves
	Par(25, func(k int) {
		x, y := odd(k/5), odd(k%5)
		appendDoc(c, fmt.Sprintf("odd%d+odd%d", k/5, k%5), func() *docx.Docx { return mustParse(x) }, func() *docx.Docx { return mustParse(y) }, fmt.Sprintf("odd %d %d", k/5, k%5))
	})
	c.Assume("ids and generated names of copied drawings are new by design and compared only for freshness (C05)")
}

// ---- C08

// splitKinds are the body items of the split enumeration.
var splitKinds = []struct {
	name string
	add  func(h *H)
}{
	{"P", func(h *H) { hPara("x").Do(h) }},
	{"L", func(h *H) { hPara("y").Do(h); hLink("l", "http://l/").Do(h) }},
	{"T", func(h *H) { hTable(true).Do(h) }},
	{"E", func(h *H) { hPage().Do(h) }},
	{"I", func(h *H) { hPara("z").Do(h); hPic("inline", "png", 2, 5).Do(h) }},
	{"0", func(h *H) { hPara("").Do(h) }},
	{"G", func(h *H) { hPara("S").Do(h); hShape("anchor", "g").Do(h) }},
}

// checkPieces decides the partition law for one split: starts[i] says whether item i begins a new document.
func checkPieces(c *Ctx, what string, before *Pkg, pieces []*docx.Docx, starts []bool, rep string) {
	want := masked2(before)
	if len(want) != len(starts) {
		c.Fail("split: harness item count: "+what, fmt.Sprint(len(want), len(starts)), rep)
		return
	}
	var groups [][]*Node
	for i, n := range want {
		if i == 0 || starts[i] {
			groups = append(groups, nil)
		}
		groups[len(groups)-1] = append(groups[len(groups)-1], n)
	}
	if len(groups) != len(pieces) {
		c.Fail("split: number of documents: "+what, fmt.Sprintf("want %d, got %d", len(groups), len(pieces)), rep)
		return
	}
	for i, d := range pieces {
		raw, err := Save(d)
		if err != nil {
			c.Fail("split: save of a piece: "+what, err.Error(), rep)
			return
		}
		p, bad := Consistent(raw)
		if p == nil || len(bad) > 0 {
			c.Fail("split: inconsistent piece: "+what, strings.Join(bad, "; "), rep)
			return
		}
		if w, g := Render(groups[i]), Render(masked2(p)); w != g {
			c.Fail("split: content of a piece: "+what, fmt.Sprintf("piece %d: %s", i, FirstDiff(w, g)), rep)
			return
		}
		for n, x := range before.Parts {
			if n == "word/document.xml" || n == "word/_rels/document.xml.rels" || n == "[Content_Types].xml" || strings.HasPrefix(n, "word/media/") {
				continue
			}
			if !bytes.Equal(x, p.Parts[n]) {
				c.Fail("split: part of the template lost or changed: "+what, n, rep)
			}
		}
		d2, err := docx.Parse(bytes.NewReader(raw), int64(len(raw)))
		if err != nil {
			c.Fail("split: piece does not re-open: "+what, err.Error(), rep)
			return
		}
		p2, _, err := savePkg(d2)
		if err != nil {
			c.Fail("split: re-opened piece does not save: "+what, err.Error(), rep)
			return
		}
		if w, g := Render(p.Canon(p.Body(), CanonOpts{}).Kids), Render(p2.Canon(p2.Body(), CanonOpts{}).Kids); w != g {
			c.Fail("split: piece changes when re-opened: "+what, FirstDiff(w, g), rep)
		}
	}
}

// splitBy splits d where pred holds and checks everything.
func splitBy(c *Ctx, what string, d *docx.Docx, pred func(i int, p *docx.Paragraph) bool, indep bool, rep string) {
	c.Guard("split "+what, rep, func() {
		before, rb, err := savePkg(d)
		if err != nil {
			c.Fail("save before split: "+what, err.Error(), rep)
			return
		}
		idx := map[*docx.Paragraph]int{}
		starts := make([]bool, len(d.Document.Body.Items))
		for i, it := range d.Document.Body.Items {
			if p, ok := it.(*docx.Paragraph); ok {
				idx[p] = i
				starts[i] = pred(i, p)
			}
		}
		outside := false
		pieces := d.SplitByParagraph(func(p *docx.Paragraph) bool {
			i, ok := idx[p]
			if !ok {
				outside = true
				return true
			}
			return pred(i, p)
		})
		c.Trans(1)
		c.Trace()
		_ = outside // a paragraph the rule is asked about that is no body item is a copy or in a cell: result decides
		checkPieces(c, what, before, pieces, starts, rep)
		if x, err := Save(d); err != nil || !sameParts(x, rb) {
			c.Fail("split changes the original: "+what, fmt.Sprint(err, " ", FirstDiff(docXMLOf(rb), docXMLOf(x))), rep)
		}
		if !indep {
			return
		}
		var saved [][]byte
		for _, p := range pieces {
			b, _ := Save(p)
			saved = append(saved, b)
		}
		formatAll(d)
		for i, p := range pieces {
			if x, err := Save(p); err != nil || !sameParts(x, saved[i]) {
				c.Fail("editing the original changes a piece: "+what, fmt.Sprint(err, " ", FirstDiff(docXMLOf(saved[i]), docXMLOf(x))), rep)
				return
			}
		}
		// editing one piece leaves the original and the other pieces alone
		orig, err := Save(d)
		if err != nil {
			c.Fail("save after editing: "+what, err.Error(), rep)
			return
		}
		for i, p := range pieces {
			formatAll(p)
			q := p.AddParagraph()
			q.AddLink("new", "http://new/")
			q.AddInlineDrawing(Img("png", 3, 3, i))
			q.AddAnchorShape(1, 1, "new", "auto", "rect", nil)
			c.Trans(1)
			if x, err := Save(d); err != nil || !sameParts(x, orig) {
				c.Fail("editing a piece changes the original: "+what, fmt.Sprint(err, " ", FirstDiff(docXMLOf(orig), docXMLOf(x))), rep)
				return
			}
			for j := i + 1; j < len(pieces); j++ {
				if x, err := Save(pieces[j]); err != nil || !sameParts(x, saved[j]) {
					c.Fail("editing a piece changes another one: "+what, fmt.Sprint(err, " ", FirstDiff(docXMLOf(saved[j]), docXMLOf(x))), rep)
					return
				}
			}
			if x, err := Save(p); err != nil {
				c.Fail("save of an edited piece: "+what, err.Error(), rep)
			} else if _, bad := Consistent(x); len(bad) > 0 {
				c.Fail("edited piece is inconsistent: "+what, strings.Join(bad, "; "), rep)
			}
		}
	})
}

func runC08(c *Ctx) {
	c.Rule = "every body up to the length over the item kinds, every set of matching paragraphs; every vocabulary document; every split in two-document histories"
	maxLen := c.Pick(4, 5)
	var seqs [][]int
	var gen func(s []int, kinds, n int)
	gen = func(s []int, kinds, n int) {
		seqs = append(seqs, append([]int(nil), s...))
		if len(s) == n {
			return
		}
		for k := 0; k < kinds; k++ {
			gen(append(s, k), kinds, n)
		}
	}
	gen(nil, len(splitKinds), maxLen-1)
	n1 := len(seqs)
	gen(nil, 4, maxLen+c.Pick(0, 1))
	Par(len(seqs), func(k int) {
		if c.Failing() {
			return
		}
		seq := seqs[k]
		if k >= n1 && len(seq) < maxLen {
			return // covered
		}
		var nm []string
		mk := func() *docx.Docx {
			h := &H{s: [2]*mdoc{newM(), nil}}
			for _, i := range seq {
				splitKinds[i].add(h)
			}
			return h.s[0].d
		}
		var paras []int
		for i, q := range seq {
			nm = append(nm, splitKinds[q].name)
			if n := splitKinds[q].name; n != "T" && n != "E" {
				paras = append(paras, i)
			}
		}
		for set := 0; set < 1<<len(paras); set++ {
			m := map[int]bool{}
			for b, i := range paras {
				m[i] = set>>b&1 == 1
			}
			rep := strings.Join(nm, " ") + fmt.Sprintf(" split at %b of the paragraphs", set)
			c.State(rep)
			c.Sample(fmt.Sprint("len", len(seq)), rep)
			d := mk()
			if (k+set)%2 == 0 && len(seq) > 0 { // half of them re-opened first
				b, err := Save(d)
				if err != nil {
					c.Fail("save", err.Error(), rep)
					return
				}
				if d, err = docx.Parse(bytes.NewReader(b), int64(len(b))); err != nil {
					c.Fail("parse", err.Error(), rep)
					return
				}
			}
			splitBy(c, "enumerated body", d, func(i int, _ *docx.Paragraph) bool { return m[i] }, set == 0 || len(seq) < 3, rep)
		}
	})
	// rules by text
	texts := []string{"S", "x", "", "S x", "xS", "第一章", "S\tS", " S", "S ", "\nS", "s"}
	res := []string{`^S$`, `S`, `^$`, ``, `x$`, `章`, `\t`, `^nothing$`, `^S`, `^\s`, `\s$`, `(?i)^s$`, `\n`}
	var tseq [][]int
	for a := range texts {
		tseq = append(tseq, []int{a})
		for b := range texts {
			tseq = append(tseq, []int{a, b})
			for d := range texts {
				tseq = append(tseq, []int{a, b, d})
			}
		}
	}
	Par(len(tseq)*len(res), func(k int) {
		seq, re := tseq[k/len(res)], regexp.MustCompile(res[k%len(res)])
		d := mini(docx.New())
		var starts []bool
		for _, i := range seq {
			p := d.AddParagraph()
			if texts[i] != "" {
				p.AddText(texts[i])
			}
			starts = append(starts, re.MatchString(texts[i]))
		}
		rep := fmt.Sprintf("texts %v rule %q", seq, re)
		c.Guard("split by text", rep, func() {
			before, _, err := savePkg(d)
			if err != nil {
				c.Fail("save before split", err.Error(), rep)
				return
			}
			c.Trans(1)
			checkPieces(c, "split by text", before, d.SplitByParagraph(docx.SplitDocxByPlainTextRegex(re)), starts, rep)
		})
	})
	// packages with other parts
	others := otherParts()
	Par(len(others), func(k int) {
		body := E("w:body", nil, E("w:p", nil, E("w:r", nil, E("w:t", nil, T("a")))), E("w:p", nil, E("w:hyperlink", A("r:id", "rId4"), E("w:r", nil, E("w:t", nil, T("b"))))), E("w:p", nil))
		splitBy(c, "other parts", mustParse(GrammarPackage(DocXML(body), others[k]...)), func(i int, _ *docx.Paragraph) bool { return true }, false, fmt.Sprintf("a package that also has %d parts like %s", len(others[k]), others[k][0].Name))
	})
	// sizes: many pieces, and long pieces
	sizes := []int{9, 17, 31, 33, 64, 65, 100, 129, 257, 300, c.Pick(515, 1030)}
	Par(len(sizes)*4, func(k int) {
		n, every := sizes[k/4], []int{1, 2, 7, 1 << 30}[k%4]
		d := docx.New().WithDefaultTheme()
		for i := 0; i < n; i++ {
			d.AddParagraph().AddText(fmt.Sprint("p", i))
			if i%5 == 4 {
				d.AddTable(1, 1, 0, nil).TableRows[0].TableCells[0].AddParagraph().AddText("c")
			}
		}
		splitBy(c, "many paragraphs", d, func(_ int, p *docx.Paragraph) bool {
			k, _ := strconv.Atoi(strings.TrimPrefix(p.String(), "p"))
			return k%every == every-1
		}, false, fmt.Sprintf("%d paragraphs, every %d. matches", n, every))
	})
	// vocabulary
	docs := append(vocabDocs(c.Pick(3, 4)), seqDocs(c.Pick(3, 4))...)
	Par(len(docs), func(i int) {
		rep := docs[i].name + " :: " + docs[i].body.String()
		pkg := GrammarPackage(DocXML(docs[i].body))
		splitBy(c, docs[i].name, mustParse(pkg), func(int, *docx.Paragraph) bool { return true }, true, rep)
	})
	ps := pairDocs(false, func(a, b Feature) bool { return c.Thorough() || a.Below("w:drawing") || b.Below("w:drawing") })
	c.AddExtra("combinations of two features", len(ps))
	ms := manyDocs([]int{3, 17, 65, 130}, c.Pick(32, 8))
	c.AddExtra("documents of many copies and values", len(ms))
	ps = append(ps, ms...)
	Par(len(ps), func(i int) {
		pkg := GrammarPackage(DocXML(ps[i].body))
		splitBy(c, "two features", mustParse(pkg), func(int, *docx.Paragraph) bool { return true }, i%4 == 0 || c.Thorough(), ps[i].name+" :: "+ps[i].body.String())
	})
	for i := 0; i < 5; i++ {
		for set := 0; set < 16; set++ {
			splitBy(c, fmt.Sprint("odd", i), mustParse(odd(i)), func(k int, _ *docx.Paragraph) bool { return set>>k&1 == 1 }, true, fmt.Sprintf("odd%d %b", i, set))
		}
	}
	// histories
	chk := func(t *trans) {
		if t.op.Kind != "split" {
			return
		}
		var ps []*docx.Docx
		var starts []bool
		for _, m := range t.h.pieces {
			ps = append(ps, m.d)
			for j := range m.items {
				starts = append(starts, j == 0)
			}
		}
		checkPieces(c, "history", t.before.pkg[0], ps, starts, t.rep)
		if p, _, err := savePkg(t.h.src.d); err != nil {
			c.Fail("split: original no longer saves", err.Error(), t.rep)
		} else if d := partsDiff(t.before.pkg[0], p); d != "" {
			c.Fail("split changes the original", d, t.rep)
		}
	}
	exploreH(c, startsH(), []HOp{hPara("S"), hLink("l", "http://l/"), hPic("anchor", "gif", 1, 2), hTable(true), hPage(), hReopen(), hAppend(1), hSplit(false), hSplit(true), hLoad(true)}, c.Pick(3, 4), chk)
	exploreBulk(c, chk)
	for _, t := range []string{"media/image1.png", "styles.xml", "", "#a b", "http://é?a=1&b=<\"'>", "/word/media/image1.png", "rId1", " "} {
		exploreH(c, startsH()[:c.Pick(3, 6)], []HOp{hPara("S"), hLink("l", t), hLink("m", "http://l/"), hPic("inline", "png", 2, 1), hReopen(), hAppend(1), hSplit(true), hLoad(true)}, 3, chk)
	}
}

// otherParts lists sets of parts to be added to a package: each real-world part by itself, and all that go together.
func otherParts() (sets [][]ZipEntry) {
	var all []ZipEntry
	used := map[string]bool{}
	for _, e := range mustZip(GrammarPackage(DocXML(E("w:body", nil)))) {
		used[strings.ToLower(e)] = true
	}
	for i, n := range realParts {
		if !fs.ValidPath(n) || strings.Trim(n, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789/._-") != "" || used[strings.ToLower(n)] || strings.HasPrefix(strings.ToLower(n), "word/media/") {
			continue
		}
		e := ZipEntry{Name: n, Data: []byte(fmt.Sprint("part ", i))}
		sets = append(sets, []ZipEntry{e})
		clash := false
		for u := range used {
			clash = clash || strings.HasPrefix(u, strings.ToLower(n)+"/") || strings.HasPrefix(strings.ToLower(n), u+"/")
		}
		if !clash {
			used[strings.ToLower(n)] = true
			all = append(all, e)
		}
	}
	sets = append(sets, all)
	_, _, f := MiniTemplate()
	ct, err := fs.ReadFile(f, "xml/mini/[Content_Types].xml")
	if err != nil {
		panic(err)
	}
	for i, set := range sets { // each with its content type
		var sb strings.Builder
		for _, e := range set {
			sb.WriteString(`<Override PartName="/` + e.Name + `" ContentType="application/x-part"/>`)
		}
		sets[i] = append(set[:len(set):len(set)], ZipEntry{Name: "[Content_Types].xml", Data: []byte(strings.Replace(string(ct), "</Types>", sb.String()+"</Types>", 1))})
	}
	return sets
}

func mustZip(b []byte) []string {
	names, _, err := ReadZip(b)
	if err != nil {
		panic(err)
	}
	return names
}
