package main

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	docx "github.com/fumiama/go-docx"

	. "verif/harness/core"
)

// W couples an implementation document with the reference model of its content.
type W struct {
	d     *docx.Docx
	items []*Node // expected body, hand-built from the calls made

	ip *docx.Paragraph // current paragraph
	mp *Node
	ir *docx.Run // last run
	mr *Node
	it *docx.Table // last table
	mt *Node
	il *docx.Hyperlink
	ml *Node

	err error
}

func newW() *W {
	n, l, f := MiniTemplate()
	return &W{d: docx.New().UseTemplate(n, l, f)}
}

// Op is one operation of a history.
type Op struct {
	Name string
	En   func(w *W) bool
	Do   func(w *W)
}

func hasP(w *W) bool { return w.ip != nil }
func hasR(w *W) bool { return w.ir != nil }
func hasT(w *W) bool { return w.it != nil }
func always(*W) bool { return true }

// prop returns (creating) the property container c of n.
func prop(n *Node, c string) *Node {
	if p := n.Child(c); p != nil {
		return p
	}
	p := &Node{Name: c}
	n.Kids = append([]*Node{p}, n.Kids...)
	return p
}

// setProp replaces the property element.
func setProp(pr *Node, e *Node) {
	for i, k := range pr.Kids {
		if k.Name == e.Name {
			pr.Kids[i] = e
			return
		}
	}
	pr.Kids = append(pr.Kids, e)
}

func mText(text string) []*Node {
	var r []*Node
	for i, l := range strings.Split(text, "\n") {
		if i > 0 {
			r = append(r, E("w:br", nil))
		}
		for j, t := range strings.Split(l, "\t") {
			if j > 0 {
				r = append(r, E("w:tab", nil))
			}
			if t != "" {
				r = append(r, E("w:t", A("xml:space", "preserve"), T(t)))
			}
		}
	}
	return r
}

func (w *W) newPara(ip *docx.Paragraph, into *Node) {
	w.ip = ip
	w.mp = E("w:p", nil)
	if into == nil {
		w.items = append(w.items, w.mp)
	} else {
		into.Kids = append(into.Kids, w.mp)
	}
	w.ir, w.mr, w.il, w.ml = nil, nil, nil, nil
}

func (w *W) newRun(ir *docx.Run, kids ...*Node) {
	w.ir = ir
	w.mr = E("w:r", nil, kids...)
	w.mp.Kids = append(w.mp.Kids, w.mr)
}

func opPara() Op {
	return Op{"AddParagraph", always, func(w *W) { w.newPara(w.d.AddParagraph(), nil) }}
}

func opText(s string) Op {
	return Op{fmt.Sprintf("AddText(%q)", Trunc(s, 20)), hasP, func(w *W) { w.newRun(w.ip.AddText(s), mText(s)...) }}
}

func opTab() Op {
	return Op{"AddTab", hasP, func(w *W) { w.newRun(w.ip.AddTab(), E("w:tab", nil)) }}
}

func opPageBreak() Op {
	return Op{"AddPageBreaks", hasP, func(w *W) { w.newRun(w.ip.AddPageBreaks(), E("w:br", A("w:type", "page"))) }}
}

func opLink(text, to string) Op {
	return Op{fmt.Sprintf("AddLink(%q,%q)", text, to), hasP, func(w *W) {
		w.il = w.ip.AddLink(text, to)
		w.ml = E("w:hyperlink", A("r:id", "hyperlink=>"+to),
			E("w:r", nil, E("w:rPr", nil, E("w:rStyle", A("w:val", "a3"))), E("w:t", nil, T(text))))
		w.mp.Kids = append(w.mp.Kids, w.ml)
	}}
}

func mPic(kind string, b []byte, ext string, cx, cy int64) *Node {
	i := func(v int64) string { return strconv.FormatInt(v, 10) }
	return E("w:drawing", nil, E("wp:"+kind, nil, E("wp:extent", A("cx", i(cx), "cy", i(cy))),
		E("a:graphic", nil, E("a:graphicData", nil, E("pic:pic", nil,
			E("pic:blipFill", nil, E("a:blip", A("r:embed", "image:."+ext+":"+Sum(b)))),
			E("pic:spPr", nil, E("a:xfrm", nil, E("a:ext", A("cx", i(cx), "cy", i(cy)))), E("a:prstGeom", A("prst", "rect"))))))))
}

// opPic adds a picture; img must be 2x1 (wide) or 1x1 (tall) so that sizes divide exactly.
func opPic(kind, format string, wd, tag int) Op {
	return opPicBytes(kind, format, wd, tag, Img(format, wd, 1, tag))
}

func opPicBytes(kind, format string, wd, tag int, b []byte) Op {
	return Op{fmt.Sprintf("Add%sDrawing(%s#%d)", kind, format, tag), hasP, func(w *W) {
		var r *docx.Run
		var err error
		if kind == "inline" {
			r, err = w.ip.AddInlineDrawing(b)
		} else {
			r, err = w.ip.AddAnchorDrawing(b)
		}
		if err != nil {
			w.err = fmt.Errorf("picture refused: %w", err)
			return
		}
		cx := int64(5274310)
		if wd == 1 {
			cx /= 2
		}
		w.newRun(r, mPic(kind, b, format, cx, 2637155))
	}}
}

type lineSpec struct {
	name string
	ln   func() *docx.ALine
	m    *Node
}

var lineSpecs = []lineSpec{
	{"nil", func() *docx.ALine { return nil }, nil},
	{"w6350", func() *docx.ALine {
		return &docx.ALine{W: 6350, Cap: "flat", Compound: "sng", Align: "ctr",
			SolidFill: &docx.ASolidFill{SrgbClr: &docx.ASrgbClr{Val: "FF0000"}}, PrstDash: &docx.APrstDash{Val: "dash"},
			Miter: &docx.AMiter{Limit: "800000"}, HeadEnd: &docx.AHeadEnd{Type: "arrow", W: "med"}, TailEnd: &docx.ATailEnd{Type: "oval", Len: "lg"}}
	}, E("a:ln", A("w", "6350", "cap", "flat", "cmpd", "sng", "algn", "ctr"),
		E("a:solidFill", nil, E("a:srgbClr", A("val", "FF0000"))), E("a:prstDash", A("val", "dash")),
		E("a:miter", A("lim", "800000")), E("a:headEnd", A("type", "arrow", "w", "med")), E("a:tailEnd", A("type", "oval", "len", "lg")))},
}

func mShape(kind string, cx, cy int64, name, bw, prst string, ln *Node) *Node {
	i := func(v int64) string { return strconv.FormatInt(v, 10) }
	return E("w:drawing", nil, E("wp:"+kind, nil, E("wp:extent", A("cx", i(cx), "cy", i(cy))),
		E("wp:docPr", A("name", name+" 0")),
		E("a:graphic", nil, E("a:graphicData", nil, E("wps:wsp", nil,
			E("wps:cNvCnPr", nil, E("a:cxnSpLocks", nil)),
			E("wps:spPr", A("bwMode", bw), E("a:xfrm", nil, E("a:off", nil), E("a:ext", A("cx", i(cx), "cy", i(cy)))),
				E("a:prstGeom", A("prst", prst)), E("a:noFill", nil), ln),
			E("wps:bodyPr", nil))))))
}

func opShape(kind string, cx, cy int64, name, prst string, ls int) Op {
	l := lineSpecs[ls]
	return Op{fmt.Sprintf("Add%sShape(%d,%d,%s,%s,ln=%s)", kind, cx, cy, name, prst, l.name), hasP, func(w *W) {
		var r *docx.Run
		if kind == "inline" {
			r = w.ip.AddInlineShape(cx, cy, name, "auto", prst, l.ln())
		} else {
			r = w.ip.AddAnchorShape(cx, cy, name, "auto", prst, l.ln())
		}
		w.newRun(r, mShape(kind, cx, cy, name, "auto", prst, l.m))
	}}
}

func opPage(a3 bool) Op {
	n, ww, hh := "WithA4Page", "11906", "16838"
	if a3 {
		n, ww, hh = "WithA3Page", "16838", "23811"
	}
	return Op{n, always, func(w *W) {
		if a3 {
			w.d.WithA3Page()
		} else {
			w.d.WithA4Page()
		}
		w.items = append(w.items, E("w:sectPr", nil, E("w:pgSz", A("w:w", ww, "w:h", hh))))
	}}
}

// ---- run and paragraph formatting

func runOp(name string, f func(r *docx.Run) *docx.Run, e *Node) Op {
	return Op{"Run." + name, hasR, func(w *W) {
		if got := f(w.ir); got != w.ir {
			w.err = fmt.Errorf("Run.%s does not return its receiver", name)
		}
		setProp(prop(w.mr, "w:rPr"), e.Clone())
	}}
}

func runOps() []Op {
	return []Op{
		runOp("Color(FF0000)", func(r *docx.Run) *docx.Run { return r.Color("FF0000") }, E("w:color", A("w:val", "FF0000"))),
		runOp("Color(00ff00)", func(r *docx.Run) *docx.Run { return r.Color("00ff00") }, E("w:color", A("w:val", "00ff00"))),
		runOp("Size(44)", func(r *docx.Run) *docx.Run { return r.Size("44") }, E("w:sz", A("w:val", "44"))),
		runOp("Size(7)", func(r *docx.Run) *docx.Run { return r.Size("7") }, E("w:sz", A("w:val", "7"))),
		runOp("SizeCs(28)", func(r *docx.Run) *docx.Run { return r.SizeCs("28") }, E("w:szCs", A("w:val", "28"))),
		runOp("Shade(clear,auto,E7E6E6)", func(r *docx.Run) *docx.Run { return r.Shade("clear", "auto", "E7E6E6") },
			E("w:shd", A("w:val", "clear", "w:color", "auto", "w:fill", "E7E6E6"))),
		runOp("Shade(pct10,1,2)", func(r *docx.Run) *docx.Run { return r.Shade("pct10", "111111", "222222") },
			E("w:shd", A("w:val", "pct10", "w:color", "111111", "w:fill", "222222"))),
		runOp("Spacing(360)", func(r *docx.Run) *docx.Run { return r.Spacing(360) }, E("w:spacing", A("w:line", "360"))),
		runOp("Spacing(-20)", func(r *docx.Run) *docx.Run { return r.Spacing(-20) }, E("w:spacing", A("w:line", "-20"))),
		runOp("Bold", func(r *docx.Run) *docx.Run { return r.Bold() }, E("w:b", nil)),
		runOp("Italic", func(r *docx.Run) *docx.Run { return r.Italic() }, E("w:i", nil)),
		runOp("Underline(double)", func(r *docx.Run) *docx.Run { return r.Underline("double") }, E("w:u", A("w:val", "double"))),
		runOp("Underline(none)", func(r *docx.Run) *docx.Run { return r.Underline("none") }, E("w:u", A("w:val", "none"))),
		runOp("Highlight(yellow)", func(r *docx.Run) *docx.Run { return r.Highlight("yellow") }, E("w:highlight", A("w:val", "yellow"))),
		runOp("Strike(true)", func(r *docx.Run) *docx.Run { return r.Strike(true) }, E("w:strike", A("w:val", "true"))),
		runOp("Strike(false)", func(r *docx.Run) *docx.Run { return r.Strike(false) }, E("w:strike", A("w:val", "false"))),
		runOp("Font(a,b,c,d)", func(r *docx.Run) *docx.Run { return r.Font("Arial", "黑体", "Hansi", "eastAsia") },
			E("w:rFonts", A("w:ascii", "Arial", "w:eastAsia", "黑体", "w:hAnsi", "Hansi", "w:hint", "eastAsia"))),
		runOp("Font(x,-,-,-)", func(r *docx.Run) *docx.Run { return r.Font("X", "", "", "") }, E("w:rFonts", A("w:ascii", "X"))),
	}
}

func opRunTab() Op {
	return Op{"Run.AddTab", hasR, func(w *W) {
		if got := w.ir.AddTab(); got != w.ir {
			w.err = fmt.Errorf("Run.AddTab does not return its receiver")
		}
		w.mr.Kids = append(w.mr.Kids, E("w:tab", nil))
	}}
}

func paraOp(name string, f func(p *docx.Paragraph) *docx.Paragraph, set func(ppr *Node)) Op {
	return Op{"Para." + name, hasP, func(w *W) {
		if got := f(w.ip); got != w.ip {
			w.err = fmt.Errorf("Paragraph.%s does not return its receiver", name)
		}
		set(prop(w.mp, "w:pPr"))
	}}
}

func paraOps() []Op {
	numpr := func(id, lv string) func(*Node) {
		return func(p *Node) {
			setProp(p, E("w:numPr", nil, E("w:numId", A("w:val", id)), E("w:ilvl", A("w:val", lv))))
		}
	}
	rpr := func(e *Node) func(*Node) { return func(p *Node) { setProp(prop(p, "w:rPr"), e.Clone()) } }
	one := func(e *Node) func(*Node) { return func(p *Node) { setProp(p, e.Clone()) } }
	return []Op{
		paraOp("Justification(center)", func(p *docx.Paragraph) *docx.Paragraph { return p.Justification("center") }, one(E("w:jc", A("w:val", "center")))),
		paraOp("Justification(end)", func(p *docx.Paragraph) *docx.Paragraph { return p.Justification("end") }, one(E("w:jc", A("w:val", "end")))),
		paraOp("Style(2)", func(p *docx.Paragraph) *docx.Paragraph { return p.Style("2") }, one(E("w:pStyle", A("w:val", "2")))),
		paraOp("Style(Title)", func(p *docx.Paragraph) *docx.Paragraph { return p.Style("Title") }, one(E("w:pStyle", A("w:val", "Title")))),
		paraOp("NumPr(1,0)", func(p *docx.Paragraph) *docx.Paragraph { return p.NumPr("1", "0") }, numpr("1", "0")),
		paraOp("NumPr(4,2)", func(p *docx.Paragraph) *docx.Paragraph { return p.NumPr("4", "2") }, numpr("4", "2")),
		paraOp("NumFont(a,b,c,d)", func(p *docx.Paragraph) *docx.Paragraph { return p.NumFont("Ar", "EA", "HA", "hint") },
			rpr(E("w:rFonts", A("w:ascii", "Ar", "w:eastAsia", "EA", "w:hAnsi", "HA", "w:hint", "hint")))),
		paraOp("NumFont(x,-,-,-)", func(p *docx.Paragraph) *docx.Paragraph { return p.NumFont("X", "", "", "") }, rpr(E("w:rFonts", A("w:ascii", "X")))),
		paraOp("NumSize(21)", func(p *docx.Paragraph) *docx.Paragraph { return p.NumSize("21") }, rpr(E("w:sz", A("w:val", "21")))),
		paraOp("NumSize(30)", func(p *docx.Paragraph) *docx.Paragraph { return p.NumSize("30") }, rpr(E("w:sz", A("w:val", "30")))),
	}
}

// ---- tables

func mBorders(c docx.APITableBorderColors) *Node {
	b := E("w:tblBorders", nil)
	for _, s := range [][2]string{{"w:top", c.Top}, {"w:left", c.Left}, {"w:bottom", c.Bottom}, {"w:right", c.Right}, {"w:insideH", c.InsideH}, {"w:insideV", c.InsideV}} {
		col := s[1]
		if col == "" {
			col = "#000000"
		}
		b.Kids = append(b.Kids, E(s[0], A("w:val", "single", "w:sz", "4", "w:color", col)))
	}
	return b
}

func mTable(width int64, bc *docx.APITableBorderColors, heights, widths []int64, twips bool, rows, cols int) *Node {
	i := func(v int64) string { return strconv.FormatInt(v, 10) }
	tw := E("w:tblW", A("w:w", "0", "w:type", "auto"))
	if width > 0 {
		tw = E("w:tblW", A("w:w", i(width), "w:type", "dxa"))
	}
	var c docx.APITableBorderColors
	if bc != nil {
		c = *bc
	}
	t := E("w:tbl", nil, E("w:tblPr", nil, tw, mBorders(c), E("w:tblLook", A("w:val", "0000"))))
	if twips {
		g := E("w:tblGrid", nil)
		for _, w := range widths {
			if w < 0 {
				w = 0
			}
			g.Kids = append(g.Kids, E("w:gridCol", A("w:w", i(w))))
		}
		t.Kids = append(t.Kids, g)
		rows, cols = len(heights), len(widths)
	}
	for r := 0; r < rows; r++ {
		tr := E("w:tr", nil)
		if twips && heights[r] > 0 {
			tr.Kids = append(tr.Kids, E("w:trPr", nil, E("w:trHeight", A("w:val", i(heights[r])))))
		}
		for k := 0; k < cols; k++ {
			cw := E("w:tcW", A("w:type", "auto"))
			if twips {
				cw = E("w:tcW", A("w:type", "dxa", "w:w", i(widths[k])))
			}
			tr.Kids = append(tr.Kids, E("w:tc", nil, E("w:tcPr", nil, cw)))
		}
		t.Kids = append(t.Kids, tr)
	}
	return t
}

func opTable(rows, cols int, width int64, bc *docx.APITableBorderColors) Op {
	return Op{fmt.Sprintf("AddTable(%d,%d,%d,%v)", rows, cols, width, bc), always, func(w *W) {
		var in *docx.APITableBorderColors
		if bc != nil {
			cp := *bc
			in = &cp
		}
		w.it = w.d.AddTable(rows, cols, width, in)
		if bc != nil && *in != *bc {
			w.err = fmt.Errorf("the caller's border colours were changed to %v", *in)
		}
		w.mt = mTable(width, bc, nil, nil, false, rows, cols)
		w.items = append(w.items, w.mt)
	}}
}

func opTableTwips(h, ws []int64, width int64, bc *docx.APITableBorderColors) Op {
	return Op{fmt.Sprintf("AddTableTwips(%v,%v,%d,%v)", h, ws, width, bc), always, func(w *W) {
		var in *docx.APITableBorderColors
		if bc != nil {
			cp := *bc
			in = &cp
		}
		hs, wws := append([]int64(nil), h...), append([]int64(nil), ws...)
		w.it = w.d.AddTableTwips(hs, wws, width, in)
		if bc != nil && *in != *bc {
			w.err = fmt.Errorf("the caller's border colours were changed to %v", *in)
		}
		if fmt.Sprint(hs, wws) != fmt.Sprint(append([]int64{}, h...), append([]int64{}, ws...)) {
			w.err = fmt.Errorf("the caller's sizes were changed to %v %v", hs, wws)
		}
		for i := range hs { // the lists stay the caller's
			hs[i] = 77777
		}
		for i := range wws {
			wws[i] = 77777
		}
		w.mt = mTable(width, bc, h, ws, true, 0, 0)
		w.items = append(w.items, w.mt)
	}}
}

func mRows(t *Node) (r []*Node) {
	for _, k := range t.Kids {
		if k.Name == "w:tr" {
			r = append(r, k)
		}
	}
	return
}

func mCells(t *Node) (r []*Node) {
	for _, k := range t.Kids {
		if k.Name == "w:tc" {
			r = append(r, k)
		}
	}
	return
}

// cell returns the addressed cell of implementation and model; negative indexes count from the end.
func (w *W) cell(r, c int) (*docx.WTableCell, *Node) {
	rows := mRows(w.mt)
	if len(w.it.TableRows) != len(rows) || len(rows) == 0 {
		return nil, nil
	}
	if r < 0 {
		r += len(rows)
	}
	if r < 0 || r >= len(rows) {
		return nil, nil
	}
	cells := mCells(rows[r])
	if c < 0 {
		c += len(cells)
	}
	if len(w.it.TableRows[r].TableCells) != len(cells) || c >= len(cells) || c < 0 {
		return nil, nil
	}
	return w.it.TableRows[r].TableCells[c], cells[c]
}

func hasCell(r, c int) func(w *W) bool {
	return func(w *W) bool {
		if w.it == nil {
			return false
		}
		ic, _ := w.cell(r, c)
		return ic != nil
	}
}

func opCellPara(r, c int) Op {
	return Op{fmt.Sprintf("Cell(%d,%d).AddParagraph", r, c), hasCell(r, c), func(w *W) {
		ic, mc := w.cell(r, c)
		w.newPara(ic.AddParagraph(), mc)
	}}
}

func opCellShade(r, c int, fill string) Op {
	return Op{fmt.Sprintf("Cell(%d,%d).Shade(%s)", r, c, fill), hasCell(r, c), func(w *W) {
		ic, mc := w.cell(r, c)
		if ic.Shade("clear", "auto", fill) != ic {
			w.err = fmt.Errorf("WTableCell.Shade does not return its receiver")
		}
		setProp(prop(mc, "w:tcPr"), E("w:shd", A("w:val", "clear", "w:color", "auto", "w:fill", fill)))
	}}
}

func opTableJc(v string) Op {
	return Op{"Table.Justification(" + v + ")", hasT, func(w *W) {
		if w.it.Justification(v) != w.it {
			w.err = fmt.Errorf("Table.Justification does not return its receiver")
		}
		setProp(prop(w.mt, "w:tblPr"), E("w:jc", A("w:val", v)))
	}}
}

func opRowJc(r int, v string) Op {
	return Op{fmt.Sprintf("Row(%d).Justification(%s)", r, v), hasCell(r, 0), func(w *W) {
		rows := mRows(w.mt)
		if r < 0 {
			r += len(rows)
		}
		if w.it.TableRows[r].Justification(v) != w.it.TableRows[r] {
			w.err = fmt.Errorf("WTableRow.Justification does not return its receiver")
		}
		setProp(prop(rows[r], "w:trPr"), E("w:jc", A("w:val", v)))
	}}
}

// opReopen saves and parses; cursors move to the last paragraph / table if the body ends with one.
func opReopen() Op {
	return Op{"SaveAndParse", always, func(w *W) {
		b, err := Save(w.d)
		if err != nil {
			w.err = fmt.Errorf("save: %w", err)
			return
		}
		d, err := docx.Parse(bytes.NewReader(b), int64(len(b)))
		if err != nil {
			w.err = fmt.Errorf("parse of own output: %w", err)
			return
		}
		w.d = d
		w.reCursor()
	}}
}

// reCursor points the cursors at the end of the document.
func (w *W) reCursor() {
	w.ip, w.mp, w.ir, w.mr, w.it, w.mt, w.il, w.ml = nil, nil, nil, nil, nil, nil, nil, nil
	its := w.d.Document.Body.Items
	if len(its) != len(w.items) {
		w.err = fmt.Errorf("body has %d items, expected %d", len(its), len(w.items))
		return
	}
	if len(its) == 0 {
		return
	}
	switch o := its[len(its)-1].(type) {
	case *docx.Paragraph:
		w.ip, w.mp = o, w.items[len(its)-1]
	case *docx.Table:
		w.it, w.mt = o, w.items[len(its)-1]
	}
}

// names renders a history.
func names(ops []Op, seq []int) string {
	var s []string
	for _, i := range seq {
		s = append(s, ops[i].Name)
	}
	return strings.Join(s, "; ")
}

// enumerate calls f for every sequence of op indexes of length 1..depth (f runs in parallel).
// Sequences with an op that is not enabled are pruned by run returning false at that prefix.
func enumerate(nops, depth int, run func(seq []int) bool) {
	var rec func(seq []int)
	rec = func(seq []int) {
		if !run(seq) || len(seq) == depth {
			return
		}
		for i := 0; i < nops; i++ {
			rec(append(append(make([]int, 0, len(seq)+1), seq...), i))
		}
	}
	// two-level split for balance
	if depth == 1 {
		Par(nops, func(i int) { run([]int{i}) })
		return
	}
	ok := make([]bool, nops)
	Par(nops, func(i int) { ok[i] = run([]int{i}) })
	Par(nops*nops, func(k int) {
		if ok[k/nops] {
			rec([]int{k / nops, k % nops})
		}
	})
}

// replay runs a history from scratch; false when some op is not enabled.
func replay(c *Ctx, w *W, ops []Op, seq []int) bool {
	for _, i := range seq {
		if !ops[i].En(w) {
			return false
		}
		ops[i].Do(w)
		if w.err != nil {
			return true
		}
	}
	c.Trans(len(seq))
	return true
}

// compareSaved saves w.d and compares the semantic content with the model. It returns the package.
func compareSaved(c *Ctx, w *W, tag, rep string) (*Pkg, []byte) {
	b, err := Save(w.d)
	if err != nil {
		c.Fail(tag+" save-error", err.Error(), rep)
		return nil, nil
	}
	p, err := ReadPkg(b)
	if err != nil {
		c.Fail(tag+" unreadable-package", err.Error(), rep)
		return nil, nil
	}
	want, got := Render(AbsNodes(w.items)), Render(p.Abs())
	if want != got {
		c.Fail(tag+" content", FirstDiff(want, got), rep)
	}
	return p, b
}
