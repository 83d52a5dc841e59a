package main

import (
	"bytes"
	"fmt"
	"io/fs"
	"regexp"
	"sort"
	"strconv"
	"strings"

	docx "github.com/fumiama/go-docx"

	. "verif/harness/core"
)

var (
	tplName  string
	tplFiles []string
	tplFS    fs.FS
	imgs     = map[string][]byte{}
	srcPkg   []byte
	widePkg  []byte // every edge of the vocabulary
	sepRe    = regexp.MustCompile(`^S$`)
)

func setup() {
	if srcPkg != nil {
		return
	}
	tplName, tplFiles, tplFS = MiniTemplate()
	for _, f := range []string{"png", "gif", "jpeg"} {
		imgs[f] = Img(f, 2, 1, 7)
	}
	tx := func(s string) *Node { return E("w:r", nil, E("w:t", nil, T(s))) }
	fx := func(s, v string) *Node {
		return E("w:r", nil, E("w:rPr", nil, E("w:b", nil), E("w:color", A("w:val", v))), E("w:t", nil, T(s)))
	}
	body := E("w:body", nil,
		E("w:p", nil, E("w:pPr", nil, E("w:jc", A("w:val", "end"))), tx("one"), tx("two"), fx("x", "111111"), fx("y", "111111"), fx("z", "222222"), E("w:hyperlink", A("r:id", "rId4"), tx("link"))),
		E("w:p", nil, tx("S")),
		E("w:p", nil, E("w:r", nil, E("w:rPr", nil, E("w:b", nil)), E("w:t", nil, T("b")), E("w:drawing", nil, Full("wp:inline", "w:drawing", 8)))),
		E("w:tbl", nil, E("w:tblPr", nil, E("w:tblW", A("w:w", "5"))), E("w:tblGrid", nil, E("w:gridCol", A("w:w", "5"))),
			E("w:tr", nil, E("w:trPr", nil, E("w:trHeight", A("w:val", "3"))), E("w:tc", nil, E("w:tcPr", nil, E("w:tcW", A("w:w", "5"))), E("w:p", nil, tx("cell"))))),
		E("w:p", nil, tx("S")),
		E("w:p", nil, E("w:r", nil, E("w:drawing", nil, E("wp:inline", nil, E("wp:docPr", A("id", "3", "name", "s")), E("a:graphic", nil, E("a:graphicData", A("uri", "u"), Full("wps:wsp", "a:graphicData", 3))))))),
		E("w:sectPr", nil, E("w:pgSz", A("w:w", "3", "w:h", "4")), E("w:cols", A("w:space", "5"))))
	srcPkg = GrammarPackage(DocXML(body))
	wide := E("w:body", nil)
	for _, f := range Features() {
		wide.Kids = append(wide.Kids, Wrap(f[:len(f)-1], Full(f[len(f)-1], f[len(f)-2], 1)).Kids...)
	}
	ac := E("w:r", nil, E("mc:AlternateContent", nil, E("mc:Choice", A("Requires", "wps"), E("w:drawing", nil, Full("wp:inline", "w:drawing", 8))), E("mc:Fallback", nil, E("w:t", nil, T("f")))))
	wide.Kids = append(wide.Kids, E("w:p", nil, ac))
	// long lists of everything
	long, run, row, tbl := E("w:p", nil), E("w:r", nil), E("w:tr", nil), E("w:tbl", nil, E("w:tblPr", nil), E("w:tblGrid", nil))
	for i := 0; i < 70; i++ {
		long.Kids = append(long.Kids, fx("l", fmt.Sprint(111111+i/2)), E("w:hyperlink", A("r:id", "rId4"), tx("link")))
		run.Kids = append(run.Kids, E("w:t", nil, T("t")), E("w:tab", nil), E("w:br", nil))
		row.Kids = append(row.Kids, E("w:tc", nil, E("w:p", nil, tx("c")), E("w:p", nil, tx("d"))))
		tbl.Kids = append(tbl.Kids, E("w:tr", nil, E("w:tc", nil, E("w:p", nil, tx("r")))))
		tbl.Kids[1].Kids = append(tbl.Kids[1].Kids, E("w:gridCol", A("w:w", "5")))
		wide.Kids = append(wide.Kids, E("w:p", nil, tx("S")))
	}
	long.Kids = append(long.Kids, run)
	tbl.Kids = append(tbl.Kids, row)
	wide.Kids = append(wide.Kids, long, tbl, E("w:p", nil, E("w:r", nil, E("w:t", nil, T(strings.Repeat("long ", 2000))))))
	widePkg = GrammarPackage(DocXML(wide))
}

func parsedWide() *docx.Docx {
	d, err := docx.Parse(bytes.NewReader(widePkg), int64(len(widePkg)))
	if err != nil {
		panic(err)
	}
	return d
}

func mini(d *docx.Docx) *docx.Docx {
	n, l, f := MiniTemplate()
	return d.UseTemplate(n, l, f)
}

func parsed() *docx.Docx {
	d, err := docx.Parse(bytes.NewReader(srcPkg), int64(len(srcPkg)))
	if err != nil {
		panic(err)
	}
	return d
}

var partsOf = map[string]string{}

// parts is the content of a saved package, independent of the order in the archive.
func parts(b []byte, err error) string {
	if err != nil {
		return readParts(b, err)
	}
	if s, ok := partsOf[string(b)]; ok {
		return s
	}
	if len(partsOf) > 500 {
		clear(partsOf)
	}
	s := readParts(b, err)
	partsOf[string(b)] = s
	return s
}

func readParts(b []byte, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	_, ps, err := ReadZip(b)
	if err != nil {
		return "unreadable " + err.Error()
	}
	var ns []string
	for n := range ps {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	var sb strings.Builder
	for _, n := range ns {
		sb.WriteString(n + ": ")
		if len(ps[n]) > 200 && !strings.HasSuffix(n, "l") && !strings.HasSuffix(n, "s") {
			sb.WriteString(Sum(ps[n]))
		} else {
			sb.Write(ps[n])
		}
		sb.WriteByte('\n')
	}
	return sb.String()
}

func save(d *docx.Docx) ([]byte, error) {
	var b bytes.Buffer
	_, err := d.WriteTo(&b)
	return b.Bytes(), err
}

// res is what one thread observed.
type res struct {
	raw [][]byte
	err []error
	txt []string
}

func (r *res) save(d *docx.Docx) {
	b, err := save(d)
	r.raw = append(r.raw, b)
	r.err = append(r.err, err)
}
func (r *res) say(s string) { r.txt = append(r.txt, s) }
func (r *res) digest() string {
	s := strings.Join(r.txt, "\n") + "\n"
	for i := range r.raw {
		s += parts(r.raw[i], r.err[i])
	}
	return s
}

func paras(d *docx.Docx) (ps []*docx.Paragraph) {
	for _, it := range d.Document.Body.Items {
		switch x := it.(type) {
		case *docx.Paragraph:
			ps = append(ps, x)
		case *docx.Table:
			for _, r := range x.TableRows {
				for _, c := range r.TableCells {
					ps = append(ps, c.Paragraphs...)
				}
			}
		}
	}
	return
}

// op is an operation of one thread on its document; other: a document nobody else writes.
type op struct {
	name string
	do   func(d *docx.Docx, r *res)
}

func stringsOf(d *docx.Docx, r *res) {
	for _, it := range d.Document.Body.Items {
		switch x := it.(type) {
		case *docx.Paragraph:
			r.say(x.String())
		case *docx.Table:
			r.say(x.String())
		}
	}
}

func lookups(d *docx.Docx, r *res) {
	d.RangeRelationships(func(rel *docx.Relationship) error {
		t, err := d.ReferTarget(rel.ID)
		i, err2 := d.ReferID(rel.Target)
		r.say(rel.ID + t + i)
		if err != nil || err2 != nil {
			r.say("lookup failed")
		}
		if m := d.Media(strings.TrimPrefix(rel.Target, "media/")); m != nil {
			r.say(m.String())
		}
		return nil
	})
}

// readers do not change the document.
func readers() []op {
	return []op{
		{"Save", func(d *docx.Docx, r *res) { r.save(d) }},
		{"strings", stringsOf},
		{"lookups", lookups},
		{"MergeText", func(d *docx.Docx, r *res) {
			for _, p := range paras(d) {
				for _, ru := range []docx.RunMergeRule{docx.MergeSamePropRuns, docx.MergeSamePropRunsOf("Bold"), docx.MergeAllRuns} {
					q := p.MergeText(ru)
					r.say(fmt.Sprint(len(q.Children), q.String()))
				}
			}
		}},
		{"append to a new document", func(d *docx.Docx, r *res) {
			n := mini(docx.New())
			n.AppendFile(d)
			r.save(n)
		}},
		{"split", func(d *docx.Docx, r *res) {
			for _, p := range d.SplitByParagraph(docx.SplitDocxByPlainTextRegex(sepRe)) {
				r.save(p)
			}
		}},
		{"load items", func(d *docx.Docx, r *res) {
			n := mini(docx.LoadBodyItems(d.Document.Body.Items, nil))
			r.say(fmt.Sprint(len(n.Document.Body.Items)))
		}},
	}
}

// shared arguments
var (
	colors = &docx.APITableBorderColors{Top: "#111111"}
	aline  = &docx.ALine{W: 5, SolidFill: &docx.ASolidFill{SrgbClr: &docx.ASrgbClr{Val: "FF0000"}}}
	hs     = []int64{5, 0}
	ws     = []int64{7, 8}
)

func writers() []op {
	return []op{
		{"another new document with the template", func(d *docx.Docx, r *res) {
			n := docx.New().UseTemplate(tplName, tplFiles, tplFS)
			n.AddParagraph().AddText("n")
			r.save(n)
			d.UseTemplate(tplName, tplFiles, tplFS)
			r.save(docx.New().WithDefaultTheme())
		}},
		{"text and formatting", func(d *docx.Docx, r *res) {
			p := d.AddParagraph().Justification("center").Style("2").NumPr("1", "0").NumFont("a", "b", "c", "d")
			p.AddText("a\tb").Bold().Color("FF0000").Size("12").Font("a", "b", "c", "d").Shade("clear", "a", "b")
			p.AddPageBreaks()
			p.AddTab().AddTab()
		}},
		{"link", func(d *docx.Docx, r *res) { r.say(d.AddParagraph().AddLink("l", "http://t/").ID) }},
		{"pictures", func(d *docx.Docx, r *res) {
			p := d.AddParagraph()
			if _, err := p.AddInlineDrawing(imgs["png"]); err != nil {
				r.say(err.Error())
			}
			if _, err := p.AddAnchorDrawing(imgs["gif"]); err != nil {
				r.say(err.Error())
			}
		}},
		{"shapes", func(d *docx.Docx, r *res) {
			p := d.AddParagraph()
			p.AddInlineShape(1, 2, "S", "auto", "rect", aline)
			p.AddAnchorShape(1, 2, "S", "auto", "line", aline)
		}},
		{"tables", func(d *docx.Docx, r *res) {
			t := d.AddTable(1, 2, 100, colors)
			t.TableRows[0].TableCells[1].AddParagraph().AddText("c")
			d.AddTableTwips(hs, ws, 0, colors).Justification("center")
		}},
		{"page, then changed", func(d *docx.Docx, r *res) {
			d.WithA4Page()
			its := d.Document.Body.Items
			if s, ok := its[len(its)-1].(*docx.SectPr); ok && s.PgSz != nil {
				s.PgSz.W += 5
				s.PgSz.H += 6
			}
			d.AddParagraph().AddText("x").Bold().Color("123456").RunProperties.Color.Val += "!"
		}},
		{"format everything", func(d *docx.Docx, r *res) {
			for _, p := range paras(d) {
				p.Justification("end").Style("x").NumSize("3")
				for _, c := range p.Children {
					switch x := c.(type) {
					case *docx.Run:
						x.Bold().Color("AABBCC").Size("9").AddTab()
						x.KeepElements("*docx.Text", "*docx.Drawing")
					case *docx.Hyperlink:
						x.Run.Italic().Underline("single")
					}
				}
				p.AddText("more")
			}
		}},
		{"drop and keep", func(d *docx.Docx, r *res) {
			for _, p := range paras(d) {
				p.DropShape()
				p.DropNilPicture()
			}
			d.Document.Body.DropDrawingOf("NilPicture")
			d.Document.Body.KeepElements("*docx.Paragraph", "*docx.Table")
		}},
		{"append itself", func(d *docx.Docx, r *res) { d.AppendFile(d) }},
		{"save and re-open", func(d *docx.Docx, r *res) {
			b, err := save(d)
			if err != nil {
				r.say(err.Error())
				return
			}
			x, err := docx.Parse(bytes.NewReader(b), int64(len(b)))
			if err != nil {
				r.say(err.Error())
				return
			}
			x.AddParagraph().AddLink("n", "http://n/")
			r.save(x)
		}},
		{"sizes and other formatting", func(d *docx.Docx, r *res) {
			p := d.AddParagraph()
			for _, f := range []string{"png", "jpeg"} {
				x, err := p.AddInlineDrawing(imgs[f])
				if err != nil {
					r.say(err.Error())
					continue
				}
				x.Children[0].(*docx.Drawing).Inline.Size(3, 4)
				if x, err = p.AddAnchorDrawing(imgs[f]); err == nil {
					x.Children[0].(*docx.Drawing).Anchor.Size(5, 6)
				}
			}
			for _, it := range d.Document.Body.Items {
				if t, ok := it.(*docx.Table); ok && t.TableProperties != nil {
					t.Justification("end")
					for _, w := range t.TableRows {
						if w.TableRowProperties != nil {
							w.Justification("center")
						}
						for _, c := range w.TableCells {
							if c.TableCellProperties != nil {
								c.Shade("clear", "auto", "E7E6E6")
							}
							c.AddParagraph().AddText("n")
						}
					}
				}
			}
			d.WithA3Page()
		}},
		{"other drops", func(d *docx.Docx, r *res) {
			for i, p := range paras(d) {
				switch i % 4 {
				case 0:
					p.DropShapeAndCanvas()
				case 1:
					p.DropShapeAndCanvasAndGroup()
				case 2:
					p.DropCanvas()
				case 3:
					p.DropGroup()
				}
			}
			for _, n := range []string{"ShapeAndCanvas", "Group", "Canvas", "Shape"} {
				d.Document.Body.DropDrawingOf(n)
			}
		}},
		{"what is refused", func(d *docx.Docx, r *res) {
			p := d.AddParagraph()
			for _, b := range [][]byte{nil, []byte("no picture"), imgs["png"][:20]} {
				_, err := p.AddInlineDrawing(b)
				_, err2 := p.AddAnchorDrawing(b)
				r.say(fmt.Sprint(err, err2))
			}
			_, err := p.AddInlineDrawingFrom("/nonexistent/x.png")
			_, err2 := p.AddAnchorDrawingFrom("/nonexistent/x.png")
			r.say(fmt.Sprint(err != nil, err2 != nil))
			for _, b := range [][]byte{nil, srcPkg[:len(srcPkg)/2], GrammarPackage("<w:document><w:p"), GrammarPackage(DocXML(E("w:body", nil, E("w:p", nil, E("w:r", nil, E("w:rPr", nil, E("w:spacing", A("w:val", "x"))))))))} {
				_, err := docx.Parse(bytes.NewReader(b), int64(len(b)))
				r.say(fmt.Sprint(err != nil))
			}
			t, err := d.ReferTarget("nope")
			i, err2 := d.ReferID("nope")
			r.say(fmt.Sprint(t, i, err, err2, d.Media("nope") == nil))
			err = d.RangeRelationships(func(*docx.Relationship) error { return fmt.Errorf("stop") })
			_, err2 = d.Read(nil)
			r.say(fmt.Sprint(err, err2))
		}},
		{"helpers", func(d *docx.Docx, r *res) {
			for _, s := range []string{"", "1", "-2.5", "x", "1e3", "9223372036854775807", "1e99"} {
				a, err := docx.GetInt64(s)
				b, err2 := docx.GetInt(s)
				r.say(fmt.Sprint(a, err, b, err2))
			}
			r.say(docx.BytesToString([]byte("abc")) + string(docx.StringToBytes("def")))
		}},
		{"counter", func(d *docx.Docx, r *res) { r.say(fmt.Sprint(d.IncreaseID("图片"), d.IncreaseID("S"))) }},
	}
}

// seqs lists every sequence over 0..k-1 of length 1..n.
func seqs(k, n int) (out [][]int) {
	last := [][]int{nil}
	for l := 0; l < n; l++ {
		var next [][]int
		for _, s := range last {
			for i := 0; i < k; i++ {
				next = append(next, append(append([]int{}, s...), i))
			}
		}
		out = append(out, next...)
		last = next
	}
	return
}

func counterScenario(progs [][]int, bound int, mkdoc func() *docx.Docx, what string) scenario {
	names := []string{"a", "图片"}
	return scenario{"counter", fmt.Sprintf("IncreaseID by %v (0: a, 1: 图片) on %s", progs, what), bound, 2, func() ([]func(), func() string) {
		d := mkdoc()
		base := [2]uintptr{d.IncreaseID("a"), d.IncreaseID("图片")}
		got := make([][]uintptr, len(progs))
		var ths []func()
		for t, p := range progs {
			t, p := t, p
			got[t] = make([]uintptr, len(p))
			ths = append(ths, func() {
				for i, o := range p {
					got[t][i] = d.IncreaseID(names[o])
				}
			})
		}
		return ths, func() string {
			all := [2][]int{}
			for t, p := range progs {
				last := base
				for i, o := range p {
					if got[t][i] <= last[o] {
						return fmt.Sprintf("!thread %d got %v", t, got[t])
					}
					last[o] = got[t][i]
					all[o] = append(all[o], int(got[t][i]-base[o]))
				}
			}
			for o := range all {
				sort.Ints(all[o])
				for i, x := range all[o] {
					if x != i+1 {
						return fmt.Sprintf("!numbers of %s: %v", names[o], all[o])
					}
				}
			}
			return fmt.Sprint(all, d.IncreaseID("a")-base[0], d.IncreaseID("图片")-base[1])
		}
	}}
}

// the documents whose paragraphs get shapes concurrently
var shapeDocs = []struct {
	name string
	mk   func(n int) (*docx.Docx, []*docx.Paragraph)
}{
	{"new document", func(n int) (*docx.Docx, []*docx.Paragraph) {
		d := mini(docx.New())
		var ps []*docx.Paragraph
		for i := 0; i < n; i++ {
			ps = append(ps, d.AddParagraph())
		}
		return d, ps
	}},
	{"parsed document with cells", func(n int) (*docx.Docx, []*docx.Paragraph) {
		d := parsed()
		ps := paras(d)
		return d, append([]*docx.Paragraph{ps[0], ps[3], ps[1]}, ps[2:]...)[:n]
	}},
	{"table cells", func(n int) (*docx.Docx, []*docx.Paragraph) {
		d := mini(docx.New())
		t := d.AddTable(1, n, 0, nil)
		var ps []*docx.Paragraph
		for _, c := range t.TableRows[0].TableCells {
			ps = append(ps, c.AddParagraph())
		}
		return d, ps
	}},
}

// docPr is the properties of the shape in a run.
func docPr(r *docx.Run) *docx.WPDocPr {
	d := r.Children[0].(*docx.Drawing)
	if d.Inline != nil {
		return d.Inline.DocPr
	}
	return d.Anchor.DocPr
}

// docPrIDs counts the drawing ids of a document as saved.
func docPrIDs(d *docx.Docx) map[int]int {
	b, err := save(d)
	if err != nil {
		panic(err)
	}
	p, err := ReadPkg(b)
	if err != nil {
		panic(err)
	}
	ids := map[int]int{}
	p.Doc.Walk(func(n *Node) {
		if n.Name == "wp:docPr" {
			i, _ := strconv.Atoi(n.Attr("id"))
			ids[i]++
		}
	})
	return ids
}

func shapeScenario(progs [][]int, bound, dk int) scenario {
	sd := shapeDocs[dk]
	ops := []string{"inline S", "anchor S", "inline T", "counter S"}
	var old map[int]int
	return scenario{"shapes", fmt.Sprintf("%v (%s) on a %s", progs, strings.Join(ops, ", "), sd.name), bound, 2, func() ([]func(), func() string) {
		d, ps := sd.mk(len(progs))
		if old == nil {
			old = docPrIDs(d)
		}
		runs := make([][]*docx.Run, len(progs))
		nums := make([][]uintptr, len(progs))
		kids := make([]int, len(progs))
		var ths []func()
		for t, p := range progs {
			t, p := t, p
			kids[t] = len(ps[t].Children)
			ths = append(ths, func() {
				for _, o := range p {
					switch o {
					case 0:
						runs[t] = append(runs[t], ps[t].AddInlineShape(int64(t+1), 2, "S", "auto", "rect", nil))
					case 1:
						runs[t] = append(runs[t], ps[t].AddAnchorShape(int64(t+1), 3, "S", "auto", "rect", nil))
					case 2:
						runs[t] = append(runs[t], ps[t].AddInlineShape(int64(t+1), 4, "T", "auto", "rect", nil))
					case 3:
						nums[t] = append(nums[t], d.IncreaseID("S"))
					}
				}
			})
		}
		return ths, func() string {
			ids := map[int]int{}
			for _, rs := range runs {
				for _, r := range rs {
					ids[docPr(r).ID]++
				}
			}
			names := map[string]bool{}
			total := map[string]int{}
			var shape []string
			for t, pr := range progs {
				k := 0
				for _, o := range pr {
					if o == 3 {
						n := fmt.Sprint("S ", nums[t][0])
						nums[t] = nums[t][1:]
						if names[n] {
							return "!number given twice: " + n
						}
						names[n] = true
						total["S"]++
						continue
					}
					if len(ps[t].Children) != kids[t]+len(runs[t]) || ps[t].Children[kids[t]+k] != interface{}(runs[t][k]) {
						return fmt.Sprintf("!paragraph %d does not hold its shapes in order", t)
					}
					pr := docPr(runs[t][k])
					k++
					if ids[pr.ID] != 1 || old[pr.ID] != 0 {
						return fmt.Sprintf("!drawing id %d used %d times (%d before)", pr.ID, ids[pr.ID], old[pr.ID])
					}
					if names[pr.Name] {
						return "!shape name given twice: " + pr.Name
					}
					names[pr.Name] = true
					base := pr.Name[:strings.IndexByte(pr.Name+" ", ' ')]
					total[base]++
					shape = append(shape, fmt.Sprint(t, o, base))
				}
			}
			for _, base := range []string{"S", "T"} {
				if n := int(d.IncreaseID(base)); n != total[base]+1 {
					return fmt.Sprintf("!the counter of %s is at %d after %d uses", base, n, total[base])
				}
			}
			return strings.Join(shape, ";")
		}
	}}
}

// pairs of documents two threads work on
var pairKinds = []struct {
	name string
	mk   func() (a, b *docx.Docx)
}{
	{"two new documents with one template", func() (a, b *docx.Docx) {
		a, b = docx.New().UseTemplate(tplName, tplFiles, tplFS), docx.New().UseTemplate(tplName, tplFiles, tplFS)
		a.AddParagraph().AddText("x")
		b.AddParagraph().AddText("y")
		return
	}},
	{"the appended document and the result", func() (a, b *docx.Docx) {
		a, b = mini(docx.New()), parsed()
		a.AppendFile(b)
		return
	}},
	{"two documents the same one was appended to", func() (a, b *docx.Docx) {
		s := parsed()
		a, b = mini(docx.New()), mini(docx.New())
		a.AppendFile(s)
		b.AppendFile(s)
		return
	}},
	{"two pieces of a split document", func() (a, b *docx.Docx) {
		ps := parsed().SplitByParagraph(docx.SplitDocxByPlainTextRegex(sepRe))
		return ps[1], ps[2]
	}},
	{"a split document and a piece", func() (a, b *docx.Docx) {
		a = parsed()
		return a, a.SplitByParagraph(docx.SplitDocxByPlainTextRegex(sepRe))[2]
	}},
	{"two documents loaded from the items and media of one", func() (a, b *docx.Docx) {
		s := parsed()
		ms := make([]docx.Media, 0, 8)
		ms = append(ms, *s.Media("image1.png"))
		return mini(docx.LoadBodyItems(s.Document.Body.Items, ms)), mini(docx.LoadBodyItems(s.Document.Body.Items, ms))
	}},
	{"two documents parsed from one reader", func() (a, b *docx.Docx) {
		rd := bytes.NewReader(srcPkg)
		a, err := docx.Parse(rd, rd.Size())
		if err != nil {
			panic(err)
		}
		b, err = docx.Parse(rd, rd.Size())
		if err != nil {
			panic(err)
		}
		return
	}},
	{"a new document with the default theme and another", func() (a, b *docx.Docx) {
		a, b = docx.New().WithDefaultTheme(), docx.New().WithDefaultTheme()
		a.AddParagraph().AddText("x")
		return
	}},
}

// widePairs are pairs of documents with every edge of the vocabulary.
var widePairs = []struct {
	name string
	mk   func() (a, b *docx.Docx)
}{
	{"two parsed documents of the whole vocabulary", func() (a, b *docx.Docx) { return parsedWide(), parsedWide() }},
	{"a document of the whole vocabulary and one it was appended to", func() (a, b *docx.Docx) {
		a, b = parsedWide(), mini(docx.New())
		b.AppendFile(a)
		return
	}},
	{"two copies of a document of the whole vocabulary", func() (a, b *docx.Docx) {
		s := parsedWide()
		a, b = mini(docx.New()), mini(docx.New())
		a.AppendFile(s)
		b.AppendFile(s)
		return
	}},
}

func pairScenario(kind int, pa, pb []op, bound, level int) scenario {
	pk := append(pairKinds[:len(pairKinds):len(pairKinds)], widePairs...)[kind]
	nm := func(p []op) string {
		var s []string
		for _, o := range p {
			s = append(s, o.name)
		}
		return strings.Join(s, ", ")
	}
	return scenario{"documents", fmt.Sprintf("%s: [%s] and [%s] level %d", pk.name, nm(pa), nm(pb), level), bound, level, func() ([]func(), func() string) {
		*colors = docx.APITableBorderColors{Top: "#111111"}
		a, b := pk.mk()
		r := [2]*res{{}, {}}
		run := func(d *docx.Docx, p []op, r *res) func() {
			return func() {
				for _, o := range p {
					o.do(d, r)
				}
			}
		}
		return []func(){run(a, pa, r[0]), run(b, pb, r[1])}, func() string {
			r[0].save(a)
			r[1].save(b)
			return r[0].digest() + "----\n" + r[1].digest()
		}
	}}
}

func readScenario(ps [][]op, bound, level int) scenario {
	var s []string
	for _, p := range ps {
		for _, o := range p {
			s = append(s, o.name)
		}
		s = append(s, "|")
	}
	return scenario{"readers", fmt.Sprintf("one document: %s level %d", strings.Join(s, " "), level), bound, level, func() ([]func(), func() string) {
		d := parsed()
		d.AddParagraph().AddLink("l", "http://l/")
		var ths []func()
		rs := make([]*res, len(ps))
		for i, p := range ps {
			i, p := i, p
			rs[i] = &res{}
			ths = append(ths, func() {
				for _, o := range p {
					o.do(d, rs[i])
				}
			})
		}
		return ths, func() string {
			out := ""
			for _, r := range rs {
				out += r.digest() + "----\n"
			}
			b, err := save(d)
			return out + parts(b, err)
		}
	}}
}

// pops work on one paragraph (and its document only through shapes and the counter).
type pop struct {
	name string
	do   func(d *docx.Docx, p *docx.Paragraph, r *res)
}

func pops() []pop {
	runs := func(p *docx.Paragraph, f func(*docx.Run)) {
		for _, c := range p.Children {
			switch x := c.(type) {
			case *docx.Run:
				f(x)
			case *docx.Hyperlink:
				f(&x.Run)
			}
		}
	}
	return []pop{
		{"text", func(d *docx.Docx, p *docx.Paragraph, r *res) {
			p.AddText("a\tb\nc").Bold().Color("FF0000").AddTab()
			p.AddPageBreaks().Size("5")
			p.AddTab()
		}},
		{"paragraph formatting", func(d *docx.Docx, p *docx.Paragraph, r *res) {
			p.Justification("center").Style("2").NumPr("1", "0").NumFont("a", "b", "c", "d").NumSize("9")
		}},
		{"run formatting", func(d *docx.Docx, p *docx.Paragraph, r *res) {
			runs(p, func(x *docx.Run) {
				x.Color("00FF00").Size("1").SizeCs("2").Shade("a", "b", "c").Spacing(3).Bold().Italic().Underline("u").Highlight("h").Strike(true).Font("a", "b", "c", "d")
			})
		}},
		{"merge", func(d *docx.Docx, p *docx.Paragraph, r *res) {
			for _, ru := range []docx.RunMergeRule{docx.MergeSamePropRunsOf("Bold"), docx.MergeSamePropRuns, docx.MergeAllRuns} {
				*p = p.MergeText(ru)
			}
			r.say(p.String())
		}},
		{"drop", func(d *docx.Docx, p *docx.Paragraph, r *res) {
			p.DropShape()
			p.DropCanvas()
			p.DropGroup()
			p.DropNilPicture()
			p.KeepElements("*docx.Run")
			runs(p, func(x *docx.Run) { x.KeepElements("*docx.Text", "*docx.Drawing") })
		}},
		{"string", func(d *docx.Docx, p *docx.Paragraph, r *res) { r.say(p.String()) }},
		{"split rule", func(d *docx.Docx, p *docx.Paragraph, r *res) {
			r.say(fmt.Sprint(docx.SplitDocxByPlainTextRegex(sepRe)(p)))
		}},
	}
}

// paraScenario: threads work on different paragraphs of one document.
func paraScenario(ps [][]pop, kind, bound, level int) scenario {
	var s []string
	for _, p := range ps {
		for _, o := range p {
			s = append(s, o.name)
		}
		s = append(s, "|")
	}
	kinds := []string{"new", "parsed", "copied", "new paragraphs without properties"}
	return scenario{"paragraphs", fmt.Sprintf("different paragraphs of one %s document: %s level %d", kinds[kind], strings.Join(s, " "), level), bound, level, func() ([]func(), func() string) {
		var d *docx.Docx
		var own []*docx.Paragraph
		switch kind {
		case 0: // two paragraphs and a cell
			d = mini(docx.New())
			for i := 0; i < 2; i++ {
				p := d.AddParagraph().Style("x").NumSize("1")
				p.AddText("one").Bold()
				p.AddLink("l", "http://l/")
				p.AddInlineShape(1, 2, "S", "auto", "rect", aline)
				own = append(own, p)
			}
			c := d.AddTable(1, 1, 0, nil).TableRows[0].TableCells[0].AddParagraph()
			c.AddText("cell")
			own = []*docx.Paragraph{own[0], c, own[1]}
		case 1:
			d = parsed()
			p := paras(d)
			own = []*docx.Paragraph{p[0], p[2], p[3]}
		case 2: // both come from one paragraph of another document
			s, n := parsed(), mini(docx.New())
			n.AppendFile(s)
			n.AppendFile(s)
			d = n
			p := paras(d)
			own = []*docx.Paragraph{p[0], p[len(p)/2], p[2]}
		case 3:
			d = mini(docx.New())
			for i := 0; i < 3; i++ {
				p := d.AddParagraph()
				p.AddText("x")
				own = append(own, p)
			}
		}
		var ths []func()
		rs := make([]*res, len(ps))
		for i, p := range ps {
			i, p := i, p
			rs[i] = &res{}
			ths = append(ths, func() {
				for _, o := range p {
					o.do(d, own[i], rs[i])
				}
			})
		}
		return ths, func() string {
			out := ""
			for _, r := range rs {
				out += r.digest() + "----\n"
			}
			b, err := save(d)
			return out + parts(b, err)
		}
	}}
}

func scenarios(thorough bool) (out []scenario) {
	setup()
	pick := func(q, t int) int {
		if thorough {
			return t
		}
		return q
	}
	fresh := func() *docx.Docx { return mini(docx.New()) }
	// counters
	cs := seqs(2, 2)
	for i, a := range cs {
		for _, b := range cs[:i+1] {
			out = append(out, counterScenario([][]int{a, b}, pick(3, 5), fresh, "a new document"))
		}
	}
	for _, a := range seqs(2, 1) {
		for _, b := range cs {
			out = append(out, counterScenario([][]int{{0}, a, b}, pick(2, 3), fresh, "a new document"))
		}
	}
	out = append(out, counterScenario([][]int{{0, 0, 0}, {0, 0, 0}}, pick(3, 4), fresh, "a new document"),
		counterScenario([][]int{{0}, {0}, {0}, {0}}, pick(2, 2), fresh, "a new document"),
		counterScenario([][]int{{1, 0}, {1, 1}}, pick(2, 3), parsed, "a parsed document"))
	// shapes
	ss := seqs(4, 2)
	for i, a := range ss {
		for _, b := range ss[:i+1] {
			if len(a)+len(b) > pick(3, 4) {
				continue
			}
			out = append(out, shapeScenario([][]int{a, b}, pick(2, 3), 0))
		}
	}
	for _, a := range seqs(4, 1) {
		for _, b := range seqs(4, 1) {
			out = append(out, shapeScenario([][]int{a, b}, 2, 1), shapeScenario([][]int{a, b}, 2, 2))
		}
	}
	for _, p := range [][][]int{{{0}, {0}, {0}}, {{0}, {1}, {3}}, {{1}, {1}, {2}}, {{0}, {2}, {1}}} {
		out = append(out, shapeScenario(p, pick(1, 2), 0))
	}
	// different documents
	w := append(writers(), readers()...)
	for k := range pairKinds {
		for i, a := range w {
			for j, b := range w {
				if k == 0 && j > i {
					continue
				}
				// either order, then preemptions at synchronisation
				out = append(out, pairScenario(k, []op{a}, []op{b}, pick(1, 2), 0))
				if i == j || thorough {
					// preemptions at every function entry
					out = append(out, pairScenario(k, []op{a}, []op{b}, 1, 1))
				}
				if i == j && (k == 0 || thorough) {
					// preemptions at every statement
					out = append(out, pairScenario(k, []op{a}, []op{b}, 1, 2))
				}
			}
		}
	}
	for k := range widePairs { // either order, under the race monitor
		for i, a := range w {
			for j, b := range w {
				if i == j || j == (i+1)%len(w) || thorough {
					out = append(out, pairScenario(len(pairKinds)+k, []op{a}, []op{b}, 0, 0))
				}
			}
		}
	}
	// readers of one document
	rd := readers()
	for i, a := range rd {
		for j, b := range rd {
			out = append(out, readScenario([][]op{{a}, {b}}, 2, 0))
			if i == j || thorough {
				out = append(out, readScenario([][]op{{a}, {b}}, 1, pick(1, 2)))
			}
			if j <= i {
				out = append(out, readScenario([][]op{{a}, {b}, {a}}, pick(0, 0), 0))
			}
		}
	}
	// different paragraphs of one document
	po := pops()
	for k := 0; k < 4; k++ {
		for i, a := range po {
			for j, b := range po {
				if j > i && k != 1 {
					continue
				}
				out = append(out, paraScenario([][]pop{{a}, {b}}, k, pick(1, 2), 0))
				if i == j || thorough {
					out = append(out, paraScenario([][]pop{{a}, {b}}, k, 1, pick(1, 2)))
				}
				if i == j && k == 0 {
					out = append(out, paraScenario([][]pop{{a}, {b}}, k, 1, 2))
				}
			}
			out = append(out, paraScenario([][]pop{{a}, {a}, {a}}, k, 0, 0))
		}
	}
	return
}
