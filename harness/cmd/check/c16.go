package main

import (
	"encoding/xml"
	"fmt"
	"reflect"
	"strings"

	docx "github.com/fumiama/go-docx"

	. "verif/harness/core"
)

func init() { checks["C16"] = check{"model_checking", runC16} }

// fmtOp is one formatting call: the public field it sets, the value, and the element it stands for.
type fmtOp struct {
	name  string
	run   func(*docx.Run) *docx.Run
	para  func(*docx.Paragraph) *docx.Paragraph
	field string // field of RunProperties, of ParagraphProperties, or "RunProperties.X"
	value interface{}
	el    *Node
}

func runFmts() []fmtOp {
	r := func(n, field string, v interface{}, el *Node, f func(*docx.Run) *docx.Run) fmtOp {
		return fmtOp{n, f, nil, field, v, el}
	}
	return []fmtOp{
		r("Color(FF0000)", "Color", docx.Color{Val: "FF0000"}, E("w:color", A("w:val", "FF0000")), func(r *docx.Run) *docx.Run { return r.Color("FF0000") }),
		r("Color(auto)", "Color", docx.Color{Val: "auto"}, E("w:color", A("w:val", "auto")), func(r *docx.Run) *docx.Run { return r.Color("auto") }),
		r("Size(44)", "Size", docx.Size{Val: "44"}, E("w:sz", A("w:val", "44")), func(r *docx.Run) *docx.Run { return r.Size("44") }),
		r("SizeCs(28)", "SizeCs", docx.SizeCs{Val: "28"}, E("w:szCs", A("w:val", "28")), func(r *docx.Run) *docx.Run { return r.SizeCs("28") }),
		r("Shade(clear,auto,E7E6E6)", "Shade", docx.Shade{Val: "clear", Color: "auto", Fill: "E7E6E6"}, E("w:shd", A("w:val", "clear", "w:color", "auto", "w:fill", "E7E6E6")), func(r *docx.Run) *docx.Run { return r.Shade("clear", "auto", "E7E6E6") }),
		r("Spacing(360)", "Spacing", docx.Spacing{Line: 360}, E("w:spacing", A("w:line", "360")), func(r *docx.Run) *docx.Run { return r.Spacing(360) }),
		r("Spacing(-20)", "Spacing", docx.Spacing{Line: -20}, E("w:spacing", A("w:line", "-20")), func(r *docx.Run) *docx.Run { return r.Spacing(-20) }),
		r("Bold", "Bold", docx.Bold{}, E("w:b", nil), func(r *docx.Run) *docx.Run { return r.Bold() }),
		r("Italic", "Italic", docx.Italic{}, E("w:i", nil), func(r *docx.Run) *docx.Run { return r.Italic() }),
		r("Underline(double)", "Underline", docx.Underline{Val: "double"}, E("w:u", A("w:val", "double")), func(r *docx.Run) *docx.Run { return r.Underline("double") }),
		r("Highlight(yellow)", "Highlight", docx.Highlight{Val: "yellow"}, E("w:highlight", A("w:val", "yellow")), func(r *docx.Run) *docx.Run { return r.Highlight("yellow") }),
		r("Strike(true)", "Strike", docx.Strike{Val: "true"}, E("w:strike", A("w:val", "true")), func(r *docx.Run) *docx.Run { return r.Strike(true) }),
		r("Strike(false)", "Strike", docx.Strike{Val: "false"}, E("w:strike", A("w:val", "false")), func(r *docx.Run) *docx.Run { return r.Strike(false) }),
		r("Font(a,b,c,d)", "Fonts", docx.RunFonts{ASCII: "Arial", EastAsia: "黑体", HAnsi: "Hansi", Hint: "eastAsia"}, E("w:rFonts", A("w:ascii", "Arial", "w:eastAsia", "黑体", "w:hAnsi", "Hansi", "w:hint", "eastAsia")), func(r *docx.Run) *docx.Run { return r.Font("Arial", "黑体", "Hansi", "eastAsia") }),
		r("Font(,e,,)", "Fonts", docx.RunFonts{EastAsia: "E"}, E("w:rFonts", A("w:eastAsia", "E")), func(r *docx.Run) *docx.Run { return r.Font("", "E", "", "") }),
	}
}

func paraFmts() []fmtOp {
	p := func(n, field string, v interface{}, el *Node, f func(*docx.Paragraph) *docx.Paragraph) fmtOp {
		return fmtOp{n, nil, f, field, v, el}
	}
	num := func(id, lv string) (interface{}, *Node) {
		return docx.NumProperties{NumID: &docx.NumID{Val: id}, Ilvl: &docx.Ilevel{Val: lv}}, E("w:numPr", nil, E("w:numId", A("w:val", id)), E("w:ilvl", A("w:val", lv)))
	}
	v1, e1 := num("1", "0")
	v2, e2 := num("4", "2")
	return []fmtOp{
		p("Justification(center)", "Justification", docx.Justification{Val: "center"}, E("w:jc", A("w:val", "center")), func(p *docx.Paragraph) *docx.Paragraph { return p.Justification("center") }),
		p("Justification(end)", "Justification", docx.Justification{Val: "end"}, E("w:jc", A("w:val", "end")), func(p *docx.Paragraph) *docx.Paragraph { return p.Justification("end") }),
		p("Style(2)", "Style", docx.Style{Val: "2"}, E("w:pStyle", A("w:val", "2")), func(p *docx.Paragraph) *docx.Paragraph { return p.Style("2") }),
		p("NumPr(1,0)", "NumProperties", v1, e1, func(p *docx.Paragraph) *docx.Paragraph { return p.NumPr("1", "0") }),
		p("NumPr(4,2)", "NumProperties", v2, e2, func(p *docx.Paragraph) *docx.Paragraph { return p.NumPr("4", "2") }),
		p("NumFont(a,b,c,d)", "RunProperties.Fonts", docx.RunFonts{ASCII: "Ar", EastAsia: "EA", HAnsi: "HA", Hint: "hint"}, E("w:rFonts", A("w:ascii", "Ar", "w:eastAsia", "EA", "w:hAnsi", "HA", "w:hint", "hint")), func(p *docx.Paragraph) *docx.Paragraph { return p.NumFont("Ar", "EA", "HA", "hint") }),
		p("NumSize(21)", "RunProperties.Size", docx.Size{Val: "21"}, E("w:sz", A("w:val", "21")), func(p *docx.Paragraph) *docx.Paragraph { return p.NumSize("21") }),
		p("NumSize(30)", "RunProperties.Size", docx.Size{Val: "30"}, E("w:sz", A("w:val", "30")), func(p *docx.Paragraph) *docx.Paragraph { return p.NumSize("30") }),
	}
}

// fields16 renders every set field of a properties struct.
func fields16(p interface{}) map[string]string {
	out := map[string]string{}
	v := reflect.ValueOf(p)
	if v.IsNil() {
		return out
	}
	v = v.Elem()
	for i := 0; i < v.NumField(); i++ {
		f, n := v.Field(i), v.Type().Field(i).Name
		if f.Kind() != reflect.Ptr || f.IsNil() {
			continue
		}
		if n == "RunProperties" {
			for k, s := range fields16(f.Interface()) {
				out["RunProperties."+k] = s
			}
			continue
		}
		out[n] = render16(f.Elem().Interface())
	}
	return out
}

// render16 prints a value without its XML names.
func render16(x interface{}) string {
	v := reflect.ValueOf(x)
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return "&" + render16(v.Elem().Interface())
	case reflect.Struct:
		s := "{"
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).Type() == reflect.TypeOf(xml.Name{}) || v.Type().Field(i).PkgPath != "" {
				continue
			}
			s += v.Type().Field(i).Name + ":" + render16(v.Field(i).Interface()) + " "
		}
		return s + "}"
	case reflect.Slice:
		s := "["
		for i := 0; i < v.Len(); i++ {
			s += render16(v.Index(i).Interface()) + " "
		}
		return s + "]"
	}
	return fmt.Sprintf("%q", fmt.Sprint(x))
}

// world16 is a document with the runs and paragraphs to be formatted, in document order.
type world16 struct {
	docs  []*docx.Docx
	runs  []*docx.Run
	paras []*docx.Paragraph
}

// collect lists runs and paragraphs of a document in document order (no text boxes).
func (w *world16) collect(d *docx.Docx) {
	w.docs = append(w.docs, d)
	var para func(p *docx.Paragraph)
	para = func(p *docx.Paragraph) {
		w.paras = append(w.paras, p)
		for _, c := range p.Children {
			switch x := c.(type) {
			case *docx.Run:
				w.runs = append(w.runs, x)
			case *docx.Hyperlink:
				w.runs = append(w.runs, &x.Run)
			}
		}
	}
	for _, it := range d.Document.Body.Items {
		switch x := it.(type) {
		case *docx.Paragraph:
			para(x)
		case *docx.Table:
			for _, r := range x.TableRows {
				for _, c := range r.TableCells {
					for _, p := range c.Paragraphs {
						para(p)
					}
				}
			}
		}
	}
}

func worlds16() map[string]func() *world16 {
	built := func() *docx.Docx {
		d := mini(docx.New())
		p := d.AddParagraph()
		p.AddText("text")
		p.AddTab()
		p.AddPageBreaks()
		p.AddLink("link", "http://l/")
		q := d.AddParagraph()
		q.AddInlineDrawing(Img("png", 2, 1, 1))
		q.AddAnchorDrawing(Img("jpeg", 1, 1, 2))
		q.AddInlineShape(10, 20, "S", "auto", "rect", nil)
		q.AddAnchorShape(10, 20, "S", "auto", "rect", nil)
		return d
	}
	full := Full("w:rPr", "w:r", 1)
	parsed := func() *docx.Docx {
		run := func(k ...*Node) *Node { return E("w:r", nil, append(k, E("w:t", nil, T("x")))...) }
		return mustParse(GrammarPackage(DocXML(E("w:body", nil,
			E("w:p", nil, run(), run(E("w:rPr", nil)), run(full.Clone()), E("w:hyperlink", A("r:id", "rId4"), run()), E("w:hyperlink", A("r:id", "rId4"), run(full.Clone()))),
			E("w:p", nil, Full("w:pPr", "w:p", 2), run(E("w:rPr", nil, E("w:b", A("w:val", "0")))))))))
	}
	table := func() *docx.Docx {
		d := mini(docx.New())
		t := d.AddTable(1, 2, 0, nil)
		for i := 0; i < 2; i++ {
			t.TableRows[0].TableCells[i].AddParagraph().AddText("c")
		}
		d.AddParagraph().AddText("after")
		return d
	}
	one := func(f func() *docx.Docx) func() *world16 {
		return func() *world16 { w := &world16{}; w.collect(f()); return w }
	}
	small := func() *docx.Docx {
		d := mini(docx.New())
		p := d.AddParagraph().Style("S").NumPr("1", "1").NumSize("3")
		p.AddText("text").Bold().Color("C0C0C0")
		p.AddLink("link", "http://l/").Run.Italic()
		return d
	}
	return map[string]func() *world16{
		"built":  one(built),
		"parsed": one(parsed),
		"table":  one(table),
		"small":  one(small),
		"appended": func() *world16 {
			w := &world16{}
			a, b := mini(docx.New()), small()
			a.AppendFile(b)
			w.collect(a)
			w.collect(b)
			return w
		},
		"appended to itself": func() *world16 {
			w := &world16{}
			a := small()
			a.AppendFile(a)
			w.collect(a)
			return w
		},
		"appended parsed": func() *world16 {
			w := &world16{}
			a, b := mini(docx.New()), parsed()
			a.AppendFile(b)
			w.collect(a)
			w.collect(b)
			return w
		},
		"split": func() *world16 {
			w := &world16{}
			a := small()
			a.AddParagraph().AddText("second").Italic()
			for _, x := range a.SplitByParagraph(func(*docx.Paragraph) bool { return true }) {
				w.collect(x)
			}
			w.collect(a)
			return w
		},
		"loaded": func() *world16 {
			w := &world16{}
			a := small()
			a.AddParagraph().AddText("second").Italic()
			for _, x := range a.SplitByParagraph(func(*docx.Paragraph) bool { return true }) {
				w.collect(mini(docx.LoadBodyItems(x.Document.Body.Items, nil)))
			}
			return w
		},
		"merged": func() *world16 {
			w := &world16{}
			a := small()
			p := a.Document.Body.Items[0].(*docx.Paragraph)
			p.AddText("more").Bold().Color("C0C0C0")
			p.AddText("other").Strike(true)
			b := mini(docx.New())
			for _, r := range []docx.RunMergeRule{docx.MergeSamePropRuns, docx.MergeAllRuns} {
				np := p.MergeText(r)
				np.KeepElements("*docx.Run") // links are the same objects on both sides
				b.Document.Body.Items = append(b.Document.Body.Items, &np)
			}
			w.collect(a)
			w.collect(b)
			return w
		},
	}
}

// nodes16 lists the run and paragraph nodes of a saved body in the order of collect.
func nodes16(body *Node) (runs, paras []*Node) {
	var walk func(n *Node, inDrawing bool)
	walk = func(n *Node, in bool) {
		if !in && n.Name == "w:r" {
			runs = append(runs, n)
		}
		if !in && n.Name == "w:p" {
			paras = append(paras, n)
		}
		for _, k := range n.Kids {
			walk(k, in || n.Name == "w:drawing")
		}
	}
	walk(body, false)
	return
}

func runC16(c *Ctx) {
	c.Rule = "every sequence of formatting calls up to the depth on every target of every world (runs and paragraphs built, parsed, copied, merged); state = fields of all targets"
	rf, pf := runFmts(), paraFmts()
	type call struct{ op, target int }
	all := append(append([]fmtOp{}, rf...), pf...)
	exec := func(wn string, mk func() *world16, ref []*Pkg, refw *world16, calls []call) {
		w := mk()
		rep := wn + ":"
		for _, k := range calls {
			rep += fmt.Sprintf(" [%d].%s", k.target, all[k.op].name)
		}
		c.Guard("formatting "+wn, rep, func() {
			wantR := make([]map[string]string, len(w.runs))
			wantP := make([]map[string]string, len(w.paras))
			for i, r := range refw.runs {
				wantR[i] = fields16(r.RunProperties)
			}
			for i, p := range refw.paras {
				wantP[i] = fields16(p.Properties)
			}
			var bodies []*Node
			var rn, pn []*Node
			for _, p := range ref {
				b := p.Canon(p.Body(), CanonOpts{})
				bodies = append(bodies, b)
				r, q := nodes16(b)
				rn, pn = append(rn, r...), append(pn, q...)
			}
			if len(rn) != len(w.runs) || len(pn) != len(w.paras) {
				c.Fail("formatting: runs or paragraphs missing in the saved document: "+wn, fmt.Sprintf("%d/%d runs %d/%d paragraphs", len(rn), len(w.runs), len(pn), len(w.paras)), rep)
				return
			}
			for _, k := range calls {
				op := all[k.op]
				c.Trans(1)
				if op.run != nil {
					if op.run(w.runs[k.target]) != w.runs[k.target] {
						c.Fail("formatting call does not return its receiver: "+op.name, "", rep)
					}
					wantR[k.target][op.field] = render16(op.value)
					setProp(prop(rn[k.target], "w:rPr"), op.el.Clone())
				} else {
					if op.para(w.paras[k.target]) != w.paras[k.target] {
						c.Fail("formatting call does not return its receiver: "+op.name, "", rep)
					}
					wantP[k.target][op.field] = render16(op.value)
					pr := prop(pn[k.target], "w:pPr")
					if strings.HasPrefix(op.field, "RunProperties.") {
						pr = prop(pr, "w:rPr")
					}
					setProp(pr, op.el.Clone())
				}
			}
			cmp := func(kind string, i int, got, want map[string]string) {
				for f, v := range want {
					if got[f] != v {
						c.Fail("formatting: field of a "+kind+" not as set: "+f, fmt.Sprintf("%s %d: want %s got %s", kind, i, v, got[f]), rep)
					}
				}
				for f, v := range got {
					if _, ok := want[f]; !ok {
						c.Fail("formatting: field of a "+kind+" set by nobody: "+f, fmt.Sprintf("%s %d: %s", kind, i, v), rep)
					}
				}
			}
			state := ""
			for i, r := range w.runs {
				got := fields16(r.RunProperties)
				cmp("run", i, got, wantR[i])
				state += fmt.Sprint(got)
			}
			for i, p := range w.paras {
				got := fields16(p.Properties)
				cmp("paragraph", i, got, wantP[i])
				state += fmt.Sprint(got)
			}
			c.State(wn + state)
			if w.docs[0] == nil {
				return
			}
			ri, pi := 0, 0
			for i, d := range w.docs {
				b, err := Save(d)
				c.Trans(1)
				if err != nil {
					c.Fail("formatting: save", err.Error(), rep)
					return
				}
				p, err := ReadPkg(b)
				if err != nil {
					c.Fail("formatting: save", err.Error(), rep)
					return
				}
				if w, g := Render(AbsNodes(bodies[i].Kids)), Render(p.Abs()); w != g {
					c.Fail("formatting: saved document: "+wn, FirstDiff(w, g), rep)
					return
				}
				// re-opened: same fields again
				re, err := tryParse(b)
				c.Trans(1)
				if err != nil {
					c.Fail("formatting: re-open", err.Error(), rep)
					return
				}
				x := &world16{}
				x.collect(re)
				for k, r := range x.runs {
					cmp("re-opened run", ri+k, fields16(r.RunProperties), wantR[ri+k])
				}
				for k, q := range x.paras {
					cmp("re-opened paragraph", pi+k, fields16(q.Properties), wantP[pi+k])
				}
				ri += len(x.runs)
				pi += len(x.paras)
			}
			c.Trace()
		})
	}
	for wn, mk := range worlds16() {
		wn, mk := wn, mk
		refw := mk()
		var ref []*Pkg
		for _, d := range refw.docs {
			p, _, err := savePkg(d)
			if err != nil {
				c.Fail("save", err.Error(), wn)
				return
			}
			ref = append(ref, p)
		}
		var calls []call
		for i := range all {
			n := len(refw.paras)
			if all[i].run != nil {
				n = len(refw.runs)
			}
			for t := 0; t < n; t++ {
				calls = append(calls, call{i, t})
			}
		}
		c.AddExtra("calls in "+wn, len(calls))
		depth := c.Pick(2, 3)
		if len(calls) > 150 && !c.Thorough() {
			// quick: every call alone, every pair on one target, every pair of the same call
			for _, a := range calls {
				exec(wn, mk, ref, refw, []call{a})
			}
			Par(len(calls), func(i int) {
				for _, b := range calls {
					a := calls[i]
					if (all[a.op].run != nil) == (all[b.op].run != nil) && (a.target == b.target || a.op == b.op) {
						exec(wn, mk, ref, refw, []call{a, b})
					}
				}
			})
			continue
		}
		if len(calls) > 120 && depth > 2 {
			depth = 2
		}
		seqs10(len(calls), depth, func(seq []int) {
			if c.Failing() {
				return
			}
			cs := make([]call, len(seq))
			for i, k := range seq {
				cs[i] = calls[k]
			}
			exec(wn, mk, ref, refw, cs)
		})
	}
	// deeper: two runs, two paragraphs
	for _, v := range []struct {
		name string
		ops  []int
		d    int
	}{{"runs", []int{0, 1, 2, 4, 6, 7, 8, 9, 10, 11, 12, 13, 14}, c.Pick(3, 4)}, {"paragraphs", []int{15, 16, 17, 18, 19, 20, 21, 22}, c.Pick(3, 5)}} {
		mk := func() *world16 {
			d := mini(docx.New())
			p, q := d.AddParagraph(), d.AddParagraph()
			p.AddText("a")
			q.AddLink("b", "http://b/")
			w := &world16{}
			w.collect(d)
			return w
		}
		refw := mk()
		p, _, err := savePkg(refw.docs[0])
		if err != nil {
			c.Fail("save", err.Error(), v.name)
			return
		}
		var cs []call
		for _, o := range v.ops {
			cs = append(cs, call{o, 0}, call{o, 1})
		}
		seqs10(len(cs), v.d, func(seq []int) {
			x := make([]call, len(seq))
			for i, k := range seq {
				x[i] = cs[k]
			}
			exec("two "+v.name, mk, []*Pkg{p}, refw, x)
		})
	}
	mixed16(c)
	values16(c)
	c.Assume("fields of the public property structures and the elements of the saved document stand for the formatting")
}

// mixed16: additions and formatting calls in every order; what each returned run and paragraph ends up with.
func mixed16(c *Ctx) {
	type item struct {
		run  *docx.Run
		para *docx.Paragraph
		want map[string]string
	}
	type doc struct {
		d     *docx.Docx
		p     *docx.Paragraph
		cell  *docx.WTableCell
		runs  []*item
		paras []*item
	}
	png, gif := Img("png", 2, 1, 1), Img("gif", 1, 1, 2)
	add := func(w *doc, r *docx.Run) {
		w.runs = append(w.runs, &item{run: r, want: map[string]string{}})
	}
	para := func(w *doc, p *docx.Paragraph) {
		w.p = p
		w.paras = append(w.paras, &item{para: p, want: map[string]string{}})
	}
	rf, pf := runFmts(), paraFmts()
	byName := func(l []fmtOp, n string) fmtOp {
		for _, o := range l {
			if o.name == n {
				return o
			}
		}
		panic(n)
	}
	type step struct {
		name string
		do   func(w *doc)
	}
	adders := []step{
		{"AddText(a)", func(w *doc) { add(w, w.p.AddText("a")) }},
		{"AddText(a\\n\\tb)", func(w *doc) { add(w, w.p.AddText("a\n\tb")) }},
		{"AddText(\\t)", func(w *doc) { add(w, w.p.AddText("\t")) }},
		{"AddText()", func(w *doc) { add(w, w.p.AddText("")) }},
		{"AddTab", func(w *doc) { add(w, w.p.AddTab()) }},
		{"AddPageBreaks", func(w *doc) { add(w, w.p.AddPageBreaks()) }},
		{"AddLink", func(w *doc) {
			h := w.p.AddLink("l", "http://l/")
			w.runs = append(w.runs, &item{run: &h.Run, want: map[string]string{"RunStyle": render16(docx.RunStyle{Val: "a3"})}})
		}},
		{"AddInlineDrawing", func(w *doc) {
			if r, err := w.p.AddInlineDrawing(png); err == nil {
				add(w, r)
			}
		}},
		{"AddAnchorDrawing", func(w *doc) {
			if r, err := w.p.AddAnchorDrawing(gif); err == nil {
				add(w, r)
			}
		}},
		{"AddInlineShape", func(w *doc) { add(w, w.p.AddInlineShape(1, 2, "S", "auto", "rect", nil)) }},
		{"AddAnchorShape", func(w *doc) { add(w, w.p.AddAnchorShape(1, 2, "S", "auto", "rect", nil)) }},
		{"AddParagraph", func(w *doc) { para(w, w.d.AddParagraph()) }},
		{"cell.AddParagraph", func(w *doc) {
			if w.cell == nil {
				w.cell = w.d.AddTable(1, 1, 0, nil).TableRows[0].TableCells[0]
			}
			para(w, w.cell.AddParagraph())
		}},
		{"WithA4Page", func(w *doc) { w.d.WithA4Page() }},
	}
	onRun := func(at string, pick func(n int) int, op fmtOp) step {
		return step{op.name + " on the " + at + " run", func(w *doc) {
			i := pick(len(w.runs))
			if i < 0 || i >= len(w.runs) {
				return
			}
			op.run(w.runs[i].run)
			w.runs[i].want[op.field] = render16(op.value)
		}}
	}
	onPara := func(at string, pick func(n int) int, op fmtOp) step {
		return step{op.name + " on the " + at + " paragraph", func(w *doc) {
			i := pick(len(w.paras))
			if i < 0 || i >= len(w.paras) {
				return
			}
			op.para(w.paras[i].para)
			w.paras[i].want[op.field] = render16(op.value)
		}}
	}
	first, last, before := func(int) int { return 0 }, func(n int) int { return n - 1 }, func(n int) int { return n - 2 }
	fmts := []step{
		onRun("first", first, byName(rf, "Bold")),
		onRun("last", last, byName(rf, "Bold")),
		onRun("last", last, byName(rf, "Color(FF0000)")),
		onRun("last but one", before, byName(rf, "Underline(double)")),
		onPara("last", last, byName(pf, "Justification(center)")),
		onPara("last", last, byName(pf, "NumSize(21)")),
		onPara("last but one", before, byName(pf, "Style(2)")),
	}
	steps := append(append([]step{}, adders...), fmts...)
	c.AddExtra("mixed steps", len(steps))
	seqs10(len(steps), c.Pick(4, 5), func(seq []int) {
		if c.Failing() {
			return
		}
		w := &doc{d: mini(docx.New())}
		para(w, w.d.AddParagraph())
		rep := ""
		for _, k := range seq {
			rep += steps[k].name + "; "
		}
		c.Guard("mixed", rep, func() {
			for _, k := range seq {
				steps[k].do(w)
				c.Trans(1)
			}
			// each returned object has what was set on it and nothing else
			st := ""
			var wantR, wantP []map[string]string
			for i, it := range w.runs {
				got := fields16(it.run.RunProperties)
				st += fmt.Sprint(got)
				if g, x := fmt.Sprint(got), fmt.Sprint(it.want); g != x {
					c.Fail("mixed: formatting of a run", fmt.Sprintf("run %d: want %s got %s", i, x, g), rep)
				}
			}
			for i, it := range w.paras {
				got := fields16(it.para.Properties)
				st += fmt.Sprint(got)
				if g, x := fmt.Sprint(got), fmt.Sprint(it.want); g != x {
					c.Fail("mixed: formatting of a paragraph", fmt.Sprintf("paragraph %d: want %s got %s", i, x, g), rep)
				}
			}
			c.State(st)
			c.Trace()
			if len(seq) > c.Pick(3, 4) {
				return
			}
			// the same after re-opening, in document order
			x := &world16{}
			x.collect(w.d)
			for _, r := range x.runs {
				wantR = append(wantR, fields16(r.RunProperties))
			}
			for _, p := range x.paras {
				wantP = append(wantP, fields16(p.Properties))
			}
			b, err := Save(w.d)
			if err != nil {
				c.Fail("mixed: save", err.Error(), rep)
				return
			}
			re, err := tryParse(b)
			c.Trans(2)
			if err != nil {
				c.Fail("mixed: re-open", err.Error(), rep)
				return
			}
			y := &world16{}
			y.collect(re)
			if len(y.runs) != len(wantR) || len(y.paras) != len(wantP) {
				c.Fail("mixed: runs or paragraphs lost", "", rep)
				return
			}
			for i := range wantR {
				if g, x := fmt.Sprint(fields16(y.runs[i].RunProperties)), fmt.Sprint(wantR[i]); g != x {
					c.Fail("mixed: re-opened formatting of a run", fmt.Sprintf("run %d: want %s got %s", i, x, g), rep)
				}
			}
			for i := range wantP {
				if g, x := fmt.Sprint(fields16(y.paras[i].Properties)), fmt.Sprint(wantP[i]); g != x {
					c.Fail("mixed: re-opened formatting of a paragraph", fmt.Sprintf("paragraph %d: want %s got %s", i, x, g), rep)
				}
			}
		})
	})
}
