package main

import (
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"reflect"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	docx "github.com/fumiama/go-docx"

	. "verif/harness/core"
)

func init() { checks["C14"] = check{"model_checking", runC14} }

// paras lists every paragraph that can be reached through the public fields.
func paras(items []interface{}) (ps []*docx.Paragraph, ts []*docx.Table) {
	var walk func(x interface{})
	shape := func(s *docx.WordprocessingShape) {
		if s != nil && s.TextBox != nil && s.TextBox.Content != nil {
			for i := range s.TextBox.Content.Paragraphs {
				walk(&s.TextBox.Content.Paragraphs[i])
			}
		}
	}
	depth := 0
	walk = func(x interface{}) {
		if depth > 50 {
			return
		}
		depth++
		defer func() { depth-- }()
		switch x := x.(type) {
		case *docx.Paragraph:
			if x == nil {
				return
			}
			ps = append(ps, x)
			for _, c := range x.Children {
				walk(c)
			}
		case *docx.Hyperlink:
			if x != nil {
				walk(&x.Run)
			}
		case *docx.Run:
			if x == nil {
				return
			}
			for _, c := range x.Children {
				walk(c)
			}
		case *docx.Drawing:
			if x == nil {
				return
			}
			if x.Inline != nil && x.Inline.Graphic != nil && x.Inline.Graphic.GraphicData != nil {
				shape(x.Inline.Graphic.GraphicData.Shape)
			}
			if x.Anchor != nil && x.Anchor.Graphic != nil && x.Anchor.Graphic.GraphicData != nil {
				shape(x.Anchor.Graphic.GraphicData.Shape)
			}
		case *docx.Table:
			if x == nil {
				return
			}
			ts = append(ts, x)
			for _, r := range x.TableRows {
				if r == nil {
					continue
				}
				for _, c := range r.TableCells {
					if c == nil {
						continue
					}
					for _, p := range c.Paragraphs {
						walk(p)
					}
				}
			}
		}
	}
	for _, x := range items {
		walk(x)
	}
	return
}

// enc writes the main document only.
func enc(d *docx.Docx) { xml.NewEncoder(io.Discard).Encode(&d.Document) }

var rx14 = regexp.MustCompile("t")

// consume14 runs every consumer on a document; each is guarded on its own.
func consume14(c *Ctx, what string, light bool, mk func() *docx.Docx, rep string) {
	step := func(name string, f func()) {
		defer func() {
			if r := recover(); r != nil {
				c.Fail("panic in "+name+" @ "+PanicSite(debug.Stack()), fmt.Sprintf("%v\n%s", r, what), rep)
			}
		}()
		c.Trans(1)
		f()
	}
	d := mk()
	if d == nil {
		return
	}
	step("String", func() {
		ps, ts := paras(d.Document.Body.Items)
		for _, p := range ps {
			_ = p.String()
			for _, x := range p.Children {
				var r *docx.Run
				switch x := x.(type) {
				case *docx.Run:
					r = x
				case *docx.Hyperlink:
					if x != nil {
						r = &x.Run
					}
				}
				if r == nil {
					continue
				}
				for _, y := range r.Children {
					if g, ok := y.(*docx.Drawing); ok && g != nil {
						if g.Inline != nil {
							_ = g.Inline.String()
						}
						if g.Anchor != nil {
							_ = g.Anchor.String()
						}
					}
				}
			}
		}
		for _, t := range ts {
			_ = t.String()
		}
	})
	step("lookup", func() {
		for _, id := range []string{"rId4", "rId5", "rId11", "rId99", "", "x"} {
			if t, err := d.ReferTarget(id); err == nil {
				d.ReferID(t)
			}
		}
		for _, m := range []string{"image1.png", "pic b.jpeg", "", "x"} {
			if m := d.Media(m); m != nil {
				_ = m.String()
			}
		}
		d.RangeRelationships(func(r *docx.Relationship) error { return nil })
		d.RangeRelationships(func(r *docx.Relationship) error { return errors.New("x") })
	})
	step("WriteTo", func() {
		b, err := Save(d)
		if err != nil {
			return
		}
		if e, err := tryParse(b); err == nil {
			_, _ = Save(e)
		}
	})
	step("AppendFile", func() {
		a := mini(docx.New())
		a.AddParagraph().AddText("x")
		a.AppendFile(d)
		enc(a)
	})
	step("AppendFile onto it", func() {
		a := mini(docx.New())
		p := a.AddParagraph()
		p.AddText("x")
		p.AddInlineDrawing(Img("png", 1, 1, 3))
		d := mk()
		d.AppendFile(a)
		d.AppendFile(d)
		enc(d)
	})
	step("SplitByParagraph", func() {
		for _, x := range d.SplitByParagraph(docx.SplitDocxByPlainTextRegex(rx14)) {
			enc(x)
		}
		for _, x := range d.SplitByParagraph(func(*docx.Paragraph) bool { return true }) {
			enc(x)
		}
		for range d.SplitByParagraph(func(*docx.Paragraph) bool { return false }) {
		}
	})
	step("LoadBodyItems", func() {
		enc(mini(docx.LoadBodyItems(d.Document.Body.Items, nil)))
	})
	step("MergeText", func() {
		ps, _ := paras(d.Document.Body.Items)
		for _, p := range ps {
			for _, r := range []docx.RunMergeRule{docx.MergeAllRuns, docx.MergeSamePropRuns, docx.MergeSamePropRunsOf("Bold", "Fonts", "Nope"), docx.MergeSamePropRunsOf()} {
				n := p.MergeText(r)
				_ = n.String()
			}
		}
	})
	d = mk()
	step("formatting", func() {
		ps, ts := paras(d.Document.Body.Items)
		run := func(r *docx.Run) {
			r.Color("1").Size("2").SizeCs("3").Shade("a", "b", "c").Spacing(4).Bold().Italic().Underline("d").Highlight("e").Strike(true).Font("f", "g", "h", "i").AddTab()
			for _, y := range r.Children {
				if g, ok := y.(*docx.Drawing); ok && g != nil {
					if g.Inline != nil {
						g.Inline.Size(5, 6)
					}
					if g.Anchor != nil {
						g.Anchor.Size(7, 8)
					}
				}
			}
		}
		for _, p := range ps {
			for _, x := range p.Children {
				switch x := x.(type) {
				case *docx.Run:
					if x != nil {
						run(x)
					}
				case *docx.Hyperlink:
					if x != nil {
						run(&x.Run)
					}
				}
			}
			p.Justification("a").Style("b").NumPr("1", "2").NumFont("c", "d", "e", "f").NumSize("3")
			p.AddText("a\tb\nc")
			p.AddTab()
			p.AddPageBreaks()
		}
		for _, t := range ts {
			t.Justification("end")
			for _, r := range t.TableRows {
				if r == nil {
					continue
				}
				r.Justification("center")
				for _, x := range r.TableCells {
					if x != nil {
						x.Shade("a", "b", "c").AddParagraph().AddText("d")
					}
				}
			}
		}
		d.AddParagraph().AddLink("l", "http://l/")
		d.AddTable(1, 1, 0, nil)
		d.WithA4Page()
	})
	step("saving what was formatted", func() { enc(d) })
	if light {
		c.Trace()
		return
	}
	seqs := [][]string{{"Shape", "Group", "Canvas", "NilPicture"}, {"ShapeAndCanvasAndGroup", "ShapeAndCanvas"}}
	if c.Thorough() {
		seqs = [][]string{{"Canvas"}, {"Shape"}, {"Group"}, {"ShapeAndCanvas"}, {"ShapeAndCanvasAndGroup"}, {"NilPicture"}}
	}
	for i, seq := range seqs {
		d := mk()
		step("Drop", func() {
			ps, _ := paras(d.Document.Body.Items)
			for _, n := range seq {
				for _, p := range ps {
					dropOf(p, n)
				}
			}
			enc(d)
		})
		if i == 0 || c.Thorough() {
			d := mk()
			step("DropDrawingOf", func() {
				for _, n := range seq {
					d.Document.Body.DropDrawingOf(n)
				}
			})
		}
	}
	for i, names := range [][]string{{"*docx.Paragraph", "*docx.Run", "*docx.Drawing"}, {"*docx.Table", "*docx.Hyperlink", "*docx.Text"}, {}} {
		if i > 0 && !c.Thorough() {
			break
		}
		d := mk()
		step("KeepElements", func() {
			ps, _ := paras(d.Document.Body.Items)
			for _, p := range ps {
				for _, x := range p.Children {
					if r, ok := x.(*docx.Run); ok && r != nil {
						r.KeepElements(names...)
					}
				}
				p.KeepElements(names...)
			}
			d.Document.Body.KeepElements(names...)
			enc(d)
		})
	}
	c.Trace()
}

// docText14 wraps body XML text.
func docText14(inner string) string {
	s := DocXML(E("w:body", nil, E("w:MARK", nil)))
	return strings.Replace(strings.Replace(s, "<w:MARK/>", inner, 1), "<w:MARK></w:MARK>", inner, 1)
}

// hostile14 are attribute and text values.
var hostile14 = []string{"", " ", "x", "-", "+", ".", "-1", "0", "99999999999999999999999", "-99999999999999999999999", "1e999", "NaN", "true", "１", "7.", ".7", "7x", "\u2028", "&#0;"}

// zeroable lists every place of a value that can be made empty, and how.
func zeroable(v reflect.Value) (out []func()) {
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			walk(v.Elem())
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath != "" {
					continue
				}
				f := v.Field(i)
				if f.CanSet() && !f.IsZero() {
					switch f.Kind() {
					case reflect.Ptr, reflect.Interface, reflect.Slice, reflect.Map, reflect.String, reflect.Int, reflect.Int64:
						out = append(out, func() { f.Set(reflect.Zero(f.Type())) })
					}
				}
				walk(f)
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		}
	}
	walk(v)
	return
}

func runC14(c *Ctx) {
	c.Rule = "every vocabulary element in every context x every hostile value of every attribute, every omission of one or two parts of full documents (in the XML and in the public structures), every relationship target class, deep nesting; each followed by every consumer"
	w := c.NewWatch(100 * time.Second)
	type job struct {
		name  string
		pkg   func() []byte
		xml   string
		light bool // the structure is an ordinary one
	}
	run := func(jobs []job) {
		Par(len(jobs), func(i int) {
			if c.Failing() {
				return
			}
			j := jobs[i]
			w.Do(j.name, func() string { return j.name + " :: " + j.xml }, func() {
				b := j.pkg()
				d, err := tryParse(b)
				c.Trans(1)
				c.State(j.xml + j.name)
				if err != nil {
					c.AddExtra("documents refused with an error", 1)
					return
				}
				first := d
				consume14(c, j.name, j.light, func() *docx.Docx {
					if first != nil {
						d := first
						first = nil
						return d
					}
					d, _ := tryParse(b)
					return d
				}, j.name+" :: "+j.xml)
			})
		})
	}
	doc := func(name, xml string) job {
		return job{name, func() []byte { return GrammarPackage(xml) }, xml, false}
	}
	var jobs []job
	// placements
	ctxs := map[string][]string{}
	for _, e := range Edges() {
		ctxs[e.Parent] = e.Path
		if _, ok := ctxs[e.Child]; !ok {
			ctxs[e.Child] = append(append([]string{}, e.Path...), e.Child)
		}
	}
	var keys, els []string
	for k := range ctxs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	par := map[string]string{}
	for _, e := range Edges() {
		els = append(els, e.Child)
		par[e.Child] = e.Parent
	}
	sort.Strings(els)
	uniq := els[:0]
	for i, e := range els {
		if i == 0 || e != els[i-1] {
			uniq = append(uniq, e)
		}
	}
	els = append(uniq, "w:document", "w:body", "mc:AlternateContent", "mc:Choice", "mc:Fallback", "w:pict", "w:sdt", "w:unknown")
	par["w:body"] = ""
	bare := func(e string) *Node {
		n := &Node{Name: e}
		if e == "mc:Choice" {
			n.Set("Requires", "wps")
		}
		return n
	}
	for _, k := range keys {
		for _, e := range els {
			jobs = append(jobs, doc("empty "+e+" in "+k, DocXML(Wrap(ctxs[k], bare(e)))))
			if p, ok := par[e]; ok && Lookup(e, p) != nil {
				if e != "w:body" {
					jobs = append(jobs, doc("full "+e+" in "+k, DocXML(Wrap(ctxs[k], Full(e, p, c.Pick(1, 3))))))
				}
				if c.Thorough() {
					jobs = append(jobs, doc("twice "+e+" in "+k, DocXML(Wrap(ctxs[k], Full(e, p, 1), bare(e), Full(e, p, 2)))))
				}
			}
		}
		// the parent without any attribute, with text, repeated
		strip := Wrap(ctxs[k])
		strip.Walk(func(n *Node) { n.Attrs = nil })
		jobs = append(jobs, doc("no attributes down to "+k, DocXML(strip)))
		jobs = append(jobs, doc("text in "+k, DocXML(Wrap(ctxs[k], T("text")))))
		for _, n := range []string{"mc:AlternateContent"} {
			for _, e := range Lookup(k, par[k]).KidNames() {
				jobs = append(jobs, doc("choice with "+e+" in "+k, DocXML(Wrap(ctxs[k], E(n, nil, E("mc:Choice", A("Requires", "wps"), Full(e, k, 1)), E("mc:Fallback", nil, Full(e, k, 1)))))))
				jobs = append(jobs, doc("two choices with "+e+" in "+k, DocXML(Wrap(ctxs[k], E(n, nil, E("mc:Choice", A("Requires", "wps"), Full(e, k, 1)), E("mc:Choice", A("Requires", "wps"), Full(e, k, 1)))))))
				jobs = append(jobs, doc("choice without Requires with "+e+" in "+k, DocXML(Wrap(ctxs[k], E(n, nil, E("mc:Choice", nil, Full(e, k, 1)))))))
			}
		}
	}
	c.AddExtra("placements", len(jobs))
	// hostile attribute values: every attribute of every element
	n0 := len(jobs)
	for _, e := range Edges() {
		sp := Lookup(e.Child, e.Parent)
		for _, a := range sp.Attrs {
			for _, v := range hostile14 {
				x := Full(e.Child, e.Parent, 1)
				x.Set(a.Name, v)
				jobs = append(jobs, doc(fmt.Sprintf("%s/%s@%s=%q", e.Parent, e.Child, a.Name, v), DocXML(Wrap(e.Path, x))))
			}
			// the local name in another or no namespace
			x := Bare(e.Child, e.Parent)
			x.Del(a.Name)
			local := a.Name[strings.Index(a.Name, ":")+1:]
			for _, pre := range []string{"", "w:", "a:", "r:"} {
				y := x.Clone()
				y.Set(pre+local, "q")
				jobs = append(jobs, doc(fmt.Sprintf("%s/%s@%s%s", e.Parent, e.Child, pre, local), DocXML(Wrap(e.Path, y))))
			}
		}
		if sp.Text != "" {
			for _, v := range hostile14 {
				x := Full(e.Child, e.Parent, 1)
				x.Kids = []*Node{T(v)}
				jobs = append(jobs, doc(fmt.Sprintf("%s/%s text %q", e.Parent, e.Child, v), DocXML(Wrap(e.Path, x))))
			}
		}
		// every attribute any element has
		if c.Thorough() {
			for _, key := range GrammarKeys {
				for _, a := range Grammar[key].Attrs {
					x := Bare(e.Child, e.Parent)
					x.Set(a.Name, "-")
					jobs = append(jobs, doc(fmt.Sprintf("%s/%s@%s (foreign)", e.Parent, e.Child, a.Name), DocXML(Wrap(e.Path, x))))
				}
			}
		}
	}
	c.AddExtra("hostile attribute values", len(jobs)-n0)
	// any two features together, many copies, and the words and numbers real documents use
	pairs := func(rich bool, keep func(a, b Feature) bool) {
		for _, d := range pairDocs(rich, keep) {
			jobs = append(jobs, doc(d.name, DocXML(d.body)))
		}
	}
	n1 := len(jobs)
	if c.Thorough() {
		pairs(true, nil)
	} else {
		k := 0
		pairs(false, func(a, b Feature) bool { k++; return k%3 == 0 || !a.Below("w:drawing") && !b.Below("w:drawing") })
	}
	for _, d := range manyDocs([]int{3, 17, 65, 130}, c.Pick(32, 8)) {
		jobs = append(jobs, doc(d.name, DocXML(d.body)))
	}
	c.AddExtra("two features, many copies, words and numbers", len(jobs)-n1)
	for i := n0; i < len(jobs); i++ {
		jobs[i].light = !c.Thorough()
	}
	run(jobs)
	jobs = nil
	// omissions in full drawings, tables, paragraphs
	for _, f := range [][]string{{"wp:inline", "w:drawing", "4", "pic:pic"}, {"wp:anchor", "w:drawing", "4", "wps:wsp"}, {"wp:inline", "w:drawing", "4", "wpc:wpc"}, {"wp:inline", "w:drawing", "6", "pic:pic"}, {"wp:anchor", "w:drawing", "6", "pic:pic"}, {"wp:inline", "w:drawing", "5", "wps:wsp"}, {"wp:anchor", "w:drawing", "5", "wpc:wpc"},
		{"wp:inline", "w:drawing", "5", "wpg:wgp"}, {"w:tbl", "w:body", "4", ""}, {"w:p", "w:body", "3", ""}} {
		dp := int(f[2][0] - '0')
		full := Full(f[0], f[1], dp)
		if f[3] != "" {
			gd := full.Path("a:graphic", "a:graphicData")
			gd.Kids = []*Node{Full(f[3], "a:graphicData", dp-2)}
		}
		if f[1] == "w:drawing" {
			full = E("w:p", nil, E("w:r", nil, E("w:drawing", nil, full)), E("w:hyperlink", A("r:id", "rId4"), E("w:r", nil, E("w:drawing", nil, full))))
			full.Kids[1].Kids[0].Kids[0].Kids = nil
			full.Kids[1].Kids[0].Kids = nil
		}
		var total int
		full.Walk(func(*Node) { total++ })
		rm := func(set map[int]bool) *Node {
			n := -1
			var cp func(x *Node) *Node
			cp = func(x *Node) *Node {
				n++
				me := n
				y := &Node{Name: x.Name, Text: x.Text, Attrs: x.Attrs}
				for _, k := range x.Kids {
					if z := cp(k); z != nil {
						y.Kids = append(y.Kids, z)
					}
				}
				if set[me] {
					return nil
				}
				return y
			}
			return cp(full)
		}
		for i := 1; i < total; i++ {
			for j := i; j < total; j++ {
				if !c.Thorough() && total > 90 && i != j { // pairs of the larger ones: thorough only
					continue
				}
				x := rm(map[int]bool{i: true, j: true})
				jobs = append(jobs, doc(fmt.Sprintf("%s %s without nodes %d and %d", f[0], f[3], i, j), DocXML(E("w:body", nil, x))))
			}
		}
	}
	c.AddExtra("omissions", len(jobs))
	run(jobs)
	jobs = nil
	// relationships
	targets := []string{"", "/", "//", "media/", "media/none.png", "media/image1.png", "/word/media/image1.png", "../media/image1.png", "media/../media/image1.png", "../../../../etc/passwd", "http://x/", "MEDIA/IMAGE1.PNG", "media/image1.png#x", "m", "word/media/image1.png", "./media/image1.png", "%6dedia/image1.png", strings.Repeat("x", 5000)}
	body := E("w:body", nil,
		E("w:p", nil, E("w:r", nil, E("w:t", nil, T("t"))), E("w:hyperlink", A("r:id", "rId5"), E("w:r", nil, E("w:t", nil, T("l")))), E("w:hyperlink", A("r:id", "rId4"), E("w:r", nil, E("w:t", nil, T("l"))))),
		E("w:p", nil, E("w:r", nil, E("w:drawing", nil, Full("wp:inline", "w:drawing", 6)))),
		E("w:p", nil, E("w:r", nil, E("w:drawing", nil, Full("wp:anchor", "w:drawing", 6)))),
		E("w:p", nil, E("w:hyperlink", A("r:id", ""), E("w:r", nil)), E("w:hyperlink", A("r:id", "x"), E("w:r", nil)), E("w:hyperlink", nil)))
	body.Kids[1].Walk(func(n *Node) {
		if n.Name == "a:graphicData" {
			n.Kids = []*Node{Full("pic:pic", "a:graphicData", 4)}
		}
	})
	body.Kids[2].Walk(func(n *Node) {
		if n.Name == "a:graphicData" {
			n.Kids = []*Node{Full("pic:pic", "a:graphicData", 4)}
		}
	})
	for _, tg := range targets {
		for _, ty := range []string{RelImage, RelLink, "", "urn:x", RelBase + "styles"} {
			for _, mode := range []string{"", "External", "Internal", "x"} {
				for _, ids := range [][]string{{"rId5"}, {"rId5", "rId5"}, {"rId4", "rId5"}, {"rId0005", "rId5"}, {"rId1"}, {}} {
					var rs []Rel
					for _, id := range ids {
						rs = append(rs, Rel{id, ty, tg, mode})
					}
					rx := RelsXML(rs...)
					name := fmt.Sprintf("relationships %v", rs)
					jobs = append(jobs, job{name, func() []byte { return MiniPackage(DocXML(body), rx, GrammarMedia()...) }, "", false})
				}
			}
		}
	}
	// relationship parts of odd forms
	for _, rx := range []string{"", "<Relationships/>", `<x/>`, `<Relationships xmlns="` + NREL + `"><Relationship/></Relationships>`, `<Relationships xmlns="` + NREL + `"><Relationship Id="rId5"/></Relationships>`,
		`<Relationships xmlns="` + NREL + `"><x><Relationship Id="rId5" Target="a"/></x>t</Relationships>`} {
		rx := rx
		jobs = append(jobs, job{"relationships part " + rx, func() []byte { return MiniPackage(DocXML(body), rx, GrammarMedia()...) }, rx, false})
	}
	// media and part names
	for _, n := range []string{"word/media/", "word/media/a/b.png", "word/media/noext", "word/media/.png", "word/media/image100001.png", "word/media/ï.png", "word/media/image.PNG", "word/document.xml/x", "/x", "", "../x", "a\\b", "word/media/..", "[Content_Types].xml/x", "word/"} {
		for _, data := range []string{"", "x"} {
			n, data := n, data
			jobs = append(jobs, job{fmt.Sprintf("part %q (%d bytes)", n, len(data)), func() []byte {
				return MiniPackage(DocXML(body), RelsXML(GrammarRels()...), append(GrammarMedia(), ZipEntry{n, []byte(data)})...)
			}, n, false})
		}
	}
	for _, ct := range []string{"", "x", "<Types/>", `<Types xmlns="` + NCT + `"/>`, `<Types xmlns="` + NCT + `"><Default/></Types>`, `<Types xmlns="` + NCT + `"><x/></Types>`, `<t:Types xmlns:t="` + NCT + `"></t:Types>`, `<Types xmlns="` + NCT + `">`} {
		ct := ct
		jobs = append(jobs, job{"content types " + ct, func() []byte {
			return MiniPackage(DocXML(body), RelsXML(GrammarRels()...), append(GrammarMedia(), ZipEntry{"[Content_Types].xml", []byte(ct)})...)
		}, ct, false})
	}
	// main documents of odd forms
	hdr := DocXML(E("w:body", nil))
	open := hdr[:strings.Index(hdr, "<w:body")]
	for _, x := range []string{"", " ", "<", "<x/>", "x", open + "</w:document>", open + "<w:body/><w:body/></w:document>", open + "<w:body><w:p/></w:body><w:body><w:p/></w:body></w:document>",
		open + "<w:p/><w:body/>t</w:document>", "<document><body><p/></body></document>", open + "<w:background/><w:body/></w:document>", open + "<w:body><w:body><w:p/></w:body></w:body></w:document>",
		open + "<!-- --><w:body><![CDATA[x]]></w:body></w:document>", open + open[strings.Index(open, "<w:document"):] + "<w:body/></w:document></w:document>", "\xef\xbb\xbf" + hdr, `<?xml version="1.0" encoding="UTF-16"?>` + hdr[strings.Index(hdr, "<w:doc"):],
		`<?xml version="1.1"?><a/>`, `<!DOCTYPE a [<!ENTITY x "y">]>` + hdr[strings.Index(hdr, "<w:doc"):], strings.Replace(hdr, "<w:body", "<w:body>&x;</w:body><w:body", 1), "\x00", hdr + hdr, hdr + "trailing <"} {
		jobs = append(jobs, doc("main document "+x, x))
	}
	// the same body twice in the document, unusual lengths
	for _, n := range []int{0, 1, 2, 63, 64, 65, 1000} {
		jobs = append(jobs, doc(fmt.Sprintf("%d paragraphs", n), docText14(strings.Repeat("<w:p><w:r><w:t>t</w:t></w:r></w:p>", n))))
		jobs = append(jobs, doc(fmt.Sprintf("%d tabs", n), docText14("<w:p><w:pPr><w:tabs>"+strings.Repeat("<w:tab/>", n)+"</w:tabs></w:pPr></w:p>")))
		jobs = append(jobs, doc(fmt.Sprintf("%d rows", n), docText14("<w:tbl>"+strings.Repeat("<w:tr/><w:tr><w:tc/></w:tr>", n)+"</w:tbl>")))
	}
	c.AddExtra("packages of odd forms", len(jobs))
	run(jobs)
	// deep nesting
	jobs = nil
	depths := []int{2, 10, 100, 1000, 9000, 50000}
	nest := [][2]string{
		{"<w:p>", "</w:p>"}, {"<w:p><w:r>", "</w:r></w:p>"}, {"<w:x>", "</w:x>"}, {"<w:tbl><w:tr><w:tc>", "</w:tc></w:tr></w:tbl>"},
		{"<w:p><w:r><mc:AlternateContent><mc:Choice Requires=\"wps\"><w:drawing><wp:inline><a:graphic><a:graphicData><wps:wsp><wps:txbx><w:txbxContent>", "</w:txbxContent></wps:txbx></wps:wsp></a:graphicData></a:graphic></wp:inline></w:drawing></mc:Choice></mc:AlternateContent></w:r></w:p>"},
	}
	for _, n := range nest {
		for _, k := range depths {
			if k > 1000 && len(n[0]) > 30 {
				k = 1000
			}
			jobs = append(jobs, doc(fmt.Sprintf("nested %d times %s", k, n[0]), docText14(strings.Repeat(n[0], k)+strings.Repeat(n[1], k))))
		}
	}
	inner := [][3]string{
		{"<w:p><w:r><w:drawing><wp:inline><a:graphic><a:graphicData><wpg:wgp>", "<wpg:grpSp>", "</wpg:grpSp>"},
		{"<w:p><w:r>", "<mc:AlternateContent><mc:Choice Requires=\"wps\">", "</mc:Choice></mc:AlternateContent>"},
		{"<w:p><w:r>", "<mc:AlternateContent>", "</mc:AlternateContent>"},
		{"<w:p>", "<w:hyperlink>", "</w:hyperlink>"}, {"<w:p>", "<w:r>", "</w:r>"},
		{"<w:p><w:pPr>", "<w:pPr>", "</w:pPr>"}, {"<w:p><w:r>", "<w:rPr>", "</w:rPr>"},
	}
	for _, n := range inner {
		for _, k := range depths {
			post := ""
			for _, t := range strings.Split(strings.Trim(n[0], "<>"), "><") {
				post = "</" + t + ">" + post
			}
			jobs = append(jobs, doc(fmt.Sprintf("nested %d times %s in %s", k, n[1], n[0]), docText14(n[0]+strings.Repeat(n[1], k)+strings.Repeat(n[2], k)+post)))
		}
	}
	c.AddExtra("deep nestings", len(jobs))
	run(jobs)
	// public structures with parts taken out
	type src struct {
		name string
		body *Node
	}
	var srcs []src
	for _, f := range []string{"pic:pic", "wps:wsp", "wpc:wpc", "wpg:wgp"} {
		for _, fr := range []string{"wp:inline", "wp:anchor"} {
			x := Full(fr, "w:drawing", 3)
			x.Path("a:graphic", "a:graphicData").Kids = []*Node{Full(f, "a:graphicData", c.Pick(4, 6))}
			srcs = append(srcs, src{fr + " " + f, E("w:body", nil, E("w:p", nil, E("w:r", nil, E("w:drawing", nil, x))))})
		}
	}
	for _, f := range []string{"wpc:wpc", "wpg:wgp"} {
		x := Bare("wp:inline", "w:drawing")
		x.Kids = []*Node{E("a:graphic", nil, E("a:graphicData", nil, Full(f, "a:graphicData", 2)))}
		srcs = append(srcs, src{"small " + f, E("w:body", nil, E("w:p", nil, E("w:r", nil, E("w:drawing", nil, x))))})
	}
	srcs = append(srcs, src{"small table", E("w:body", nil, Full("w:tbl", "w:body", 3))}, src{"small paragraph", E("w:body", nil, Full("w:p", "w:body", 2))})
	srcs = append(srcs, src{"table", E("w:body", nil, Full("w:tbl", "w:body", 5))}, src{"paragraph", E("w:body", nil, Full("w:p", "w:body", 3), Full("w:sectPr", "w:body", 2))})
	for _, s := range srcs {
		pkg := GrammarPackage(DocXML(s.body))
		probe, err := tryParse(pkg)
		if err != nil {
			c.Fail("parse", err.Error(), s.name)
			continue
		}
		n := len(zeroable(reflect.ValueOf(&probe.Document.Body)))
		type pair struct{ i, j int }
		var ps []pair
		for i := 0; i < n; i++ {
			for j := i; j < n; j++ {
				if i == j || c.Thorough() || n < 100 { // pairs of the larger ones: thorough only
					ps = append(ps, pair{i, j})
				}
			}
		}
		c.AddExtra("structures with parts taken out", len(ps))
		Par(len(ps), func(k int) {
			if c.Failing() {
				return
			}
			rep := fmt.Sprintf("%s: places %d and %d emptied", s.name, ps[k].i, ps[k].j)
			w.Do("structure", func() string { return rep }, func() {
				c.State(rep)
				consume14(c, rep, false, func() *docx.Docx {
					d, _ := tryParse(pkg)
					z := zeroable(reflect.ValueOf(&d.Document.Body))
					z[ps[k].i]()
					if ps[k].j != ps[k].i {
						z[ps[k].j]()
					}
					return d
				}, rep)
			})
		})
	}
	// structures assembled by hand: every kind of child, empty and nested, in every container
	leaf := []func() interface{}{
		func() interface{} { return &docx.Text{} }, func() interface{} { return &docx.Tab{} }, func() interface{} { return &docx.BarterRabbet{} }, func() interface{} { return &docx.Drawing{} },
		func() interface{} { return &docx.Drawing{Inline: &docx.WPInline{}} }, func() interface{} { return &docx.Drawing{Anchor: &docx.WPAnchor{}} },
		func() interface{} { return &docx.Run{} }, func() interface{} { return &docx.Hyperlink{} }, func() interface{} { return &docx.Hyperlink{ID: "rId1", Run: docx.Run{InstrText: "x"}} }, func() interface{} { return &docx.RunProperties{} },
		func() interface{} { return &docx.Paragraph{} }, func() interface{} { return &docx.Table{} }, func() interface{} { return &docx.Table{TableRows: []*docx.WTableRow{{}}} },
		func() interface{} {
			return &docx.Table{TableRows: []*docx.WTableRow{{}, {TableCells: []*docx.WTableCell{{}}}}}
		},
		func() interface{} {
			return &docx.Table{TableRows: []*docx.WTableRow{{TableCells: []*docx.WTableCell{{Paragraphs: []*docx.Paragraph{{}}}}}}}
		},
		func() interface{} { return &docx.SectPr{} }, func() interface{} { return &docx.ParagraphProperties{} }, func() interface{} { return "string" }, func() interface{} { return 7 },
	}
	seqs10(len(leaf), 2, func(seq []int) {
		for _, place := range []string{"body", "paragraph", "run", "link"} {
			rep := fmt.Sprintf("%v in %s", seq, place)
			w.Do("assembled", func() string { return rep }, func() {
				c.State(rep)
				consume14(c, rep, false, func() *docx.Docx {
					d := mini(docx.New())
					var xs []interface{}
					for _, k := range seq {
						xs = append(xs, leaf[k]())
					}
					switch place {
					case "body":
						d.Document.Body.Items = xs
					case "paragraph":
						d.Document.Body.Items = []interface{}{&docx.Paragraph{Children: xs}}
					case "run":
						d.Document.Body.Items = []interface{}{&docx.Paragraph{Children: []interface{}{&docx.Run{Children: xs}}}}
					case "link":
						d.Document.Body.Items = []interface{}{&docx.Paragraph{Children: []interface{}{&docx.Hyperlink{Run: docx.Run{Children: xs}}}}}
					}
					return d
				}, rep)
			})
		}
	})
	c.Sample("placement", "full wps:wsp in w:tc")
	c.Assume("nesting is explored up to 50000 levels", "a nil pointer or a foreign type put in place of an element may be refused by saving, but must not crash")
}
