package main

import (
	"encoding/xml"
	"fmt"
	"reflect"
	"sort"
	"strings"

	docx "github.com/fumiama/go-docx"

	. "verif/harness/core"
)

// holder is one container of a document with the objects it holds.
type holder struct {
	kind string // body, para, run
	at   string
	get  func() []interface{}
	keep func(names ...string)
	para *docx.Paragraph
	cell bool // below a body paragraph or a table cell (not in a link or text box)
}

// leafShot is the content of the parts of an element that are not listed by a holder.
func leafShot(x interface{}) string {
	switch o := x.(type) {
	case *docx.Paragraph:
		b, err := xml.Marshal(o.Properties)
		return fmt.Sprintf("p %s %v", b, err)
	case *docx.Run:
		b, err := xml.Marshal(o.RunProperties)
		return fmt.Sprintf("r %s %v %q %q", b, err, o.InstrText, o.Space)
	case *docx.Hyperlink:
		b, err := xml.Marshal(o)
		return fmt.Sprintf("link %s %v", b, err)
	case *docx.Table:
		b, err := xml.Marshal(o.TableProperties)
		b2, err2 := xml.Marshal(o.TableGrid)
		s := fmt.Sprintf("tbl %s %v %s %v", b, err, b2, err2)
		for _, tr := range o.TableRows {
			b, err = xml.Marshal(tr.TableRowProperties)
			s += fmt.Sprintf(" tr %s %v", b, err)
			for _, tc := range tr.TableCells {
				b, err = xml.Marshal(tc.TableCellProperties)
				s += fmt.Sprintf(" tc %s %v %d", b, err, len(tc.Paragraphs))
			}
		}
		return s
	}
	b, err := xml.Marshal(x)
	return fmt.Sprintf("%T %s %v", x, b, err)
}

// holders lists every container of the document in document order.
func holders(d *docx.Docx) (hs []holder) {
	var addRun func(at string, r *docx.Run, cell bool)
	var addPara func(at string, p *docx.Paragraph, cell bool)
	addRun = func(at string, r *docx.Run, cell bool) {
		hs = append(hs, holder{kind: "run", at: at, get: func() []interface{} { return r.Children }, keep: r.KeepElements, cell: cell})
		for i, x := range r.Children {
			dr, ok := x.(*docx.Drawing)
			if !ok {
				continue
			}
			for _, g := range []func() *docx.AGraphic{
				func() *docx.AGraphic {
					if dr.Inline == nil {
						return nil
					}
					return dr.Inline.Graphic
				},
				func() *docx.AGraphic {
					if dr.Anchor == nil {
						return nil
					}
					return dr.Anchor.Graphic
				}} {
				gr := g()
				if gr == nil || gr.GraphicData == nil || gr.GraphicData.Shape == nil || gr.GraphicData.Shape.TextBox == nil || gr.GraphicData.Shape.TextBox.Content == nil {
					continue
				}
				ps := gr.GraphicData.Shape.TextBox.Content.Paragraphs
				for j := range ps {
					addPara(fmt.Sprintf("%s/drawing %d/text box %d", at, i, j), &ps[j], false)
				}
			}
		}
	}
	addPara = func(at string, p *docx.Paragraph, cell bool) {
		hs = append(hs, holder{kind: "para", at: at, get: func() []interface{} { return p.Children }, keep: p.KeepElements, para: p, cell: cell})
		for i, x := range p.Children {
			switch o := x.(type) {
			case *docx.Run:
				addRun(fmt.Sprintf("%s/run %d", at, i), o, cell)
			case *docx.Hyperlink:
				addRun(fmt.Sprintf("%s/link %d", at, i), &o.Run, false)
			}
		}
	}
	b := &d.Document.Body
	hs = append(hs, holder{kind: "body", at: "body", get: func() []interface{} { return b.Items }, keep: b.KeepElements})
	for i, it := range b.Items {
		switch o := it.(type) {
		case *docx.Paragraph:
			addPara(fmt.Sprintf("para %d", i), o, true)
		case *docx.Table:
			for j, tr := range o.TableRows {
				for k, tc := range tr.TableCells {
					for l, p := range tc.Paragraphs {
						addPara(fmt.Sprintf("table %d/%d/%d/para %d", i, j, k, l), p, true)
					}
				}
			}
		}
	}
	return
}

// graphicOf classifies the drawing as the filters do: the letters of its frames' contents.
func graphicOf(d *docx.Drawing) (s string) {
	for _, fr := range []struct {
		ok bool
		g  func() *docx.AGraphic
	}{{d.Inline != nil, func() *docx.AGraphic { return d.Inline.Graphic }}, {d.Anchor != nil, func() *docx.AGraphic { return d.Anchor.Graphic }}} {
		if !fr.ok {
			continue
		}
		g := fr.g()
		switch {
		case g == nil:
			s += "_"
		case g.GraphicData == nil:
			s += "-"
		default:
			n := len(s)
			if g.GraphicData.Pic != nil {
				s += "p"
			}
			if g.GraphicData.Shape != nil {
				s += "s"
			}
			if g.GraphicData.Canvas != nil {
				s += "c"
			}
			if g.GraphicData.Group != nil {
				s += "g"
			}
			if len(s) == n {
				s += "0"
			}
		}
	}
	if s == "" {
		s = "n"
	}
	return
}

// filter11 applies op to holder i of a fresh document and compares every container with the expectation.
func filter11(c *Ctx, mk func() *docx.Docx, opKind string, i int, names []string, rep string) bool {
	ok := true
	c.Guard("filter "+opKind, rep, func() {
		d := mk()
		hs := holders(d)
		h := hs[i]
		var want [][]interface{}
		var shots [][]string
		for j, x := range hs {
			kids := append([]interface{}(nil), x.get()...)
			hit := false
			dropHit := x.kind == "run" && x.cell && (h.kind == "body" || strings.HasPrefix(x.at, h.at+"/"))
			if opKind == "keep" {
				hit = j == i
			} else {
				hit = dropHit
			}
			var w []interface{}
			for _, k := range kids {
				if hit && opKind == "keep" && !hasName(names, reflect.TypeOf(k).String()) {
					continue
				}
				if dr, isD := k.(*docx.Drawing); hit && opKind == "drop" && isD && drops[names[0]] != "" && strings.ContainsAny(graphicOf(dr), drops[names[0]]) {
					continue
				}
				w = append(w, k)
			}
			var s []string
			for _, k := range w {
				s = append(s, leafShot(k))
			}
			want, shots = append(want, w), append(shots, s)
		}
		if opKind == "keep" {
			h.keep(names...)
		} else if h.kind == "body" {
			d.Document.Body.DropDrawingOf(names[0])
		} else {
			dropOf(h.para, names[0])
		}
		c.Trans(1)
		c.Trace()
		c.State(rep)
		for j, x := range hs {
			got := x.get()
			if !samePtrs(want[j], got) {
				ok = false
				c.Fail(opKind+" in "+h.kind+" on parsed content", fmt.Sprintf("%s: want %d elements got %d (or other order)", x.at, len(want[j]), len(got)), rep)
				return
			}
			for k, g := range got {
				// a link or drawing that holds a filtered container itself is compared through that container
				if l := leafShot(g); l != shots[j][k] && !holdsHit(g, h, opKind) {
					ok = false
					c.Fail(opKind+" in "+h.kind+" changes a kept element", fmt.Sprintf("%s child %d: %s", x.at, k, FirstDiff(shots[j][k], l)), rep)
					return
				}
			}
		}
	})
	return ok
}

// holdsHit: the element is (or holds) the container the call was made on.
func holdsHit(g interface{}, h holder, opKind string) bool {
	switch g.(type) {
	case *docx.Hyperlink, *docx.Drawing:
		return strings.Contains(h.at, "/link ") || strings.Contains(h.at, "/text box ")
	}
	return false
}

var keepNames11 = map[string][]string{
	"body": {"*docx.Paragraph", "*docx.Table", "*docx.SectPr"},
	"para": {"*docx.Hyperlink", "*docx.Run", "*docx.RunProperties"},
	"run":  {"*docx.Text", "*docx.Tab", "*docx.BarterRabbet", "*docx.Drawing"},
}

// rich11 runs every filter on every container of documents over the whole vocabulary.
func rich11(c *Ctx) {
	docs := append(vocabDocs(3), seqDocs(c.Pick(2, 3))...)
	Par(len(docs), func(n int) {
		if c.Failing() {
			return
		}
		pkg := GrammarPackage(DocXML(docs[n].body))
		mk := func() *docx.Docx { return mustParse(pkg) }
		hs := holders(mk())
		// documents hold each kind of container several times at most; identical ones are all taken
		for i, h := range hs {
			if h.kind == "run" && len(h.get()) == 0 || h.kind == "para" && len(h.get()) == 0 {
				continue
			}
			subsets(keepNames11[h.kind], func(names []string) {
				// every single kind, all kinds, none, and all but one
				if l, m := len(names), len(keepNames11[h.kind]); !c.Thorough() && l > 1 && l < m-1 {
					return
				}
				filter11(c, mk, "keep", i, names, fmt.Sprintf("%s: keep %q in %s", docs[n].name, names, h.at))
			})
			if h.kind == "body" || h.kind == "para" && h.cell {
				for name := range drops {
					filter11(c, mk, "drop", i, []string{name}, fmt.Sprintf("%s: drop %s in %s", docs[n].name, name, h.at))
				}
			}
		}
	})
	// drawings of any two features
	ps := append(pairDocs(false, func(a, b Feature) bool { return a.Below("w:drawing") || b.Below("w:drawing") }),
		pairDocs(true, func(a, b Feature) bool { return a.Below("w:drawing") && b.Below("w:drawing") })...)
	BulkDocs([]int{3, 17, 65}, func(name string, b *Node) { ps = append(ps, vdoc{name, b}) })
	Par(len(ps), func(n int) {
		if c.Failing() {
			return
		}
		pkg := GrammarPackage(DocXML(ps[n].body))
		mk := func() *docx.Docx { return mustParse(pkg) }
		hs := holders(mk())
		for i, h := range hs {
			if h.kind == "body" || h.kind == "para" && h.cell {
				for name := range drops {
					filter11(c, mk, "drop", i, []string{name}, fmt.Sprintf("%s: drop %s in %s", ps[n].name, name, h.at))
				}
			}
		}
	})
	// very many children of one container
	var big []vdoc
	BulkDocs([]int{300, 1030, 2100}[:c.Pick(2, 3)], func(name string, b *Node) {
		for _, in := range []string{" in w:body", " in w:p", " in w:r"} {
			if strings.HasSuffix(name, in) && !strings.Contains(name, "w:r in w:hyperlink") {
				big = append(big, vdoc{name, b})
			}
		}
	})
	Par(len(big), func(n int) {
		pkg := GrammarPackage(DocXML(big[n].body))
		mk := func() *docx.Docx { return mustParse(pkg) }
		for i, h := range holders(mk()) {
			if c.Failing() {
				return
			}
			if len(h.get()) < 200 && i > 0 {
				continue
			}
			kinds := map[string]bool{}
			for _, k := range h.get() {
				kinds[reflect.TypeOf(k).String()] = true
			}
			all := []string{}
			for k := range kinds {
				all = append(all, k)
				filter11(c, mk, "keep", i, []string{k}, fmt.Sprintf("%s: keep %s in %s", big[n].name, k, h.at))
			}
			sort.Strings(all)
			filter11(c, mk, "keep", i, all, fmt.Sprintf("%s: keep %q in %s", big[n].name, all, h.at))
			filter11(c, mk, "keep", i, []string{"none"}, fmt.Sprintf("%s: keep nothing in %s", big[n].name, h.at))
			if h.kind == "body" || h.kind == "para" && h.cell {
				for name := range drops {
					filter11(c, mk, "drop", i, []string{name}, fmt.Sprintf("%s: drop %s in %s", big[n].name, name, h.at))
				}
			}
		}
	})
}
