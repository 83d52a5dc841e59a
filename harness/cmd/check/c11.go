package main

import (
	"fmt"
	"strings"

	docx "github.com/fumiama/go-docx"

	. "verif/harness/core"
)

func init() { checks["C11"] = check{"model_checking", runC11} }

// drawSpec is one drawing: frame i/a (or none), content p picture, s shape, c canvas, g group, 0 data without content, - no data, _ no graphic.
type drawSpec struct{ frame, what byte }

func (s drawSpec) build() *docx.Drawing {
	d := &docx.Drawing{}
	if s.frame == 'n' {
		return d
	}
	var g *docx.AGraphic
	if s.what != '_' {
		g = &docx.AGraphic{}
		if s.what != '-' {
			g.GraphicData = &docx.AGraphicData{}
			switch s.what {
			case 'p':
				g.GraphicData.Pic = &docx.Picture{}
			case 's':
				g.GraphicData.Shape = &docx.WordprocessingShape{}
			case 'c':
				g.GraphicData.Canvas = &docx.WordprocessingCanvas{}
			case 'g':
				g.GraphicData.Group = &docx.WordprocessingGroup{}
			}
		}
	}
	if s.frame == 'i' {
		d.Inline = &docx.WPInline{Graphic: g}
	} else {
		d.Anchor = &docx.WPAnchor{Graphic: g}
	}
	return d
}

// drops maps a filter name to the graphic contents it removes.
var drops = map[string]string{"Canvas": "c", "Shape": "s", "Group": "g", "ShapeAndCanvas": "sc", "ShapeAndCanvasAndGroup": "scg", "NilPicture": "scg0-_n"}

func dropOf(p *docx.Paragraph, name string) {
	switch name {
	case "Canvas":
		p.DropCanvas()
	case "Shape":
		p.DropShape()
	case "Group":
		p.DropGroup()
	case "ShapeAndCanvas":
		p.DropShapeAndCanvas()
	case "ShapeAndCanvasAndGroup":
		p.DropShapeAndCanvasAndGroup()
	case "NilPicture":
		p.DropNilPicture()
	}
}

// runKid is one run child: kind of element plus the drawing.
type runKid struct {
	typ string
	d   drawSpec
}

func runKids() (out []runKid) {
	out = append(out, runKid{typ: "*docx.Text"}, runKid{typ: "*docx.Tab"}, runKid{typ: "*docx.BarterRabbet"})
	for _, f := range "ia" {
		for _, w := range "pscg0-_" {
			out = append(out, runKid{"*docx.Drawing", drawSpec{byte(f), byte(w)}})
		}
	}
	out = append(out, runKid{"*docx.Drawing", drawSpec{'n', 'n'}})
	return
}

func (k runKid) build(n int) interface{} {
	switch k.typ {
	case "*docx.Text":
		return &docx.Text{Text: fmt.Sprint(n)}
	case "*docx.Tab":
		return &docx.Tab{Position: n}
	case "*docx.BarterRabbet":
		return &docx.BarterRabbet{Type: fmt.Sprint(n)}
	}
	return k.d.build()
}

func (k runKid) String() string {
	if k.typ == "*docx.Drawing" {
		return string([]byte{'D', k.d.frame, k.d.what})
	}
	return strings.TrimPrefix(k.typ, "*docx.")
}

// samePtrs: the kept elements are exactly these objects.
func samePtrs(a, b []interface{}) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func subsets(names []string, f func(sub []string)) {
	for m := 0; m < 1<<len(names); m++ {
		var s []string
		for i := range names {
			if m>>i&1 == 1 {
				s = append(s, names[i])
			}
		}
		f(s)
		if len(s) > 0 && (m < 64 || m == 1<<len(names)-1) { // names given several times
			f(append(append([]string{}, s...), s[0]))
			f(append(append([]string{s[len(s)-1]}, s...), s...))
		}
	}
}

func hasName(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

func runC11(c *Ctx) {
	c.Rule = "every container content up to the length over all element kinds, every subset of names; every drop filter on every arrangement of drawings in paragraphs, links and table cells; long paragraphs and bodies"
	// --- keep in a run
	kk := runKids()
	small := []runKid{kk[0], kk[1], kk[2], kk[3], kk[4], kk[11]}
	runNames := []string{"*docx.Text", "*docx.Tab", "*docx.BarterRabbet", "*docx.Drawing", "docx.Text", "*docx.text", "*docx.Run"}
	seqs10(len(small), c.Pick(4, 5), func(seq []int) {
		subsets(runNames, func(names []string) {
			r := &docx.Run{RunProperties: &docx.RunProperties{Bold: &docx.Bold{}}, InstrText: "i"}
			var want []interface{}
			for i, k := range seq {
				x := small[k].build(i)
				r.Children = append(r.Children, x)
				if hasName(names, small[k].typ) {
					want = append(want, x)
				}
			}
			pr := r.RunProperties
			rep := fmt.Sprintf("Run %v keep %v", seq, names)
			c.Guard("keep run", rep, func() {
				r.KeepElements(names...)
				c.Trans(1)
				c.Trace()
				c.State(rep)
				if !samePtrs(want, r.Children) {
					c.Fail("Run.KeepElements", fmt.Sprintf("want %d elements got %d (or other order)", len(want), len(r.Children)), rep)
				}
				if r.RunProperties != pr || pr.Bold == nil || r.InstrText != "i" {
					c.Fail("Run.KeepElements changes the run", "", rep)
				}
			})
		})
	})
	// --- keep in a paragraph
	paraNames := []string{"*docx.Hyperlink", "*docx.Run", "*docx.RunProperties", "*docx.Paragraph", "docx.Run", ""}
	seqs10(4, c.Pick(5, 6), func(seq []int) {
		subsets(paraNames, func(names []string) {
			p := &docx.Paragraph{Properties: &docx.ParagraphProperties{}}
			var want []interface{}
			for _, k := range seq {
				var x interface{}
				var ty string
				switch k {
				case 0:
					x, ty = &docx.Run{Children: []interface{}{&docx.Text{Text: "a"}}}, "*docx.Run"
				case 1:
					x, ty = &docx.Hyperlink{ID: "x"}, "*docx.Hyperlink"
				case 2:
					x, ty = &docx.RunProperties{}, "*docx.RunProperties"
				case 3:
					x, ty = &docx.Run{}, "*docx.Run"
				}
				p.Children = append(p.Children, x)
				if hasName(names, ty) {
					want = append(want, x)
				}
			}
			pr := p.Properties
			rep := fmt.Sprintf("Paragraph %v keep %q", seq, names)
			c.Guard("keep paragraph", rep, func() {
				p.KeepElements(names...)
				c.Trans(1)
				c.Trace()
				c.State(rep)
				if !samePtrs(want, p.Children) || p.Properties != pr {
					c.Fail("Paragraph.KeepElements", fmt.Sprintf("want %d elements got %d (or other order)", len(want), len(p.Children)), rep)
				}
			})
		})
	})
	// --- keep in a body
	bodyNames := []string{"*docx.Paragraph", "*docx.Table", "*docx.SectPr", "docx.Table", "Paragraph"}
	seqs10(4, c.Pick(5, 6), func(seq []int) {
		subsets(bodyNames, func(names []string) {
			d := mini(docx.New())
			var want []interface{}
			for _, k := range seq {
				var ty string
				switch k {
				case 0:
					d.AddParagraph().AddText("a")
					ty = "*docx.Paragraph"
				case 1:
					d.AddTable(1, 1, 0, nil)
					ty = "*docx.Table"
				case 2:
					d.WithA4Page()
					ty = "*docx.SectPr"
				case 3:
					d.AddParagraph()
					ty = "*docx.Paragraph"
				}
				if hasName(names, ty) {
					want = append(want, d.Document.Body.Items[len(d.Document.Body.Items)-1])
				}
			}
			rep := fmt.Sprintf("Body %v keep %q", seq, names)
			c.Guard("keep body", rep, func() {
				d.Document.Body.KeepElements(names...)
				c.Trans(1)
				c.Trace()
				c.State(rep)
				if !samePtrs(want, d.Document.Body.Items) {
					c.Fail("Body.KeepElements", fmt.Sprintf("want %d elements got %d (or other order)", len(want), len(d.Document.Body.Items)), rep)
				}
				if len(seq) <= 2 {
					p, _, err := savePkg(d)
					if err != nil || len(p.Body().Elems()) != len(want) {
						c.Fail("saved body after KeepElements", fmt.Sprint(err), rep)
					}
				}
			})
		})
	})
	// --- drop in a paragraph: run children sequences
	var dn []string
	for n := range drops {
		dn = append(dn, n)
	}
	check := func(name, via string, build func() (*docx.Body, []*docx.Run, [][]runKid, [][]interface{}), rep string) {
		body, runs, specs, kids := build()
		rep = "Drop" + name + " via " + via + ": " + rep
		c.Guard("drop "+name, rep, func() {
			if via == "body" {
				body.DropDrawingOf(name)
			} else {
				for _, it := range body.Items {
					if p, ok := it.(*docx.Paragraph); ok {
						dropOf(p, name)
					}
				}
			}
			c.Trans(1)
			c.Trace()
			c.State(rep)
			for i, r := range runs {
				if r == nil {
					continue
				}
				var want []interface{}
				for j, k := range specs[i] {
					if k.typ == "*docx.Drawing" && strings.IndexByte(drops[name], k.d.what) >= 0 {
						continue
					}
					want = append(want, kids[i][j])
				}
				if !samePtrs(want, r.Children) {
					c.Fail("Drop"+name+" via "+via, fmt.Sprintf("run %d %v: want %d children got %d (or other order)", i, specs[i], len(want), len(r.Children)), rep)
				}
			}
		})
	}
	mkRun := func(spec []runKid) (*docx.Run, []interface{}) {
		r := &docx.Run{RunProperties: &docx.RunProperties{}}
		for i, k := range spec {
			r.Children = append(r.Children, k.build(i))
		}
		return r, append([]interface{}(nil), r.Children...)
	}
	names := append(append([]string{}, dn...), "NoSuch", "", "canvas")
	seqs10(len(kk), c.Pick(3, 4), func(seq []int) {
		if c.Failing() {
			return
		}
		spec := make([]runKid, len(seq))
		for i, k := range seq {
			spec[i] = kk[k]
		}
		for _, name := range names {
			for _, via := range []string{"paragraph", "body"} {
				if via == "body" && len(seq) > 2 {
					continue
				}
				check(name, via, func() (*docx.Body, []*docx.Run, [][]runKid, [][]interface{}) {
					d := mini(docx.New())
					p := d.AddParagraph()
					r, k := mkRun(spec)
					p.Children = append(p.Children, r)
					return &d.Document.Body, []*docx.Run{r}, [][]runKid{spec}, [][]interface{}{k}
				}, fmt.Sprint(spec))
			}
		}
	})
	// --- drop in a body: every arrangement of drawings over places
	places := []string{"para run", "second run", "after link", "second para", "cell", "second cell para", "second row"}
	kinds := []runKid{{typ: "*docx.Text"}, {"*docx.Drawing", drawSpec{'i', 'p'}}, {"*docx.Drawing", drawSpec{'a', 's'}}, {"*docx.Drawing", drawSpec{'i', 'c'}}, {"*docx.Drawing", drawSpec{'a', 'g'}}, {"*docx.Drawing", drawSpec{'i', '_'}}}
	n := 1
	for range places {
		n *= len(kinds)
	}
	maxDraw := c.Pick(3, len(places))
	Par(len(kinds)*len(kinds), func(first int) {
		for v := first; v < n; v += len(kinds) * len(kinds) {
			if c.Failing() {
				return
			}
			x, nd := v, 0
			pick := make([]runKid, len(places))
			for i := range places {
				pick[i] = kinds[x%len(kinds)]
				x /= len(kinds)
				if pick[i].typ == "*docx.Drawing" {
					nd++
				}
			}
			if nd > maxDraw {
				continue
			}
			for _, name := range names {
				check(name, "body", func() (*docx.Body, []*docx.Run, [][]runKid, [][]interface{}) {
					d := mini(docx.New())
					var rs []*docx.Run
					var ss [][]runKid
					var ks [][]interface{}
					add := func(p *docx.Paragraph, i int) {
						spec := []runKid{{typ: "*docx.Text"}, pick[i], {typ: "*docx.Tab"}}
						r, k := mkRun(spec)
						p.Children = append(p.Children, r)
						rs, ss, ks = append(rs, r), append(ss, spec), append(ks, k)
					}
					p := d.AddParagraph()
					add(p, 0)
					add(p, 1)
					p.Children = append(p.Children, &docx.Hyperlink{ID: "x"})
					add(p, 2)
					d.WithA4Page()
					t := d.AddTable(2, 2, 0, nil)
					cell := t.TableRows[0].TableCells[1]
					add(cell.AddParagraph(), 4)
					add(cell.AddParagraph(), 5)
					add(t.TableRows[1].TableCells[0].AddParagraph(), 6)
					add(d.AddParagraph(), 3)
					return &d.Document.Body, rs, ss, ks
				}, fmt.Sprint(pick))
			}
		}
	})
	// --- every short arrangement of runs, empty runs and other children in a paragraph, of items in a body and of
	// paragraphs in cells
	pk := []string{"empty run", "run without children and properties", "text run", "link", "link without run", "properties"}
	var drawn []runKid
	for _, w := range []byte{'p', 's', 'c', 'g', '_'} {
		drawn = append(drawn, runKid{"*docx.Drawing", drawSpec{'i', w}}, runKid{"*docx.Drawing", drawSpec{'a', w}})
	}
	np := len(pk) + len(drawn)
	addTo := func(p *docx.Paragraph, k int, rs *[]*docx.Run, ss *[][]runKid, ks *[][]interface{}) {
		var spec []runKid
		switch {
		case k == 0:
		case k == 1:
			p.Children = append(p.Children, &docx.Run{})
			return
		case k == 2:
			spec = []runKid{{typ: "*docx.Text"}}
		case k == 3:
			p.Children = append(p.Children, &docx.Hyperlink{ID: "x", Run: docx.Run{Children: []interface{}{&docx.Text{Text: "l"}}}})
			return
		case k == 4:
			p.Children = append(p.Children, &docx.Hyperlink{})
			return
		case k == 5:
			p.Children = append(p.Children, &docx.RunProperties{})
			return
		default:
			spec = []runKid{drawn[k-len(pk)]}
		}
		r, kk := mkRun(spec)
		p.Children = append(p.Children, r)
		*rs, *ss, *ks = append(*rs, r), append(*ss, spec), append(*ks, kk)
	}
	seqs10(np, c.Pick(3, 4), func(seq []int) {
		if c.Failing() {
			return
		}
		for _, name := range dn {
			for _, via := range []string{"paragraph", "body"} {
				check(name, via, func() (*docx.Body, []*docx.Run, [][]runKid, [][]interface{}) {
					d := mini(docx.New())
					var rs []*docx.Run
					var ss [][]runKid
					var ks [][]interface{}
					p := d.AddParagraph()
					for _, k := range seq {
						addTo(p, k, &rs, &ss, &ks)
					}
					return &d.Document.Body, rs, ss, ks
				}, fmt.Sprintf("paragraph of %v (%v, %v)", seq, pk, drawn))
			}
		}
	})
	bk := []string{"empty paragraph", "page", "table without rows", "row without cells", "cell without paragraphs", "cell with an empty and a drawn paragraph", "two cells", "paragraph with drawing", "paragraph of two runs"}
	seqs10(len(bk), c.Pick(4, 5), func(seq []int) {
		if c.Failing() {
			return
		}
		for _, name := range dn {
			check(name, "body", func() (*docx.Body, []*docx.Run, [][]runKid, [][]interface{}) {
				d := mini(docx.New())
				var rs []*docx.Run
				var ss [][]runKid
				var ks [][]interface{}
				draw := func(p *docx.Paragraph, n int) {
					for i := 0; i < n; i++ {
						for _, w := range []byte{'p', 's', 'c', 'g', '_'} {
							spec := []runKid{{"*docx.Drawing", drawSpec{"ia"[i%2], w}}}
							r, kk := mkRun(spec)
							p.Children = append(p.Children, r)
							rs, ss, ks = append(rs, r), append(ss, spec), append(ks, kk)
						}
					}
				}
				for _, k := range seq {
					switch k {
					case 0:
						d.AddParagraph()
					case 1:
						d.WithA4Page()
					case 2:
						d.AddTable(0, 0, 0, nil)
					case 3:
						t := d.AddTable(2, 1, 0, nil)
						t.TableRows[0].TableCells = nil
						draw(t.TableRows[1].TableCells[0].AddParagraph(), 1)
					case 4:
						t := d.AddTable(1, 2, 0, nil)
						draw(t.TableRows[0].TableCells[1].AddParagraph(), 1)
					case 5:
						t := d.AddTable(1, 1, 0, nil)
						t.TableRows[0].TableCells[0].AddParagraph()
						draw(t.TableRows[0].TableCells[0].AddParagraph(), 1)
					case 6:
						t := d.AddTable(1, 2, 0, nil)
						draw(t.TableRows[0].TableCells[0].AddParagraph(), 1)
						draw(t.TableRows[0].TableCells[1].AddParagraph(), 2)
					case 7:
						draw(d.AddParagraph(), 1)
					case 8:
						draw(d.AddParagraph(), 2)
					}
				}
				return &d.Document.Body, rs, ss, ks
			}, fmt.Sprintf("body of %v (%v)", seq, bk))
		}
	})
	rich11(c)
	c.Assume("drawings have one frame and at most one graphic content", "drawings inside links and text boxes are not claimed")
}
