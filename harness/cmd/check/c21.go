package main

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"strings"

	docx "github.com/fumiama/go-docx"

	. "verif/harness/core"
)

func init() { checks["C21"] = check{"model_checking", runC21} }

var typDocx = reflect.TypeOf((*docx.Docx)(nil))

// dump21 writes everything reachable through public fields.
func dump21(x interface{}) string {
	var sb strings.Builder
	seen := map[uintptr]int{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() {
				sb.WriteString("nil")
				return
			}
			if v.Type() == typDocx {
				sb.WriteString("doc")
				return
			}
			if n, ok := seen[v.Pointer()]; ok && v.Elem().Kind() == reflect.Struct && v.Elem().NumField() > 0 {
				fmt.Fprintf(&sb, "^%d", n)
				return
			}
			seen[v.Pointer()] = len(seen)
			sb.WriteByte('&')
			walk(v.Elem())
		case reflect.Interface:
			if v.IsNil() {
				sb.WriteString("nil")
				return
			}
			sb.WriteString(v.Elem().Type().String())
			walk(v.Elem())
		case reflect.Struct:
			sb.WriteByte('{')
			for i := 0; i < v.NumField(); i++ {
				if f := v.Type().Field(i); f.PkgPath == "" {
					sb.WriteString(f.Name)
					sb.WriteByte(':')
					walk(v.Field(i))
					sb.WriteByte(' ')
				}
			}
			sb.WriteByte('}')
		case reflect.Slice, reflect.Array:
			if v.Kind() == reflect.Slice && v.IsNil() {
				sb.WriteString("nil")
				return
			}
			sb.WriteByte('[')
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
				sb.WriteByte(' ')
			}
			sb.WriteByte(']')
		default:
			fmt.Fprintf(&sb, "%v", v)
		}
	}
	walk(reflect.ValueOf(x))
	return sb.String()
}

// docs21 lists the documents of a history, each once.
func docs21(h *H) (ds []*docx.Docx) {
	seen := map[*docx.Docx]bool{}
	add := func(m *mdoc) {
		if m != nil && !seen[m.d] {
			seen[m.d] = true
			ds = append(ds, m.d)
		}
	}
	add(h.s[0])
	add(h.s[1])
	add(h.src)
	for _, p := range h.pieces {
		add(p)
	}
	return
}

// hEdit changes all that is there.
func hEdit() HOp {
	return HOp{"format everything", "edit", func(h *H) bool {
		for _, it := range h.s[0].d.Document.Body.Items {
			switch o := it.(type) {
			case *docx.Paragraph:
				o.Justification("center")
				if o.String() == "S" {
					continue
				}
				o.AddTab()
				for _, ch := range o.Children {
					if r, ok := ch.(*docx.Run); ok {
						r.Bold().Size("44").AddTab()
						for _, x := range r.Children {
							if t, ok := x.(*docx.Text); ok {
								t.Text += "!"
							}
							if d, ok := x.(*docx.Drawing); ok && d.Inline != nil {
								d.Inline.Size(5, 6)
							}
						}
					}
				}
			case *docx.Table:
				o.Justification("end")
				for _, r := range o.TableRows {
					for _, cl := range r.TableCells {
						cl.Shade("clear", "auto", "123456")
						cl.AddParagraph().AddText("more")
					}
				}
			}
		}
		return len(h.s[0].items) > 0
	}}
}

func hTheme() HOp {
	return HOp{"WithDefaultTheme", "theme", func(h *H) bool { h.s[0].d.WithDefaultTheme(); return true }}
}

const (
	save21ok = iota
	save21fault
	save21copy
	save21twice
	save21kinds
)

var names21 = []string{"save", "failing save", "io.Copy", "save twice"}

func runC21(c *Ctx) {
	c.Rule = "every history up to the depth with a save of every document at every subset of positions (at depth three in the quick tier: at each position and at all; plain saves, and all saves of the other kinds at all positions); the final packages are compared part by part with those of the history without saves; public fields are compared before and after every save"
	ops := []HOp{hPara("S"), hLink("l", "http://l/"), hPic("inline", "png", 2, 1), hShape("anchor", "S"), hTable(true), hReopen(), hAppend(1), hAppend(0), hSwap(), hSplit(true), hLoad(true), hEdit(), hPage()}
	sts := startsH()
	explore := func(sts []start, ops []HOp, depth int) {
		Par(len(sts)*len(ops)*len(ops), func(k int) {
			st := sts[k/len(ops)/len(ops)]
			var rec func(seq []int)
			rec = func(seq []int) {
				if c.Failing() {
					return
				}
				if len(seq) == depth {
					hist21(c, st, ops, seq)
					return
				}
				for i := range ops {
					rec(append(append(make([]int, 0, depth), seq...), i))
				}
			}
			rec([]int{k / len(ops) % len(ops), k % len(ops)})
		})
	}
	if c.Thorough() {
		explore(sts, ops, 3)
		explore(sts[:3], []HOp{hPara("S"), hPic("inline", "png", 2, 1), hReopen(), hAppend(1), hSwap(), hSplit(true), hEdit()}, 4)
	} else {
		explore(sts, ops, 2)
		explore(sts[1:2], []HOp{hPara("S"), hPic("inline", "png", 2, 1), hTable(true), hReopen(), hAppend(1), hSwap(), hSplit(true), hEdit(), hTheme()}, 3)
	}
	explore(bulkStarts()[:c.Pick(1, 2)], []HOp{hManyLinks(150), hManyPics(70), hManyParas(300), hBig("inline", "png", 1_200_000, 1), hReopen(), hAppend(0), hSplit(true)}, 2)
	// documents nobody gave a template
	bare := func(mk func() *docx.Docx) func() *H {
		return func() *H { return &H{s: [2]*mdoc{{d: mk()}, newM()}} }
	}
	built := func(l ...HOp) func() *H {
		return func() *H {
			h := bare(docx.New)()
			for _, o := range l {
				o.Do(h)
			}
			return h
		}
	}
	explore([]start{{"new without template", bare(docx.New)}, {"loaded other media without template", bare(func() *docx.Docx {
		return docx.LoadBodyItems(nil, []docx.Media{{Name: "pic.png", Data: Img("png", 1, 1, 1)}, {Name: "image3.png", Data: Img("png", 1, 1, 2)}})
	})}, {"built without template", built(hPara("p"), hPic("inline", "png", 2, 3), hPic("inline", "gif", 2, 4))}}, []HOp{hPara("S"), hLink("l", "http://l/"), hPic("inline", "png", 2, 1), hShape("anchor", "S"), hTable(true), hAppend(1), hAppend(0), hSwap(), hSplit(true)}, c.Pick(2, 3))
	contents21(c)
	c.Assume("the bytes of the zip container (order of entries) are not compared, only its parts")
}

// run21 replays a history with saves at the positions in mask; parts of all documents at the end.
func run21(c *Ctx, st start, ops []HOp, seq []int, mask, kind int, deep bool, rep string) ([]map[string][]byte, bool) {
	h := st.mk()
	h.nums = map[string]map[uintptr]bool{}
	save := func() {
		for di, d := range docs21(h) {
			var was string
			if deep {
				was = dump21(&d.Document)
			}
			var err error
			switch kind {
			case save21ok:
				_, err = d.WriteTo(io.Discard)
			case save21fault:
				if _, e := d.WriteTo(&faultWriter{mode: "byte forever", at: 100 + 90*di%800}); e == nil {
					err = fmt.Errorf("no error from a failing save")
				}
			case save21copy:
				_, err = io.Copy(io.Discard, d)
			case save21twice:
				var a, b bytes.Buffer
				_, err = d.WriteTo(&a)
				if _, e := d.WriteTo(&b); err == nil {
					err = e
				}
				if err == nil && !sameParts(a.Bytes(), b.Bytes()) {
					c.Fail("two saves differ", fmt.Sprint("document ", di), rep)
				}
			}
			if err != nil {
				c.Fail("save", err.Error(), rep)
			}
			c.Trans(1)
			if deep {
				if now := dump21(&d.Document); now != was {
					c.Fail("save changes the document", FirstDiff(was, now), rep)
				}
			}
		}
	}
	for i, k := range seq {
		if mask>>i&1 == 1 {
			save()
		}
		h.newID, h.refuse, h.pieces, h.src = "", nil, nil, nil
		if !ops[k].Do(h) {
			return nil, false
		}
		c.Trans(1)
		if h.err != nil {
			c.Fail("history", h.err.Error(), rep)
			return nil, false
		}
	}
	if mask>>len(seq)&1 == 1 {
		save()
	}
	var out []map[string][]byte
	for _, d := range docs21(h) {
		b, err := Save(d)
		if err != nil {
			c.Fail("final save", err.Error(), rep)
			return nil, false
		}
		_, p, err := ReadZip(b)
		if err != nil {
			c.Fail("final save", err.Error(), rep)
			return nil, false
		}
		out = append(out, p)
	}
	return out, true
}

func hist21(c *Ctx, st start, ops []HOp, seq []int) {
	var nm []string
	for _, i := range seq {
		nm = append(nm, ops[i].Name)
	}
	rep := st.name + " :: " + strings.Join(nm, "; ")
	c.Guard("history", rep, func() {
		base, ok := run21(c, st, ops, seq, 0, 0, false, rep)
		if !ok {
			return
		}
		c.Trace()
		all := 1<<(len(seq)+1) - 1
		cmp := func(mask, kind int) {
			r := fmt.Sprintf("%s :: %s at positions %0*b", rep, names21[kind], len(seq)+1, mask)
			got, ok := run21(c, st, ops, seq, mask, kind, mask == all, r)
			if !ok || len(got) != len(base) {
				c.Fail("saves change what a history does", "", r)
				return
			}
			c.Trace()
			for i := range base {
				for n, b := range base[i] {
					if g, ok := got[i][n]; !ok || !bytes.Equal(g, b) {
						c.Fail("saves in between change the result: "+kindOf(n), fmt.Sprintf("document %d, %s: %s", i, n, FirstDiff(string(b), string(g))), r)
						return
					}
				}
				if len(got[i]) != len(base[i]) {
					c.Fail("saves in between add parts", "", r)
				}
			}
		}
		for mask := 1; mask <= all; mask++ {
			if !c.Thorough() && len(seq) > 2 && mask&(mask-1) != 0 && mask != all {
				continue // deeper histories: one position, or all
			}
			cmp(mask, save21ok)
			if c.Thorough() {
				cmp(mask, save21fault)
			}
		}
		for kind := 1; kind < save21kinds; kind++ {
			cmp(all, kind)
		}
		for _, b := range base {
			c.State(string(b["word/document.xml"]))
		}
	})
}

// contents21: documents of every content, saved several times: same parts each time, same public fields before and after.
func contents21(c *Ctx) {
	one := func(kind, rep string, mk func() *docx.Docx) {
		c.Guard(kind, rep, func() {
			d := mk()
			was := dump21(&d.Document)
			var first map[string][]byte
			for i := 0; i < 3; i++ {
				b, err := Save(d)
				c.Trans(1)
				if err != nil {
					c.Fail(kind+": save", err.Error(), rep)
					return
				}
				_, p, err := ReadZip(b)
				if err != nil {
					c.Fail(kind+": save", err.Error(), rep)
					return
				}
				if now := dump21(&d.Document); now != was {
					c.Fail(kind+": save changes the document", FirstDiff(was, now), rep)
					return
				}
				if i == 0 {
					first = p
					c.State(string(p["word/document.xml"]))
					continue
				}
				if len(p) != len(first) {
					c.Fail(kind+": saves have different parts", "", rep)
				}
				for n, x := range first {
					if !bytes.Equal(x, p[n]) {
						c.Fail(kind+": saves differ: "+kindOf(n), FirstDiff(string(x), string(p[n])), rep)
						return
					}
				}
			}
			c.Trace()
		})
	}
	docs := append(vocabDocs(c.Pick(3, 4)), seqDocs(c.Pick(3, 4))...)
	docs = append(docs, pairDocs(false, nil)...)
	docs = append(docs, pairDocs(true, func(a, b Feature) bool { return c.Thorough() || a.Below("w:drawing") && b.Below("w:drawing") })...)
	docs = append(docs, manyDocs([]int{3, 17, 65, 130}, c.Pick(32, 8))...)
	c.AddExtra("parsed documents", len(docs))
	Par(len(docs), func(i int) {
		one("parsed", docs[i].name+" :: "+docs[i].body.String(), func() *docx.Docx { return mustParse(GrammarPackage(DocXML(docs[i].body))) })
	})
	// every element with every attribute value and text
	type vd struct {
		name string
		body *Node
	}
	var vs []vd
	for _, ed := range Edges() {
		e := Lookup(ed.Child, ed.Parent)
		for _, a := range e.Attrs {
			for _, v := range Values(a.Type) {
				vs = append(vs, vd{fmt.Sprintf("%s %s=%q", ed.Child, a.Name, Trunc(v, 30)), Wrap(ed.Path, Bare(ed.Child, ed.Parent).Set(a.Name, v))})
			}
		}
		if e.Text != "" {
			for _, t := range TextValues(e.Text) {
				for _, sp := range []string{"", "preserve"} {
					n := Bare(ed.Child, ed.Parent)
					n.Kids = []*Node{T(t)}
					if sp != "" {
						n.Set("xml:space", sp)
					}
					vs = append(vs, vd{fmt.Sprintf("%s text %q %s", ed.Child, Trunc(t, 30), sp), Wrap(ed.Path, n)})
				}
			}
		}
	}
	Par(len(vs), func(i int) {
		one("parsed value", vs[i].name+" :: "+Trunc(vs[i].body.String(), 2000), func() *docx.Docx { return mustParse(GrammarPackage(DocXML(vs[i].body))) })
	})
	// everything built, with every text
	texts := []string{"", "a", " ", " a", "a ", " a b ", "\t", "a\tb", "\n", "a\n b", "\n\n", "<&>\"'", "]]>", "中文 ", "\u00a0", "\u3000x", "_x0041_", "😀", strings.Repeat("x ", 5000), "HYPERLINK \"x\""}
	adds := []struct {
		name string
		do   func(d *docx.Docx, p *docx.Paragraph, t string)
	}{
		{"AddText", func(d *docx.Docx, p *docx.Paragraph, t string) { p.AddText(t) }},
		{"AddText Bold", func(d *docx.Docx, p *docx.Paragraph, t string) { p.AddText(t).Bold().Strike(false).Spacing(0).AddTab() }},
		{"AddLink text", func(d *docx.Docx, p *docx.Paragraph, t string) { p.AddLink(t, "http://l/") }},
		{"AddLink target", func(d *docx.Docx, p *docx.Paragraph, t string) { p.AddLink("l", t) }},
		{"formatting", func(d *docx.Docx, p *docx.Paragraph, t string) {
			p.AddText("x").Color(t).Size(t).SizeCs(t).Shade(t, t, t).Underline(t).Highlight(t).Font(t, t, t, t)
		}},
		{"paragraph", func(d *docx.Docx, p *docx.Paragraph, t string) {
			p.Justification(t).Style(t).NumPr(t, t).NumFont(t, t, t, t).NumSize(t)
		}},
		{"shape", func(d *docx.Docx, p *docx.Paragraph, t string) {
			p.AddInlineShape(1, 2, t, t, t, nil)
			p.AddAnchorShape(1, 2, t, t, t, nil)
		}},
		{"cell", func(d *docx.Docx, p *docx.Paragraph, t string) {
			tb := d.AddTable(2, 2, 0, &docx.APITableBorderColors{Top: t}).Justification(t)
			tb.TableRows[0].Justification(t).TableCells[1].Shade(t, t, t).AddParagraph().AddText(t)
			tb.TableRows[1].TableCells[0].AddParagraph().AddLink(t, t)
		}},
		{"instruction", func(d *docx.Docx, p *docx.Paragraph, t string) {
			p.Children = append(p.Children, &docx.Run{InstrText: t}, &docx.Run{InstrText: t, Space: "preserve", RunProperties: &docx.RunProperties{}}, &docx.Hyperlink{Run: docx.Run{InstrText: t}})
		}},
		{"formatted link", func(d *docx.Docx, p *docx.Paragraph, t string) {
			for _, sp := range []string{"", "preserve"} {
				h := p.AddLink("l", "http://l/")
				h.Run.InstrText, h.Run.Space = t, sp
				h.Run.Bold().Italic().Strike(true).Color(t).Size("9").Font("f", "f", "f", "f").Spacing(3).Shade("c", t, "d").Underline("u").Highlight("h")
				h.Run.Children = append(h.Run.Children, &docx.Text{Text: t}, &docx.Tab{})
			}
		}},
		{"formatted field", func(d *docx.Docx, p *docx.Paragraph, t string) {
			for _, sp := range []string{"", "preserve"} {
				r := p.AddText("x")
				r.InstrText, r.Space = t, sp
				r.Bold().Italic().Strike(true).Color(t).Size("9").Font("f", "f", "f", "f").Spacing(3).Shade("c", t, "d").Underline("u").Highlight("h")
			}
		}},
		{"text without space mark", func(d *docx.Docx, p *docx.Paragraph, t string) {
			p.AddText("x").Children = []interface{}{&docx.Text{Text: t}, &docx.Text{Text: t, XMLSpace: "preserve"}, &docx.Text{Text: t, XMLSpace: "default"}}
		}},
		{"picture", func(d *docx.Docx, p *docx.Paragraph, t string) {
			r, _ := p.AddInlineDrawing(Img("png", 2, 1, 1))
			r.Children[0].(*docx.Drawing).Inline.DocPr.Name = t
		}},
	}
	Par(len(adds)*len(adds)*len(texts), func(i int) {
		a, b, t := adds[i%len(adds)], adds[i/len(adds)%len(adds)], texts[i/len(adds)/len(adds)]
		one("built", fmt.Sprintf("%s, then %s, with %q", a.name, b.name, Trunc(t, 30)), func() *docx.Docx {
			d := mini(docx.New())
			a.do(d, d.AddParagraph(), t)
			p := d.AddParagraph()
			b.do(d, p, t)
			a.do(d, p, "z"+t)
			return d
		})
	})
}
