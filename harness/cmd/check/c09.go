package main

import (
	"bytes"
	"crypto/md5"
	"encoding/hex"
	"fmt"
	"regexp"
	"strings"

	docx "github.com/fumiama/go-docx"

	. "verif/harness/core"
)

func init() { checks["C09"] = check{"model_checking", runC09} }

// tok09 is the alphabet of the string enumeration.
var tok09 = []string{"a", " ", "\t", "\n", "&", "<", "中", "\r", "]]>", "\"", "\u00a0", "😀"}

// textOf reads a paragraph of a saved document under WordprocessingML white-space rules.
func textOf(p *Node) string {
	var sb strings.Builder
	var run func(n *Node)
	run = func(n *Node) {
		for _, k := range n.Kids {
			switch k.Name {
			case "w:t":
				s := k.Content()
				if k.Attr("xml:space") != "preserve" {
					s = strings.Trim(s, " \t\r\n")
				}
				sb.WriteString(s)
			case "w:tab":
				sb.WriteByte('\t')
			case "w:br":
				sb.WriteByte('\n')
			}
		}
	}
	for _, k := range p.Kids {
		if k.Name == "w:r" {
			run(k)
		}
	}
	return sb.String()
}

// texts09 decides text fidelity for a batch of strings (one paragraph each).
func texts09(c *Ctx, ss []string, how string, add func(p *docx.Paragraph, s string)) {
	rep := fmt.Sprintf("%s %q", how, ss)
	if len(ss) > 3 {
		rep = fmt.Sprintf("%s %q … %q", how, ss[0], ss[len(ss)-1])
	}
	c.Guard("text", rep, func() {
		d := mini(docx.New())
		for _, s := range ss {
			p := d.AddParagraph()
			add(p, s)
			if got := p.String(); got != s {
				c.Fail(how+": string form", fmt.Sprintf("want %q got %q", s, got), fmt.Sprintf("%s(%q)", how, s))
			}
			c.Eval()
			c.State(s)
		}
		pkg, raw, err := savePkg(d)
		if err != nil {
			c.Fail(how+": save", err.Error(), rep)
			return
		}
		ps := pkg.Body().Elems()
		d2, err := docx.Parse(bytes.NewReader(raw), int64(len(raw)))
		if err != nil {
			c.Fail(how+": parse", err.Error(), rep)
			return
		}
		pkg2, _, err := savePkg(d2)
		if err != nil {
			c.Fail(how+": second save", err.Error(), rep)
			return
		}
		ps2 := pkg2.Body().Elems()
		if len(ps) != len(ss) || len(ps2) != len(ss) || len(d2.Document.Body.Items) != len(ss) {
			c.Fail(how+": number of paragraphs", fmt.Sprint(len(ss), len(ps), len(ps2), len(d2.Document.Body.Items)), rep)
			return
		}
		for i, s := range ss {
			r := fmt.Sprintf("%s(%q)", how, s)
			c.Trans(3)
			c.Trace()
			if got := textOf(ps[i]); got != s {
				c.Fail(how+": saved text", fmt.Sprintf("want %q got %q in %s", s, got, ps[i]), r)
			}
			if got := textOf(ps2[i]); got != s {
				c.Fail(how+": text after re-opening and saving", fmt.Sprintf("want %q got %q in %s", s, got, ps2[i]), r)
			}
			p, ok := d2.Document.Body.Items[i].(*docx.Paragraph)
			if !ok {
				c.Fail(how+": item kind after re-opening", fmt.Sprintf("%T", d2.Document.Body.Items[i]), r)
				return
			}
			if got := p.String(); got != s {
				c.Fail(how+": string form after re-opening", fmt.Sprintf("want %q got %q", s, got), r)
			}
		}
	})
}

var label09 = regexp.MustCompile(`!\[(inln|anch)[^\]]*\]\(`)

// unlabel hides the generated label of drawings.
func unlabel(s string) string { return label09.ReplaceAllString(s, "![](") }

// item09 is one content item of a paragraph with its text form.
type item09 struct {
	name string
	do   func(p *docx.Paragraph)
	want string
}

func items09() []item09 {
	md := func(b []byte) string { h := md5.Sum(b); return hex.EncodeToString(h[:]) }
	pi, pa := Img("png", 2, 1, 1), Img("gif", 1, 1, 2)
	return []item09{
		{"text", func(p *docx.Paragraph) { p.AddText("ab ") }, "ab "},
		{"text2", func(p *docx.Paragraph) { p.AddText("\tx\n<y>") }, "\tx\n<y>"},
		{"empty", func(p *docx.Paragraph) { p.AddText("") }, ""},
		{"tab", func(p *docx.Paragraph) { p.AddTab() }, "\t"},
		{"break", func(p *docx.Paragraph) { p.AddPageBreaks() }, "\n"},
		{"runtab", func(p *docx.Paragraph) { p.AddText("q").AddTab() }, "q\t"},
		{"link", func(p *docx.Paragraph) { p.AddLink("l k", "http://t/?a=1&b=(2)") }, "[l k](http://t/?a=1&b=(2))"},
		{"link2", func(p *docx.Paragraph) { p.AddLink("", "u") }, "[](u)"},
		{"inline", func(p *docx.Paragraph) { p.AddInlineDrawing(pi) }, "![](" + md(pi) + ")"},
		{"anchor", func(p *docx.Paragraph) { p.AddAnchorDrawing(pa) }, "![](" + md(pa) + ")"},
		{"ishape", func(p *docx.Paragraph) { p.AddInlineShape(1, 2, "n", "auto", "ellipse", nil) }, "![](ellipse)"},
		{"ashape", func(p *docx.Paragraph) { p.AddAnchorShape(1, 2, "n", "auto", "rect", nil) }, "![](rect)"},
	}
}

func runC09(c *Ctx) {
	c.Rule = "every string of tokens up to the length through every text entry point; every sequence of paragraph items; every small table; every sequence of run contents in a parsed paragraph"
	// strings
	depth := c.Pick(4, 5)
	var all []string
	var gen func(s string, n int)
	gen = func(s string, n int) {
		all = append(all, s)
		if n == 0 {
			return
		}
		for _, t := range tok09 {
			gen(s+t, n-1)
		}
	}
	gen("", depth)
	c.Extra("strings", len(all))
	const batch = 400
	Par((len(all)+batch-1)/batch, func(i int) {
		e := (i + 1) * batch
		if e > len(all) {
			e = len(all)
		}
		texts09(c, all[i*batch:e], "AddText", func(p *docx.Paragraph, s string) { p.AddText(s) })
	})
	// length, and every printable character class in one text
	var long []string
	for _, n := range []int{255, 256, 4095, 4096, 4097, 65535, 65536, 1 << 20} {
		long = append(long, strings.Repeat("x", n), strings.Repeat(" y", n/2), strings.Repeat("\n\t", n/64))
	}
	texts09(c, long, "AddText long", func(p *docx.Paragraph, s string) { p.AddText(s) })
	var chars []string
	for r := rune(0x20); r < 0x3000; r++ {
		chars = append(chars, string(r), "a"+string(r), string(r)+"a")
	}
	chars = append(chars, AllChars(0x10FFFF, 509)...)
	if c.Thorough() {
		for r := rune(0x3000); r < 0x10000; r++ {
			if r < 0xD800 || r > 0xDFFF && r < 0xFFFE {
				chars = append(chars, string(r), "a"+string(r), string(r)+"a")
			}
		}
	}
	for _, r := range []rune{0x85, 0x2028, 0x2029, 0xFEFF, 0xFFFD, 0xE000, 0x10000, 0x10FFFF, 0x3000, 0xD7FF, 0xFFFC} {
		chars = append(chars, string(r), " "+string(r)+" ")
	}
	texts09(c, chars, "AddText char", func(p *docx.Paragraph, s string) { p.AddText(s) })
	// cells and nested
	var short []string
	gen2 := all[:0:0]
	for _, a := range tok09 {
		for _, b := range tok09 {
			short = append(short, a+b)
		}
	}
	_ = gen2
	Par(len(short), func(i int) {
		s := short[i]
		rep := fmt.Sprintf("cell text %q", s)
		c.Guard("cell", rep, func() {
			d := mini(docx.New())
			t := d.AddTable(1, 1, 0, nil)
			t.TableRows[0].TableCells[0].AddParagraph().AddText(s)
			p := d.AddParagraph()
			p.AddText("x" + s)
			p.AddText(s)
			p.AddText(s + "x")
			_, raw, err := savePkg(d)
			if err != nil {
				c.Fail("cell: save", err.Error(), rep)
				return
			}
			d2 := mustParse(raw)
			if got := d2.Document.Body.Items[0].(*docx.Table).TableRows[0].TableCells[0].Paragraphs[0].String(); got != s {
				c.Fail("cell text after re-opening", fmt.Sprintf("want %q got %q", s, got), rep)
			}
			if got := d2.Document.Body.Items[1].(*docx.Paragraph).String(); got != "x"+s+s+s+"x" {
				c.Fail("adjacent texts after re-opening", fmt.Sprintf("want %q got %q", "x"+s+s+s+"x", got), rep)
			}
			c.Trace()
			c.Trans(4)
		})
	})
	// sequences of items
	its := items09()
	enumerate(len(its), c.Pick(4, 5), func(seq []int) bool {
		if c.Failing() {
			return false
		}
		var nm []string
		want := ""
		d := mini(docx.New())
		p := d.AddParagraph()
		rep := ""
		c.Guard("items", fmt.Sprint(seq), func() {
			for _, i := range seq {
				nm = append(nm, its[i].name)
				its[i].do(p)
				want += its[i].want
			}
			rep = strings.Join(nm, " ")
			c.Trans(len(seq))
			c.Trace()
			c.State("items " + rep)
			c.Sample("items", rep+" => "+want)
			if got := unlabel(p.String()); got != want {
				c.Fail("string form of items", fmt.Sprintf("want %q got %q", want, got), rep)
			}
			if len(seq) > 3 && seq[0] != 0 { // re-opening: all shorter sequences, and the longest that begin with text
				return
			}
			_, raw, err := savePkg(d)
			if err != nil {
				c.Fail("items: save", err.Error(), rep)
				return
			}
			if got := unlabel(mustParse(raw).Document.Body.Items[0].(*docx.Paragraph).String()); got != want {
				c.Fail("string form of items after re-opening", fmt.Sprintf("want %q got %q", want, got), rep)
			}
		})
		return true
	})
	// parsed run contents, split over runs and links in every way
	kinds := []struct {
		n    *Node
		want string
	}{
		{E("w:t", nil, T("ab")), "ab"}, {E("w:t", A("xml:space", "preserve"), T(" c ")), " c "}, {E("w:tab", nil), "\t"}, {E("w:br", nil), "\n"},
		{E("w:br", A("w:type", "page")), "\n"}, {E("w:t", nil), ""}, {E("w:rPr", nil, E("w:b", nil)), ""},
	}
	enumerate(len(kinds), c.Pick(4, 5), func(seq []int) bool {
		for cut := 0; cut <= len(seq); cut++ {
			for how := 0; how < 3; how++ {
				link := how > 0
				r1, r2 := E("w:r", nil), E("w:r", nil)
				w1, w2 := "", ""
				if how == 2 { // a link as the library writes it, with more in it
					r2.Kids = append(r2.Kids, E("w:instrText", nil, T("in st")))
					w2 = "in st"
				}
				for i, k := range seq {
					if i < cut {
						r1.Kids = append(r1.Kids, kinds[k].n)
						w1 += kinds[k].want
					} else {
						r2.Kids = append(r2.Kids, kinds[k].n)
						w2 += kinds[k].want
					}
				}
				last := r2
				want := w1 + w2
				if link {
					last = E("w:hyperlink", A("r:id", "rId4"), r2)
					want = w1 + "[" + w2 + "](http://link/4?a=1&b=2)"
				}
				body := E("w:body", nil, E("w:p", nil, r1, last, E("w:r", nil, E("w:t", nil, T("end")))))
				want += "end"
				rep := body.String()
				c.Guard("parsed runs", rep, func() {
					d := mustParse(GrammarPackage(DocXML(body)))
					if got := d.Document.Body.Items[0].(*docx.Paragraph).String(); got != want {
						c.Fail("string form of a parsed paragraph", fmt.Sprintf("want %q got %q", want, got), rep)
					}
					c.Trans(1)
					c.Trace()
					c.State(rep)
				})
			}
		}
		return true
	})
	// links: every text, instruction and target with each other
	targets := append([]string{"", " ", "ab", "rId9", "http://l/", "media/image1.png", "#top", "](x)"}, append(URLs, Words...)...)
	Par(len(targets), func(i int) {
		tg := targets[i]
		texts := []string{"", " ", "ab", "rId9", "top", tg, tg + " ", "[" + tg + "]"}
		for _, instr := range texts {
			for _, text := range texts {
				for _, how := range []string{"rId9", "rId8", "anchor", "both", "none"} {
					r := E("w:r", nil)
					if instr != "" {
						r.Kids = append(r.Kids, E("w:instrText", nil, T(instr)))
					}
					if text != "" {
						r.Kids = append(r.Kids, E("w:t", A("xml:space", "preserve"), T(text)))
					}
					l, to := E("w:hyperlink", nil, r), ""
					switch how {
					case "rId9":
						l.Set("r:id", "rId9")
						to = tg
					case "rId8": // no such relationship
						l.Set("r:id", "rId8")
						to = "rId8"
					case "anchor":
						l.Set("w:anchor", "top")
						to = "top"
					case "both":
						l.Set("w:anchor", "top")
						l.Set("r:id", "rId9")
						to = tg
					}
					want := "[" + instr + text + "](" + to + ")"
					body := E("w:body", nil, E("w:p", nil, l))
					rep := fmt.Sprintf("%q %s", tg, body)
					c.Guard("links", rep, func() {
						d := mustParse(MiniPackage(DocXML(body), RelsXML(append(BaseRels(), Rel{"rId9", RelLink, tg, "External"})...)))
						if got := d.Document.Body.Items[0].(*docx.Paragraph).String(); got != want {
							c.Fail("string form of a link", fmt.Sprintf("want %q got %q", want, got), rep)
						}
						c.Trans(1)
						c.Trace()
						c.State(rep)
					})
				}
			}
		}
	})
	// tables: every geometry, every cell empty / one / two paragraphs
	type geo struct{ rows []int }
	var geos []geo
	for r := 1; r <= 3; r++ {
		var g func(cur []int)
		g = func(cur []int) {
			if len(cur) == r {
				geos = append(geos, geo{append([]int(nil), cur...)})
				return
			}
			for k := 1; k <= 3; k++ {
				g(append(cur, k))
			}
		}
		g(nil)
	}
	Par(len(geos), func(i int) {
		g := geos[i]
		n := 0
		for _, x := range g.rows {
			n += x
		}
		max, base := 1, 3
		if n <= 4 {
			base = 6
		}
		for k := 0; k < n && k < 7; k++ {
			max *= base
		}
		for fill := 0; fill < max; fill++ {
			d := mini(docx.New())
			t := d.AddTable(len(g.rows), 3, 0, nil)
			f, num := fill, 0
			pat := fmt.Sprintf(`^\|( *:-+: *\|){%d}`, g.rows[0])
			rep := fmt.Sprintf("table rows %v fill %d", g.rows, fill)
			for r, cols := range g.rows {
				t.TableRows[r].TableCells = t.TableRows[r].TableCells[:cols]
				pat += `\n\|`
				for k := 0; k < cols; k++ {
					num++
					cell := t.TableRows[r].TableCells[k]
					txt := fmt.Sprintf("t%d &x", num)
					what := f % base
					f /= base
					if num > 7 {
						what = 1
					}
					switch what {
					case 1, 2:
						cell.AddParagraph().AddText(txt)
						pat += " *" + regexp.QuoteMeta(txt)
					case 3: // the first paragraph is empty
						cell.AddParagraph()
						cell.AddParagraph().AddText(txt)
					case 4: // runs, tab and link
						p := cell.AddParagraph()
						p.AddText(txt).Bold()
						p.AddTab()
						p.AddText("b")
						p.AddLink("li", "http://t/"+fmt.Sprint(num))
						p.AddText("c")
						pat += " *" + regexp.QuoteMeta(txt+"\tb[li](http://t/"+fmt.Sprint(num)+")c")
					case 5: // only a link
						cell.AddParagraph().AddLink(txt, "u")
						pat += " *" + regexp.QuoteMeta("["+txt+"](u)")
					}
					if what == 2 {
						cell.AddParagraph().AddText("second")
					}
					pat += ` *\|`
				}
			}
			re := regexp.MustCompile(pat + `\n?$`)
			c.Guard("table string", rep, func() {
				if got := t.String(); !re.MatchString(got) {
					c.Fail("string form of a table", fmt.Sprintf("want %s got %q", pat, got), rep)
				}
				c.Trans(1)
				c.Trace()
				c.State(rep)
				if fill%7 != 0 {
					return
				}
				_, raw, err := savePkg(d)
				if err != nil {
					c.Fail("table: save", err.Error(), rep)
					return
				}
				if got := mustParse(raw).Document.Body.Items[0].(*docx.Table).String(); !re.MatchString(got) {
					c.Fail("string form of a re-opened table", fmt.Sprintf("want %s got %q", pat, got), rep)
				}
			})
		}
	})
	many09(c, its)
	c.Assume("characters that XML 1.0 cannot represent are excluded", "the label inside the brackets of a drawing is free, its target is not")
}

// many09 enumerates long paragraphs and large tables.
func many09(c *Ctx, its []item09) {
	ns := []int{5, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 1000}
	// paragraphs of n items, taken from every pair of item kinds
	Par(len(ns)*len(its)*len(its), func(k int) {
		n, a, b := ns[k/len(its)/len(its)], its[k/len(its)%len(its)], its[k%len(its)]
		if n > 130 && (n != 300 || strings.HasPrefix(a.want, "![") || strings.HasPrefix(b.want, "![")) && !c.Thorough() {
			return
		}
		rep := fmt.Sprintf("%d items, %s and %s in turn", n, a.name, b.name)
		c.Guard("many items", rep, func() {
			d := mini(docx.New())
			p := d.AddParagraph()
			want := ""
			for i := 0; i < n; i++ {
				it := a
				if i%2 == 1 {
					it = b
				}
				it.do(p)
				want += it.want
				if i%16 == 15 {
					p.AddText(fmt.Sprint("#", i))
					want += fmt.Sprint("#", i)
				}
			}
			c.Trans(n)
			c.Trace()
			c.State(rep)
			if got := unlabel(p.String()); got != want {
				c.Fail("string form of many items", FirstDiff(want, got), rep)
			}
			_, raw, err := savePkg(d)
			if err != nil {
				c.Fail("many items: save", err.Error(), rep)
				return
			}
			if got := unlabel(mustParse(raw).Document.Body.Items[0].(*docx.Paragraph).String()); got != want {
				c.Fail("string form of many items after re-opening", FirstDiff(want, got), rep)
			}
		})
	})
	// tables of n rows, n columns, and cells of n paragraphs or items
	cells := func(s string) (out [][]string) {
		for _, l := range strings.Split(strings.TrimSuffix(s, "\n"), "\n")[1:] {
			var row []string
			parts := strings.Split(l, "|")
			for _, x := range parts[1 : len(parts)-1] {
				row = append(row, strings.Trim(x, " "))
			}
			out = append(out, row)
		}
		return
	}
	Par(len(ns)*6, func(k int) {
		n, form := ns[k/6], k%6
		rep := fmt.Sprintf("table, %d in form %d (rows, columns, paragraphs of a cell, items of a cell, both, empty first paragraphs)", n, form)
		c.Guard("large table", rep, func() {
			rows, cols := 2, 2
			switch form {
			case 0:
				rows = n
			case 1:
				cols = n
			case 4:
				rows, cols = 1+n/10, 1+n/12
			}
			d := mini(docx.New())
			t := d.AddTable(rows, cols, 0, nil)
			want := make([][]string, rows)
			for r := range want {
				for q := 0; q < cols; q++ {
					cell, txt := t.TableRows[r].TableCells[q], fmt.Sprintf("r%dc%d", r, q)
					switch {
					case form == 5 || (r*cols+q)%5 == 4:
						txt = ""
						if form == 5 {
							cell.AddParagraph()
							for i := 0; i < n; i++ {
								cell.AddParagraph().AddText("later")
							}
						}
					case form == 3:
						p := cell.AddParagraph()
						p.AddText(txt)
						for i := 0; i < n; i++ {
							p.AddText(fmt.Sprint(" ", i))
							txt += fmt.Sprint(" ", i)
						}
					default:
						cell.AddParagraph().AddText(txt)
						for i := 0; form == 2 && i < n; i++ {
							cell.AddParagraph().AddText("more")
						}
					}
					want[r] = append(want[r], txt)
				}
			}
			c.Trans(rows * cols)
			c.Trace()
			c.State(rep)
			if got := cells(t.String()); fmt.Sprint(got) != fmt.Sprint(want) {
				c.Fail("string form of a large table", FirstDiff(fmt.Sprint(want), fmt.Sprint(got)), rep)
			}
			_, raw, err := savePkg(d)
			if err != nil {
				c.Fail("large table: save", err.Error(), rep)
				return
			}
			if got := cells(mustParse(raw).Document.Body.Items[0].(*docx.Table).String()); fmt.Sprint(got) != fmt.Sprint(want) {
				c.Fail("string form of a large table after re-opening", FirstDiff(fmt.Sprint(want), fmt.Sprint(got)), rep)
			}
		})
	})
}
