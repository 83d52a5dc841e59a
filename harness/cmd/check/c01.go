package main

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	docx "github.com/fumiama/go-docx"

	. "verif/harness/core"
)

func init() { checks["C01"] = check{"model_checking", runC01} }

// finalC01 checks the saved package against the model, then parse+save equality.
func finalC01(c *Ctx, w *W, rep string) {
	if w.err != nil {
		c.Fail("history-error", w.err.Error(), rep)
		return
	}
	c.Trace()
	p, b := compareSaved(c, w, "saved", rep)
	if p == nil {
		return
	}
	c.State(Render(AbsNodes(w.items)))
	d2, err := docx.Parse(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		c.Fail("reparse-error", err.Error(), rep)
		return
	}
	b2, err := Save(d2)
	if err != nil {
		c.Fail("resave-error", err.Error(), rep)
		return
	}
	p2, err := ReadPkg(b2)
	if err != nil {
		c.Fail("resaved-unreadable", err.Error(), rep)
		return
	}
	w1, w2 := p.Canon(p.Body(), CanonOpts{}).String(), p2.Canon(p2.Body(), CanonOpts{}).String()
	if w1 != w2 {
		c.Fail("resaved-content", FirstDiff(strings.ReplaceAll(w1, "><", ">\n<"), strings.ReplaceAll(w2, "><", ">\n<")), rep)
	}
	if fmt.Sprint(p.Rels) != fmt.Sprint(p2.Rels) {
		c.Fail("resaved-relationships", fmt.Sprintf("%v | %v", p.Rels, p2.Rels), rep)
	}
	for n, b := range p.Parts {
		if strings.HasPrefix(n, "word/media/") && !bytes.Equal(p2.Parts[n], b) {
			c.Fail("resaved-media", n, rep)
		}
	}
}

func runC01(c *Ctx) {
	c.Rule = "every sequence of building calls up to the depth of its alphabet, replayed on a fresh document, plus size sweeps, every punctuation and URL value of the bulk lists, and every paragraph setter on empty paragraphs; state = semantic content"
	full := []Op{opPara(), opText("a"), opText(" b "), opText("c\td\n<&>\"'"), opText("\t"), opText(""), opTab(), opPageBreak(),
		opLink("x", "http://a/?b=1&c=2"), opLink("x", "http://b/"), opPic("inline", "png", 2, 1), opPic("inline", "jpeg", 1, 2), opPic("anchor", "gif", 2, 3), opPic("anchor", "png", 1, 1),
		opShape("inline", 1000, 2000, "S", "rect", 0), opShape("anchor", 300, 0, "线", "line", 1), opPage(true), opPage(false),
		opTable(2, 2, 0, nil), opTable(1, 2, 5000, &docx.APITableBorderColors{Top: "#111111", InsideV: "#222222"}),
		opTableTwips([]int64{100, 0}, []int64{10, 0, 30}, 0, nil), opTableTwips([]int64{7}, []int64{9}, 40, nil),
		opCellPara(0, 0), opCellPara(-1, -1), opCellShade(0, -1, "CCCCCC"), opTableJc("center"), opRowJc(0, "end"),
		opRunTab(), opReopen()}
	ro, po := runOps(), paraOps()
	full = append(full, ro[0], ro[5], ro[9], po[0], po[2], po[4], po[6])
	mk := func(ops []Op, pre []int) func(seq []int) bool {
		return func(seq []int) bool {
			if c.Failing() {
				return false
			}
			all := append(append([]int{}, pre...), seq...)
			rep := names(ops, all)
			ok := false
			c.Guard("history", rep, func() {
				w := newW()
				if !replay(c, w, ops, all) {
					return
				}
				ok = w.err == nil
				finalC01(c, w, rep)
				c.Sample(fmt.Sprintf("history-len-%d", len(all)), rep)
			})
			return ok
		}
	}
	// alphabet 1: everything, after one paragraph
	enumerate(len(full), c.Pick(3, 3), mk(full, []int{0}))
	// alphabet 2: the structural core, deeper
	core := []Op{opPara(), opText(" a\tb"), opLink("t", "http://l/"), opPic("inline", "png", 2, 1), opPic("anchor", "gif", 1, 2),
		opTable(2, 1, 0, nil), opCellPara(-1, 0), opReopen()}
	enumerate(len(core), c.Pick(5, 6), mk(core, nil))
	if c.Thorough() {
		core2 := append(core, opShape("inline", 5, 6, "S", "rect", 1), opPage(false), ro[9], po[0], opPageBreak(), opCellShade(0, 0, "AA"))
		enumerate(len(core2), 5, mk(core2, []int{0}))
	}
	apart01(c, full, c.Pick(2, 3))
	// default theme: all sequences of length 2
	enumerate(len(full), c.Pick(1, 2), func(seq []int) bool {
		all := append([]int{0}, seq...)
		rep := "default theme: " + names(full, all)
		c.Guard("history", rep, func() {
			w := newW()
			w.d = docx.New().WithDefaultTheme()
			if replay(c, w, full, all) {
				finalC01(c, w, rep)
			}
		})
		return true
	})
	// sizes: n repetitions of each content op, for n around the growth boundaries
	ns := []int{2, 3, 8, 9, 10, 11, 12, 31, 32, 33, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 255, 256, 257}
	if c.Thorough() {
		ns = nil
		for i := 2; i <= 300; i++ {
			ns = append(ns, i)
		}
		ns = append(ns, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000)
	}
	grp := [][]Op{{opPara()}, {opText("ab")}, {opTab()}, {opLink("t", "http://same/")}, {opPic("inline", "png", 2, 1)}, {opPic("anchor", "jpeg", 1, 5), opPic("inline", "png", 1, 6)},
		{opShape("inline", 1, 2, "S", "rect", 1)}, {opTable(1, 1, 0, nil)}, {opText("x"), opRunTab()}, {opTable(1, 1, 0, nil), opCellPara(0, 0), opText("in"), opPara()}, {opRunTab()}}
	Par(len(ns)*len(grp), func(k int) {
		g, n := grp[k%len(grp)], ns[k/len(grp)]
		rep := fmt.Sprintf("%d times [%s]", n, g[0].Name)
		c.Guard("bulk", rep, func() {
			w := newW()
			opPara().Do(w)
			opText("s").Do(w)
			for i := 0; i < n; i++ {
				for j := range g {
					if !g[j].En(w) {
						c.Fail("bulk-disabled", "operation unexpectedly not possible", rep)
						return
					}
					g[j].Do(w)
				}
			}
			c.Trans(n * len(g))
			// distinct links: also number the targets
			for i := 0; i < 3; i++ {
				opLink(fmt.Sprint("l", i), fmt.Sprint("http://n/", i)).Do(w)
			}
			finalC01(c, w, rep)
			opReopen().Do(w)
			if w.err == nil {
				opPara().Do(w)
				opLink("after", "http://after/").Do(w)
				opPic("inline", "png", 2, 9).Do(w)
			}
			finalC01(c, w, rep+" reopened and extended")
		})
	})
	// n distinct targets/pictures
	Par(len(ns), func(k int) {
		n := ns[k]
		if n > 300 {
			return
		}
		rep := fmt.Sprintf("%d distinct links and pictures", n)
		c.Guard("bulk", rep, func() {
			w := newW()
			opPara().Do(w)
			for i := 0; i < n; i++ {
				opLink("l", fmt.Sprint("http://h/", i)).Do(w)
				opPic([]string{"inline", "anchor"}[i&1], []string{"png", "jpeg", "gif"}[i%3], 1+i%2, i%200).Do(w)
				if i == n/2 {
					opReopen().Do(w)
				}
			}
			c.Trans(2 * n)
			finalC01(c, w, rep)
		})
	})
	// every short string, as text, as link and as value of every string parameter
	strs := allStrings([]string{"a", " ", "\t", "\n", "&", "<"}, c.Pick(4, 5))
	const per = 37
	Par((len(strs)+per-1)/per, func(k int) {
		part := strs[k*per:]
		if len(part) > per {
			part = part[:per]
		}
		rep := fmt.Sprintf("AddText/AddLink of each string from %q to %q", part[0], part[len(part)-1])
		c.Guard("strings", rep, func() {
			w := newW()
			for _, s := range part {
				opPara().Do(w)
				opText(s).Do(w)
				opLink(s+"x", "http://h/"+s).Do(w)
			}
			c.Trans(2 * len(part))
			finalC01(c, w, rep)
		})
	})
	vals := allStrings([]string{"a", "B", "7", " ", "&", "<", "\"", "中"}, c.Pick(2, 3))
	vals = append(vals, "0", "1", "-1", "007", "auto", "none", "true", "false", "on", "nil", "clear", "default", "start", "left", "center", "FF0000", "ff0000", "#FF0000", "4294967296", "12pt", "1.5")
	for i := 0; i <= c.Pick(130, 400); i++ {
		vals = append(vals, fmt.Sprint(i))
	}
	vals = append(append(append(vals, Words...), Puncts...), URLs...)
	Par(len(vals), func(k int) {
		s := vals[k]
		rep := fmt.Sprintf("every string parameter set to %q", s)
		c.Guard("values", rep, func() {
			w := newW()
			for _, o := range valueOps(s) {
				if !o.En(w) {
					c.Fail("values-disabled", o.Name, rep)
					return
				}
				o.Do(w)
				if w.err != nil {
					break
				}
				c.Trans(1)
			}
			finalC01(c, w, rep)
		})
	})
	nums := []int64{-2147483648, -65536, -360, -2, -1, 1, 2, 3, 9, 10, 99, 100, 127, 128, 255, 256, 359, 360, 361, 999, 1000, 4095, 4096, 32767, 32768, 65535, 65536, 65537, 914400, 9525, 12700, 635, 2147483647, 2147483648, 4294967295, 4294967296, 1099511627776}
	for _, s := range Numbers {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil && v > -1<<31 && v < 1<<41 {
			nums = append(nums, v)
		}
	}
	Par(len(nums), func(k int) {
		v := nums[k]
		rep := fmt.Sprintf("every numeric parameter set to %d", v)
		c.Guard("numbers", rep, func() {
			w := newW()
			opPara().Do(w)
			opText("t").Do(w)
			if v >= -2147483648 && v <= 2147483647 {
				runOp("Spacing", func(r *docx.Run) *docx.Run { return r.Spacing(int(v)) }, E("w:spacing", A("w:line", fmt.Sprint(v)))).Do(w)
			}
			if v > 0 {
				opShape("inline", v, 2*v, "S", "rect", 0).Do(w)
				opShape("anchor", 3*v, v, "S", "rect", 1).Do(w)
				opShape("inline", 1, v, "S", "rect", 0).Do(w)
				opTable(1, 1, v, nil).Do(w)
				opTableTwips([]int64{v, 1, v}, []int64{v, v + 1}, v, nil).Do(w)
			}
			c.Trans(6)
			finalC01(c, w, rep)
		})
	})
	// long texts
	lens := []int{0, 1, 2, 3, 63, 64, 65, 1023, 1024, 1025, 4094, 4095, 4096, 4097, 4098, 8191, 8192, 8193, 65535, 65536, 65537, 70000}
	Par(len(lens)*3, func(k int) {
		n := lens[k/3]
		unit := []string{"a", "中", "&"}[k%3]
		s := strings.Repeat(unit, n)
		rep := fmt.Sprintf("AddText(%q x %d) and AddLink", unit, n)
		c.Guard("long", rep, func() {
			w := newW()
			opPara().Do(w)
			opText(s).Do(w)
			opLink(s, "http://l/"+strings.Repeat("p", n)).Do(w)
			opText("tail").Do(w)
			c.Trans(3)
			finalC01(c, w, rep)
		})
	})
	// every character
	chars := AllChars(c.Pick(0xFFFF, 0x10FFFF), 256)
	Par(len(chars), func(k int) {
		s := chars[k]
		rep := fmt.Sprintf("AddText and AddLink of the characters from %U", []rune(s)[0])
		c.Guard("characters", rep, func() {
			w := newW()
			opPara().Do(w)
			opText(s).Do(w)
			for _, r := range s {
				opText("a" + string(r)).Do(w)
			}
			opLink(s, "http://l/"+s).Do(w)
			opText(" " + s + " ").Do(w)
			c.Trans(3 + len(s))
			finalC01(c, w, rep)
		})
	})
	// texts of many pieces
	units := []string{"\t", "\n", "a\t", "\nb", "c\td\n", " \t"}
	Par(len(ns)*len(units), func(k int) {
		n, unit := ns[k/len(units)], units[k%len(units)]
		rep := fmt.Sprintf("AddText(%q x %d)", unit, n)
		c.Guard("pieces", rep, func() {
			w := newW()
			opPara().Do(w)
			opText(strings.Repeat(unit, n)).Do(w)
			opText(strings.Repeat(unit, n) + "z").Do(w)
			opRunTab().Do(w)
			opText("tail").Do(w)
			c.Trans(4)
			finalC01(c, w, rep)
		})
	})
	c.Assume("XML/zip reading by the harness's own reader (Go archive/zip + namespace-resolving tree) is correct",
		"texts consist of characters XML can carry; pictures are small generated images",
		"link text may be held in w:t or w:instrText")
}

// allStrings lists every string of 1..n symbols.
func allStrings(al []string, n int) (r []string) {
	last := []string{""}
	for l := 1; l <= n; l++ {
		var next []string
		for _, p := range last {
			for _, a := range al {
				next = append(next, p+a)
			}
		}
		r = append(r, next...)
		last = next
	}
	return r
}

// valueOps is a history that passes s as each string parameter of the building interface.
func valueOps(s string) []Op {
	one := func(e *Node) func(*Node) { return func(p *Node) { setProp(p, e.Clone()) } }
	attr := func(n string) *Node { return E(n, A("w:val", s)) }
	return append(paraValueOps(s), []Op{opPara(), opText(s), opTab(),
		runOp("Color", func(r *docx.Run) *docx.Run { return r.Color(s) }, attr("w:color")),
		runOp("Size", func(r *docx.Run) *docx.Run { return r.Size(s) }, attr("w:sz")),
		runOp("SizeCs", func(r *docx.Run) *docx.Run { return r.SizeCs(s) }, attr("w:szCs")),
		runOp("Highlight", func(r *docx.Run) *docx.Run { return r.Highlight(s) }, attr("w:highlight")),
		runOp("Underline", func(r *docx.Run) *docx.Run { return r.Underline(s) }, attr("w:u")),
		runOp("Shade", func(r *docx.Run) *docx.Run { return r.Shade(s, s+"1", s+"2") }, E("w:shd", A("w:val", s, "w:color", s+"1", "w:fill", s+"2"))),
		runOp("Font", func(r *docx.Run) *docx.Run { return r.Font(s, s+"1", s+"2", s+"3") },
			E("w:rFonts", A("w:ascii", s, "w:eastAsia", s+"1", "w:hAnsi", s+"2", "w:hint", s+"3"))),
		opText("n"),
		runOp("Shade", func(r *docx.Run) *docx.Run { return r.Shade("clear", s, s) }, E("w:shd", A("w:val", "clear", "w:color", s, "w:fill", s))),
		runOp("Font", func(r *docx.Run) *docx.Run { return r.Font(s, s, s, s) },
			E("w:rFonts", A("w:ascii", s, "w:eastAsia", s, "w:hAnsi", s, "w:hint", s))),
		paraOp("Justification", func(p *docx.Paragraph) *docx.Paragraph { return p.Justification(s) }, one(attr("w:jc"))),
		paraOp("Style", func(p *docx.Paragraph) *docx.Paragraph { return p.Style(s) }, one(attr("w:pStyle"))),
		paraOp("NumPr", func(p *docx.Paragraph) *docx.Paragraph { return p.NumPr(s, s+"1") }, one(E("w:numPr", nil, E("w:numId", A("w:val", s)), E("w:ilvl", A("w:val", s+"1"))))),
		paraOp("NumSize", func(p *docx.Paragraph) *docx.Paragraph { return p.NumSize(s) }, func(p *Node) { setProp(prop(p, "w:rPr"), attr("w:sz")) }),
		paraOp("NumFont", func(p *docx.Paragraph) *docx.Paragraph { return p.NumFont(s, s+"1", s+"2", s+"3") },
			func(p *Node) {
				setProp(prop(p, "w:rPr"), E("w:rFonts", A("w:ascii", s, "w:eastAsia", s+"1", "w:hAnsi", s+"2", "w:hint", s+"3")))
			}),
		opShapeBW("inline", 10, 20, s, s, s), opShapeBW("anchor", 10, 20, s, s+"1", s+"2"),
		opLink(s, s), opLink("l", "http://h/"+s), opLink(s, "file:///"+s),
		opTable(2, 2, 100, &docx.APITableBorderColors{Top: s, Left: s + "1", Bottom: s + "2", Right: s + "3", InsideH: s + "4", InsideV: s + "5"}),
		opTableJc(s), opRowJc(0, s), opRowJc(1, s+"1"), opCellShade(0, 1, s), opCellShade(1, 0, s+"1"),
		opTableTwips([]int64{1, 0}, []int64{2, 3}, 0, &docx.APITableBorderColors{InsideV: s}),
		opCellPara(0, 0), opText(s),
	}...)
}

// paraValueOps is a history that passes s to the paragraph calls, on paragraphs that hold nothing.
func paraValueOps(s string) []Op {
	one := func(e *Node) func(*Node) { return func(p *Node) { setProp(p, e.Clone()) } }
	attr := func(n string) *Node { return E(n, A("w:val", s)) }
	jc := paraOp("Justification", func(p *docx.Paragraph) *docx.Paragraph { return p.Justification(s) }, one(attr("w:jc")))
	st := paraOp("Style", func(p *docx.Paragraph) *docx.Paragraph { return p.Style(s) }, one(attr("w:pStyle")))
	nu := paraOp("NumPr", func(p *docx.Paragraph) *docx.Paragraph { return p.NumPr(s, s) }, one(E("w:numPr", nil, E("w:numId", A("w:val", s)), E("w:ilvl", A("w:val", s)))))
	sz := paraOp("NumSize", func(p *docx.Paragraph) *docx.Paragraph { return p.NumSize(s) }, func(p *Node) { setProp(prop(p, "w:rPr"), attr("w:sz")) })
	ft := paraOp("NumFont", func(p *docx.Paragraph) *docx.Paragraph { return p.NumFont(s, s, s, s) },
		func(p *Node) {
			setProp(prop(p, "w:rPr"), E("w:rFonts", A("w:ascii", s, "w:eastAsia", s, "w:hAnsi", s, "w:hint", s)))
		})
	return []Op{opPara(), jc, opPara(), st, opPara(), nu, opPara(), sz, opPara(), ft, opPara(), jc, st, nu, sz, ft, opText("t"), opPara(), opLink("l", s), jc}
}

func opShapeBW(kind string, cx, cy int64, name, bw, prst string) Op {
	return Op{fmt.Sprintf("Add%sShape(%d,%d,%s,%s,%s)", kind, cx, cy, name, bw, prst), hasP, func(w *W) {
		var r *docx.Run
		if kind == "inline" {
			r = w.ip.AddInlineShape(cx, cy, name, bw, prst, nil)
		} else {
			r = w.ip.AddAnchorShape(cx, cy, name, bw, prst, nil)
		}
		w.newRun(r, mShape(kind, cx, cy, name, bw, prst, nil))
	}}
}
