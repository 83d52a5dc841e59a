package main

import (
	"bytes"
	"fmt"
	"sort"
	"strconv"
	"strings"

	docx "github.com/fumiama/go-docx"

	. "verif/harness/core"
)

func init() { checks["C02"] = check{"model_checking", runC02} }

// seqContent: child order is significant.
var seqContent = map[string]bool{"w:body": true, "w:p": true, "w:r": true, "w:hyperlink": true, "w:tbl": true, "w:tr": true, "w:tc": true, "w:tabs": true,
	"w:tblGrid": true, "w:txbxContent": true, "wpc:wpc": true, "wpg:wgp": true, "wpg:grpSp": true}

// structural defaults the model always writes.
var structDefault = map[string]bool{"a:xfrm": true, "a:off": true, "a:ext": true, "a:stretch": true, "a:blip": true, "pic:cNvPr": true,
	"pic:cNvPicPr": true, "a:graphicFrameLocks": true, "wp:posOffset": true}

var boolAttr = func() map[string]bool {
	m := map[string]bool{}
	for _, k := range GrammarKeys {
		for _, a := range Grammar[k].Attrs {
			if a.Type == "b" {
				m[Grammar[k].Name+"@"+a.Name] = true
			}
		}
	}
	return m
}()

func onoff(v string) string {
	switch v {
	case "1", "true", "on":
		return "1"
	case "0", "false", "off":
		return "0"
	}
	return v
}

// norm02 normalises a tree: toggles to on/off, property order, insignificant white space.
func norm02(n *Node) *Node {
	if n.Name == "" {
		return T(n.Text)
	}
	e := Grammar[n.Name]
	o := &Node{Name: n.Name}
	for _, a := range n.Attrs {
		if boolAttr[n.Name+"@"+a.Name] {
			a.Value = onoff(a.Value)
		}
		o.Attrs = append(o.Attrs, a)
	}
	if e != nil && e.Toggle {
		v, ok := n.Get("w:val")
		if !ok {
			v = "1"
		}
		o.Set("w:val", onoff(v))
	}
	text := e != nil && e.Text != ""
	for _, k := range n.Kids {
		if k.Name == "" && !text {
			if strings.Trim(k.Text, " \t\r\n") == "" {
				continue
			}
		}
		if k.Name == "w:instrText" && k.Content() == "" {
			continue // says nothing
		}
		o.Kids = append(o.Kids, norm02(k))
	}
	if !seqContent[o.Name] {
		sort.SliceStable(o.Kids, func(i, j int) bool { return o.Kids[i].Name < o.Kids[j].Name })
	} else if e != nil { // properties first, in schema order
		rank := func(n *Node) int {
			for i, p := range e.Props {
				if p == n.Name && p != "w:instrText" {
					return i
				}
			}
			return 1000
		}
		sort.SliceStable(o.Kids, func(i, j int) bool { return rank(o.Kids[i]) < rank(o.Kids[j]) })
	}
	if o.Name == "w:hyperlink" && len(o.Kids) == 0 {
		o.Kids = []*Node{E("w:r", nil)} // a link has exactly one run in the model
	}
	if len(o.Kids) == 1 && o.Kids[0].Name == "" && o.Kids[0].Text == "" {
		o.Kids = nil
	}
	return o
}

func isDefault(n *Node) bool {
	if n.Name == "" {
		return n.Text == "0"
	}
	if !structDefault[n.Name] {
		return false
	}
	for _, a := range n.Attrs {
		if a.Value != "0" && !(n.Name == "pic:cNvPr" && a.Name == "name" && a.Value == "") { // pic:cNvPr and its name are required
			return false
		}
	}
	for _, k := range n.Kids {
		if !isDefault(k) {
			return false
		}
	}
	return true
}

// zeroDefault: the specification's default is 0, so writing it or not is the same.
var zeroDefault = func() map[string]bool {
	m := map[string]bool{"a:xfrm@rot": true, "a:xfrm@flipH": true, "a:xfrm@flipV": true, "a:graphicFrameLocks@noChangeAspect": true, "wps:cNvSpPr@txBox": true,
		"a:spLocks@noChangeArrowheads": true, "w:tblpPr@w:tblpX": true, "w:tblpPr@w:tblpY": true, "w:tblpPr@w:leftFromText": true, "w:tblpPr@w:rightFromText": true}
	for _, b := range []string{"w:top", "w:left", "w:bottom", "w:right", "w:insideH", "w:insideV"} {
		m[b+"@w:space"] = true
	}
	return m
}()

// diff02 compares in-tree and out-tree under the documented allowances; emits signatures.
func diff02(w, g *Node, parent string, emit func(sig, detail string)) {
	if w.Name == "" {
		if w.Text != g.Text {
			emit("text-changed in "+parent, fmt.Sprintf("want %q got %q", Trunc(w.Text, 200), Trunc(g.Text, 200)))
		}
		return
	}
	for _, a := range w.Attrs {
		v, ok := g.Get(a.Name)
		switch {
		case !ok && a.Value == "0" && zeroDefault[w.Name+"@"+a.Name]:
		case !ok && a.Value == "0":
			emit("zero-attribute-lost "+w.Name+"@"+a.Name, "explicit 0 dropped under "+parent)
		case !ok:
			emit("attribute-lost "+parent+"/"+w.Name+"@"+a.Name, fmt.Sprintf("value %q", Trunc(a.Value, 100)))
		case v != a.Value:
			emit("attribute-changed "+parent+"/"+w.Name+"@"+a.Name, fmt.Sprintf("want %q got %q", Trunc(a.Value, 100), Trunc(v, 100)))
		}
	}
	for _, a := range g.Attrs {
		if _, ok := w.Get(a.Name); !ok && a.Value != "0" {
			emit("attribute-invented "+parent+"/"+w.Name+"@"+a.Name, fmt.Sprintf("value %q", a.Value))
		}
	}
	// multiset of kids by name
	cw, cg := map[string]int{}, map[string]int{}
	for _, k := range w.Kids {
		cw[k.Name]++
	}
	for _, k := range g.Kids {
		if !isDefault(k) || cw[k.Name] > 0 {
			cg[k.Name]++
		}
	}
	det := func() string { return "want " + Trunc(w.String(), 600) + " got " + Trunc(g.String(), 600) }
	same := true
	for k, n := range cw {
		if e := Grammar[k]; cg[k] < n && e != nil && e.Toggle {
			if v, _ := w.Child(k).Get("w:val"); v == "0" {
				emit("explicit-off-lost "+w.Name+"/"+k, det())
				same = false
				continue
			}
		}
		if cg[k] < n {
			emit("element-lost "+parent+"/"+w.Name+"/"+nm(k), det())
			same = false
		}
	}
	for k, n := range cg {
		if cw[k] < n {
			emit("element-invented "+parent+"/"+w.Name+"/"+nm(k), det())
			same = false
		}
	}
	i, j := 0, 0
	for i < len(w.Kids) && j < len(g.Kids) {
		wk, gk := w.Kids[i], g.Kids[j]
		switch {
		case wk.Name == gk.Name:
			diff02(wk, gk, w.Name, emit)
			i++
			j++
		case cw[gk.Name] == 0:
			j++
		case cg[wk.Name] == 0:
			i++
		default:
			if same {
				emit("order under "+parent+"/"+w.Name+": want "+nm(wk.Name)+" got "+nm(gk.Name), det())
			}
			return
		}
	}
}

func nm(s string) string {
	if s == "" {
		return "#text"
	}
	return s
}

// roundTrip parses a package and saves it again.
func roundTrip(c *Ctx, pkg []byte, tag, rep string) (in, out *Pkg) {
	in, err := ReadPkg(pkg)
	if err != nil {
		panic("harness: own input unreadable: " + err.Error() + "\n" + rep)
	}
	d, err := docx.Parse(bytes.NewReader(pkg), int64(len(pkg)))
	if err != nil {
		c.Fail(tag+" parse-error "+errClass(err), err.Error(), rep)
		return in, nil
	}
	b, err := Save(d)
	if err != nil {
		c.Fail(tag+" save-error", err.Error(), rep)
		return in, nil
	}
	out, err = ReadPkg(b)
	if err != nil {
		c.Fail(tag+" output-unreadable "+errClass(err), err.Error(), rep)
		return in, nil
	}
	return in, out
}

func errClass(err error) string {
	s := err.Error()
	for i := 0; i < len(s); i++ {
		if s[i] >= '0' && s[i] <= '9' || s[i] == '"' {
			return strings.TrimSpace(s[:i])
		}
	}
	return Trunc(s, 80)
}

func case02(c *Ctx, body *Node, doc string, what string) {
	if c.Failing() {
		return
	}
	rep := what + " :: " + doc
	if i := strings.Index(doc, "<w:body"); i >= 0 {
		rep = what + " :: " + doc[i:]
	}
	c.Guard(what, rep, func() {
		c.Trace()
		c.State(body.String())
		in, out := roundTrip(c, GrammarPackage(doc), "", rep)
		if out == nil {
			return
		}
		diff02(norm02(in.Body()), norm02(out.Body()), "", func(sig, det string) { c.Fail(sig, det, rep) })
		if fmt.Sprint(in.Rels) != fmt.Sprint(out.Rels) {
			c.Fail("relationships changed", fmt.Sprintf("%v | %v", in.Rels, out.Rels), rep)
		}
	})
}

// localNS renders a document whose a: and pic: namespaces are declared where Word puts them.
func localNS(body *Node) string {
	s := DocXML(body)
	s = strings.Replace(s, ` xmlns:a="`+NA+`"`, "", 1)
	s = strings.Replace(s, ` xmlns:pic="`+NPIC+`"`, "", 1)
	for _, el := range []string{"a:graphicFrameLocks", "a:graphic"} {
		for _, end := range []string{" ", ">", "/>"} {
			s = strings.ReplaceAll(s, "<"+el+end, "<"+el+` xmlns:a="`+NA+`"`+end)
		}
	}
	for _, end := range []string{" ", ">", "/>"} {
		s = strings.ReplaceAll(s, "<pic:pic"+end, `<pic:pic xmlns:pic="`+NPIC+`"`+end)
	}
	return s
}

// otherPrefixes renders the document with unusual prefixes (n0, n1, …; w as default namespace).
func otherPrefixes(body *Node) string {
	s := DocXML(body)
	for _, p := range []string{"wps", "wpc", "wpg", "wp", "pic", "mc", "r", "a", "w"} {
		for _, b := range []string{"<", "</", " ", "xmlns:"} {
			s = strings.ReplaceAll(s, b+p+":", b+"q"+p+":")
		}
		s = strings.ReplaceAll(s, "xmlns:"+p+"=", "xmlns:q"+p+"=")
	}
	return s
}

func has(n *Node, pfx string) bool {
	f := false
	n.Walk(func(x *Node) { f = f || strings.HasPrefix(x.Name, pfx) })
	return f
}

// gen02 calls f with every generated body.
func gen02(c *Ctx, f func(body *Node, what string)) {
	edges := Edges()
	type job func()
	var jobs []job
	for _, ed := range edges {
		ed := ed
		e := Lookup(ed.Child, ed.Parent)
		mk := func(n *Node, what string) { f(Wrap(ed.Path, n), ed.Parent+"/"+ed.Child+" "+what) }
		bare := func() *Node { return Bare(ed.Child, ed.Parent) }
		// 1 attribute subsets
		na := len(e.Attrs)
		for m := 0; m < 1<<na; m++ {
			pop := 0
			for i := 0; i < na; i++ {
				pop += m >> i & 1
			}
			if na > 6 && pop > 2 && pop < na-1 && !c.Thorough() {
				continue
			}
			m := m
			jobs = append(jobs, func() {
				n := bare()
				if e.Text != "" {
					n.Kids = []*Node{T(TextValues(e.Text)[0])}
				}
				for i, a := range e.Attrs {
					if m>>i&1 == 1 {
						n.Set(a.Name, Values(a.Type)[0])
					}
				}
				mk(n, "attrs "+strconv.FormatInt(int64(m), 2))
			})
		}
		// 2 attribute values, alone and with all others
		for _, a := range e.Attrs {
			for _, v := range Values(a.Type) {
				a, v := a, v
				jobs = append(jobs, func() {
					mk(bare().Set(a.Name, v), fmt.Sprintf("%s=%q alone", a.Name, Trunc(v, 20)))
					mk(Min(ed.Child, ed.Parent).Set(a.Name, v), fmt.Sprintf("%s=%q with others", a.Name, Trunc(v, 20)))
				})
			}
		}
		if e.Toggle {
			for _, v := range []string{"", "0", "1", "true", "false", "on", "off"} {
				v := v
				jobs = append(jobs, func() {
					n := bare()
					if v != "" {
						n.Set("w:val", v)
					}
					mk(n, "toggle "+v)
				})
			}
		}
		if e.Text != "" {
			for _, t := range TextValues(e.Text) {
				t := t
				jobs = append(jobs, func() {
					n := bare()
					n.Kids = []*Node{T(t)}
					mk(n, fmt.Sprintf("text %q", Trunc(t, 20)))
					if e.Name == "w:t" {
						n = n.Clone().Set("xml:space", "preserve")
						mk(n, fmt.Sprintf("text %q preserve", Trunc(t, 20)))
					}
				})
			}
		}
		// 3 kids: each alone (bare, full), ordered pairs, all
		kids := append(append([]string{}, e.Props...), e.Seq...)
		isSeq := func(k string) bool {
			for _, s := range e.Seq {
				if s == k {
					return true
				}
			}
			return false
		}
		for _, k := range kids {
			k := k
			jobs = append(jobs, func() {
				n := bare()
				n.Kids = []*Node{Bare(k, e.Name)}
				mk(n, "kid bare "+k)
				for dep := 0; dep <= 3; dep++ {
					n := Min(ed.Child, ed.Parent)
					n.Kids = append([]*Node{}, Full(k, e.Name, dep))
					mk(n, fmt.Sprintf("kid %s depth %d", k, dep))
				}
			})
			for _, k2 := range kids {
				k2 := k2
				if k == k2 && !isSeq(k) || Exclusive(e, k, k2) {
					continue
				}
				if (k == "w:instrText" || k2 == "w:instrText") && (isSeq(k) || isSeq(k2)) {
					continue // covered separately
				}
				jobs = append(jobs, func() {
					if strings.HasSuffix(k2, "Pr") && (e.Name == "w:p" || e.Name == "w:r" || e.Name == "w:tbl" || e.Name == "w:tr" || e.Name == "w:tc") {
						return // properties come first
					}
					if isSeq(k) && !isSeq(k2) {
						return
					}
					n := bare()
					a, b := Full(k, e.Name, 1), Full(k2, e.Name, 1)
					n.Kids = []*Node{a, b}
					mk(n, "kids "+k+","+k2)
				})
			}
		}
		// sequences of length 3..: over seq kids
		if len(e.Seq) > 1 {
			for _, x := range e.Seq {
				for _, y := range e.Seq {
					for _, z := range e.Seq {
						x, y, z := x, y, z
						jobs = append(jobs, func() {
							n := bare()
							n.Kids = []*Node{Full(x, e.Name, 2), Full(y, e.Name, 2), Full(z, e.Name, 2)}
							// make the three distinguishable
							mark(n)
							mk(n, "seq "+x+","+y+","+z)
						})
					}
				}
			}
		}
		if len(e.Seq) > 0 {
			for _, rep := range []int{0, 1, 2, 3, 9, 10, 11, 63, 64, 65, 100, 129} {
				for _, x := range e.Seq {
					rep, x := rep, x
					jobs = append(jobs, func() {
						n := bare()
						for i := 0; i < rep; i++ {
							n.Kids = append(n.Kids, Full(x, e.Name, 1))
						}
						mark(n)
						mk(n, fmt.Sprintf("%d x %s", rep, x))
					})
				}
			}
		}
		// choices: every alternative in the full element
		jobs = append(jobs, func() {
			for d := 1; d <= 9; d++ {
				mk(Full(ed.Child, ed.Parent, d), fmt.Sprintf("full depth %d", d))
			}
		})
		for _, g := range e.Choice {
			for _, alt := range g {
				alt := alt
				jobs = append(jobs, func() {
					n := Full(ed.Child, ed.Parent, 6)
					for i, k := range n.Kids {
						if k.Name == alt || Exclusive(e, k.Name, alt) {
							n.Kids[i] = Full(alt, e.Name, 8)
						}
					}
					mk(n, "alternative "+alt)
				})
			}
		}
	}
	// run contents: all sequences up to a length over the kinds of content
	pieces := []func() *Node{func() *Node { return E("w:t", nil, T("t")) }, func() *Node { return E("w:t", A("xml:space", "preserve"), T(" ")) },
		func() *Node { return E("w:tab", nil) }, func() *Node { return E("w:br", nil) }, func() *Node { return E("w:br", A("w:type", "page")) },
		func() *Node { return Full("w:drawing", "w:r", 9) }}
	var rec func(kids []int, depth int)
	rec = func(kids []int, depth int) {
		k := append([]int{}, kids...)
		jobs = append(jobs, func() {
			r := E("w:r", nil, Full("w:rPr", "w:r", 1))
			for _, i := range k {
				r.Kids = append(r.Kids, pieces[i]())
			}
			f(Wrap([]string{"w:body", "w:p"}, r), fmt.Sprint("run contents ", k))
		})
		if depth == 0 {
			return
		}
		for i := range pieces {
			rec(append(append([]int{}, kids...), i), depth-1)
		}
	}
	rec(nil, c.Pick(3, 5))
	// body: all sequences up to a length over item kinds
	items := []func() *Node{func() *Node { return E("w:p", nil, E("w:r", nil, E("w:t", nil, T("p")))) }, func() *Node { return E("w:p", nil) },
		func() *Node { return Full("w:tbl", "w:body", 5) }, func() *Node { return Full("w:sectPr", "w:body", 2) },
		func() *Node {
			return E("w:p", nil, E("w:hyperlink", A("r:id", "rId4"), E("w:r", nil, E("w:t", nil, T("l")))))
		}}
	var rec2 func(kids []int, depth int)
	rec2 = func(kids []int, depth int) {
		k := append([]int{}, kids...)
		jobs = append(jobs, func() {
			b := E("w:body", nil)
			for _, i := range k {
				b.Kids = append(b.Kids, items[i]())
			}
			mark(b)
			f(b, fmt.Sprint("body ", k))
		})
		if depth == 0 {
			return
		}
		for i := range items {
			rec2(append(append([]int{}, kids...), i), depth-1)
		}
	}
	rec2(nil, c.Pick(3, 5))
	Par(len(jobs), func(i int) { jobs[i]() })
}

// mark makes texts and some values distinct in document order.
func mark(n *Node) {
	i := 0
	n.Walk(func(x *Node) {
		for _, k := range x.Kids {
			if k.Name == "" && (x.Name == "w:t" || x.Name == "w:instrText") {
				i++
				k.Text = fmt.Sprint(k.Text, i)
			}
		}
		switch x.Name {
		case "w:gridCol", "w:tab", "w:ind":
			if len(x.Attrs) > 0 {
				i++
				x.Attrs[0].Value = fmt.Sprint(1000 + i)
			}
		case "w:color", "w:pStyle", "w:sz":
			i++
			x.Set("w:val", fmt.Sprint("m", i))
		case "w:docPr":
		}
	})
}

func runC02(c *Ctx) {
	c.Rule = "for every parent/child edge of the supported vocabulary: attribute subsets, value classes, child subsets/pairs/triples/repeats/alternatives, equal and nearly equal siblings, long attribute values and many children, rendered with root-declared, local and unusual prefixes; distinct = distinct input bodies"
	gen02(c, func(body *Node, what string) {
		c.Trans(1)
		case02(c, body, DocXML(body), what)
		if has(body, "a:") || has(body, "pic:") {
			case02(c, body, localNS(body), what+" (local namespaces)")
		}
		c.Sample(strings.Fields(what)[0], Trunc(body.String(), 300))
	})
	// any two features of the vocabulary together, with all and with only the required attributes
	for _, rich := range []bool{false, true} {
		type pd struct {
			name string
			b    *Node
		}
		var ds []pd
		PairDocs(rich, nil, func(name string, b *Node) { ds = append(ds, pd{name, b}) })
		c.AddExtra("combinations of two features", len(ds))
		Par(len(ds), func(i int) {
			c.Trans(1)
			case02(c, ds[i].b, DocXML(ds[i].b), ds[i].name)
		})
	}
	// many copies, and the words and numbers real documents use
	{
		var ds []vdoc
		BulkDocs([]int{3, 4, 9, 17, 33, 65, 130, 300}, func(name string, b *Node) { ds = append(ds, vdoc{name, b}) })
		c.AddExtra("many copies", len(ds))
		ValueDocs(func(name string, b *Node) { ds = append(ds, vdoc{name, b}) })
		c.AddExtra("many copies, words and numbers", len(ds))
		n := len(ds)
		TwinDocs(func(name string, b *Node) { ds = append(ds, vdoc{name, b}) })
		c.AddExtra("equal and nearly equal elements and attributes", len(ds)-n)
		n = len(ds)
		Batches(64, BesideDocs, func(name string, b *Node) { ds = append(ds, vdoc{name, b}) })
		c.AddExtra("values beside other elements and attributes (64 in a document)", len(ds)-n)
		// every character, in every text and every text attribute
		for k, cs := range AllChars(0xFFFF, c.Pick(8192, 1024)) {
			for _, ed := range Edges() {
				e := Lookup(ed.Child, ed.Parent)
				for _, a := range e.Attrs {
					if a.Type == "s" {
						ds = append(ds, vdoc{fmt.Sprintf("characters %d in %s of %s", k, a.Name, ed.Child), Wrap(ed.Path, Bare(ed.Child, ed.Parent).Set(a.Name, "x"+cs+"x"))})
					}
				}
				if e.Text == "t" {
					n := Bare(ed.Child, ed.Parent)
					n.Kids = []*Node{T("x" + cs + "x")}
					ds = append(ds, vdoc{fmt.Sprintf("characters %d in %s", k, ed.Child), Wrap(ed.Path, n)})
				}
			}
		}
		Par(len(ds), func(i int) {
			c.Trans(1)
			case02(c, ds[i].body, DocXML(ds[i].body), ds[i].name)
		})
	}
	Par(len(Edges()), func(i int) {
		ed := Edges()[i]
		for _, d := range []int{1, 4, 9} {
			b := Wrap(ed.Path, Full(ed.Child, ed.Parent, d))
			apart02(c, fmt.Sprintf("full %s, depth %d", ed.Child, d), GrammarPackage(DocXML(b)))
		}
	})
	// prefixes: full elements
	for _, ed := range Edges() {
		b := Wrap(ed.Path, Full(ed.Child, ed.Parent, 4))
		case02(c, b, otherPrefixes(b), "other prefixes "+ed.Child)
	}
	// encodings of text
	for _, enc := range [][2]string{
		{"cdata", `<w:t><![CDATA[a<b>&c]]></w:t>`}, {"cdata-mixed", `<w:t>x<![CDATA[<y>]]>z</w:t>`}, {"charrefs", `<w:t>&#65;&#x42;&amp;&lt;&gt;&quot;&apos;</w:t>`},
		{"comment", `<w:t>ab<!-- c -->cd</w:t>`}, {"pi", `<w:t>ab<?p x?>cd</w:t>`}, {"empty", `<w:t></w:t>`}, {"self-closing", `<w:t/>`}, {"two-cdata", `<w:t><![CDATA[a]]><![CDATA[b]]></w:t>`},
		{"crlf", "<w:t xml:space=\"preserve\">a\r\nb</w:t>"}, {"instr", `<w:instrText>HYPERLINK <![CDATA["x"]]></w:instrText>`}, {"instr-comment", `<w:instrText>a<!--c-->b</w:instrText>`},
		{"preserve", `<w:t xml:space="preserve">  a  </w:t>`}, {"supplementary", `<w:t>😀𠀀</w:t>`}} {
		body := `<w:body><w:p><w:r>` + enc[1] + `</w:r></w:p></w:body>`
		doc := "<w:document" + RootNS() + ">" + body + "</w:document>"
		if n, err := ParseXML([]byte(doc)); err == nil {
			case02(c, n.Child("w:body"), doc, "text encoding "+enc[0])
		}
	}
	// links: anchor-only, anchor plus id, several runs; instrText beside other content
	for _, l := range [][2]string{
		{"hyperlink anchor only", `<w:hyperlink w:anchor="bm1"><w:r><w:t>x</w:t></w:r></w:hyperlink>`},
		{"hyperlink anchor and id", `<w:hyperlink r:id="rId4" w:anchor="bm1"><w:r><w:t>x</w:t></w:r></w:hyperlink>`},
		{"hyperlink without run", `<w:hyperlink r:id="rId4"></w:hyperlink>`},
		{"hyperlink with drawing", `<w:hyperlink r:id="rId4">` + E("w:r", nil, Full("w:drawing", "w:r", 9)).String() + `</w:hyperlink>`},
		{"hyperlink with two runs", `<w:hyperlink r:id="rId4"><w:r><w:rPr><w:b/></w:rPr><w:t>x</w:t></w:r><w:r><w:t>y</w:t></w:r></w:hyperlink>`},
		{"instrText after text", `<w:r><w:t>x</w:t><w:instrText>y</w:instrText></w:r>`},
		{"two instrText", `<w:r><w:instrText>x</w:instrText><w:instrText>y</w:instrText></w:r>`},
		{"instrText before text", `<w:r><w:instrText>y</w:instrText><w:t>x</w:t></w:r>`},
	} {
		body := `<w:body><w:p>` + l[1] + `</w:p></w:body>`
		doc := "<w:document" + RootNS() + ">" + body + "</w:document>"
		n, err := ParseXML([]byte(doc))
		if err != nil {
			panic(err)
		}
		rep := l[0] + " :: " + body
		c.Guard(l[0], rep, func() {
			c.Trace()
			in, out := roundTrip(c, GrammarPackage(doc), l[0], rep)
			_ = n
			if out != nil {
				diff02(norm02(in.Body()), norm02(out.Body()), "", func(sig, det string) { c.Fail(l[0]+": "+sig, det, rep) })
			}
		})
	}
	c.Assume("the vocabulary table core/grammar.go is the supported markup; an explicitly empty attribute value is not generated",
		"the order of properties inside property containers and of the fixed parts of a drawing is not significant")
}
