package main

import (
	"bytes"
	"fmt"
	"strings"
	"sync"

	docx "github.com/fumiama/go-docx"

	. "verif/harness/core"
)

func init() { checks["C03"] = check{"model_checking", runC03} }

// insert is one kind of unsupported markup.
type insert struct {
	name  string
	raw   string
	space bool // white space: not inside texts
}

var inserts03 = []insert{
	{"white-space", "\n\t ", true},
	{"comment", "<!-- c -->", false},
	{"comment-markup", "<!--<w:p><w:r><w:t>no</w:t></w:r></w:p>-->", false},
	{"pi", "<?mso x=\"1\"?>", false},
	{"foreign-empty", `<x:foo xmlns:x="urn:x"/>`, false},
	{"foreign-nested", `<x:foo xmlns:x="urn:x" x:v="3">tx<x:bar>text</x:bar><w:p><w:r><w:t>hidden</w:t></w:r></w:p><w:b/><w:tab/><w:tbl><w:tr/></w:tbl><a:off x="5" y="5"/><wp:extent cx="4" cy="4"/><x:foo/></x:foo>`, false},
	{"unsupported-w", `<w:bookmarkStart w:id="0" w:name="n"/>`, false},
	{"unsupported-w-content", `<w:sdtx w:val="1"><w:t>hid</w:t><w:r><w:t>hid</w:t></w:r><w:jc w:val="no"/></w:sdtx>`, false},
	{"pair", `<!--c--><x:foo xmlns:x="urn:x"> </x:foo><?p?>`, false},
}

var attrs03 = []Attr{{"zz", "1"}, {"xmlns:vx", "urn:x"}, {"w:rsidR", "00AB12CD"}, {"mc:Ignorable", "w"}, {"xml:lang", "en"}}

// heavy03 are inserts of every depth, number and length, tried at every gap of every container.
var heavy03 = func() (out []insert) {
	nest := func(n int, name, leaf string) string {
		return strings.Repeat("<"+name+">", n) + leaf + strings.Repeat("</"+name+">", n)
	}
	for _, n := range []int{2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 32, 33, 65, 130, 300} {
		out = append(out, insert{fmt.Sprintf("%d unsupported elements nested", n), nest(n, "w:sdtx", "<w:r><w:t>hid</w:t></w:r>"), false})
	}
	for _, n := range []int{2, 5, 8, 33, 130} {
		out = append(out, insert{fmt.Sprintf("%d foreign elements nested", n), `<x:o xmlns:x="urn:x">` + nest(n, "x:i", "t") + `</x:o>`, false},
			insert{fmt.Sprintf("%d unsupported elements", n), strings.Repeat(`<w:bookmarkStart w:id="0" w:name="n"/>`, n), false},
			insert{fmt.Sprintf("%d unsupported elements with content", n), strings.Repeat(`<w:sdtx><w:p><w:r><w:t>hid</w:t></w:r></w:p></w:sdtx>`, n), false},
			insert{fmt.Sprintf("%d comments", n), strings.Repeat(`<!--c-->`, n), false},
			insert{fmt.Sprintf("unsupported element with %d children", n), `<w:sdtx>` + strings.Repeat(`<w:r><w:t>hid</w:t></w:r>`, n) + `</w:sdtx>`, false})
	}
	for _, n := range []int{300, 5000, 70000} {
		out = append(out, insert{fmt.Sprintf("comment of %d", n), "<!--" + strings.Repeat("c", n) + "-->", false},
			insert{fmt.Sprintf("instruction of %d", n), "<?p " + strings.Repeat("c", n) + "?>", false},
			insert{fmt.Sprintf("unsupported text of %d", n), "<w:sdtx>" + strings.Repeat("c", n) + "</w:sdtx>", false},
			insert{fmt.Sprintf("white space of %d", n), strings.Repeat(" \n", n/2), true})
	}
	return
}()

// heavyAttrs03 lists many attributes no document part gives a meaning to.
func heavyAttrs03(n int) (out []Attr) {
	for i := 0; i < n; i++ {
		out = append(out, Attr{fmt.Sprint([]string{"zz", "mc:zz", "xmlns:vx"}[i%3], i), fmt.Sprint("urn:v", i)})
	}
	return
}

// saved is what C03 observes of one document.
type saved struct{ doc, rels, text string }

func observe03(pkg []byte) (o saved, err error) {
	d, err := docx.Parse(bytes.NewReader(pkg), int64(len(pkg)))
	if err != nil {
		return o, fmt.Errorf("parse: %w", err)
	}
	var sb strings.Builder
	for _, it := range d.Document.Body.Items {
		switch x := it.(type) {
		case *docx.Paragraph:
			sb.WriteString(x.String() + "\n")
		case *docx.Table:
			sb.WriteString(x.String() + "\n")
		default:
			fmt.Fprintf(&sb, "%T\n", it)
		}
	}
	b, err := Save(d)
	if err != nil {
		return o, fmt.Errorf("save: %w", err)
	}
	_, parts, err := ReadZip(b)
	if err != nil {
		return o, fmt.Errorf("output: %w", err)
	}
	return saved{string(parts["word/document.xml"]), string(parts["word/_rels/document.xml.rels"]), sb.String()}, nil
}

type site struct {
	parent *Node
	gap    int
}

// sites lists every gap under the given subtree root (inclusive).
func sites(n *Node) (out []site) {
	if n.Name == "" {
		return
	}
	for i := 0; i <= len(n.Kids); i++ {
		out = append(out, site{n, i})
	}
	for _, k := range n.Kids {
		out = append(out, sites(k)...)
	}
	return
}

func elems(n *Node) (out []*Node) {
	n.Walk(func(x *Node) {
		if x.Name != "" {
			out = append(out, x)
		}
	})
	return
}

func (s site) with(raw string, f func()) {
	old := s.parent.Kids
	nk := append([]*Node{}, old[:s.gap]...)
	nk = append(nk, &Node{Name: "#raw", Text: raw})
	s.parent.Kids = append(nk, old[s.gap:]...)
	f()
	s.parent.Kids = old
}

func gapName(s site) string {
	l, r := "start", "end"
	if s.gap > 0 {
		l = nm(s.parent.Kids[s.gap-1].Name)
	}
	if s.gap < len(s.parent.Kids) {
		r = nm(s.parent.Kids[s.gap].Name)
	}
	return fmt.Sprintf("%s[%s|%s]", s.parent.Name, l, r)
}

// explore03 tries every insert at every site of sub (a subtree of body) and every extra attribute on every element.
func explore03(c *Ctx, body, sub *Node, what string, expect *saved, full bool) {
	mk := func() []byte { return GrammarPackage(DocXML(body)) }
	base := expect
	if base == nil {
		b, err := observe03(mk())
		if err != nil {
			c.Fail("base document: "+errClass(err), err.Error(), what+" :: "+body.String())
			return
		}
		base = &b
	}
	check := func(kind, where string) {
		c.Trace()
		c.Trans(1)
		rep := what + " " + kind + " at " + where + " :: " + body.String()
		c.Guard(kind+" at "+where, rep, func() {
			got, err := observe03(mk())
			switch {
			case err != nil:
				c.Fail(kind+" at "+where+": error", err.Error(), rep)
			case got.doc != base.doc:
				c.Fail(kind+" at "+where+": document changed", FirstDiff(base.doc, got.doc), rep)
			case got.rels != base.rels:
				c.Fail(kind+" at "+where+": relationships changed", FirstDiff(base.rels, got.rels), rep)
			case got.text != base.text:
				c.Fail(kind+" at "+where+": string form changed", FirstDiff(base.text, got.text), rep)
			}
		})
	}
	if strings.HasPrefix(what, "heavy ") {
		for gap := 0; gap <= len(sub.Kids); gap++ {
			s := site{sub, gap}
			for _, in := range heavy03 {
				if in.space && (sub.Name == "w:t" || sub.Name == "w:instrText") {
					continue
				}
				s.with(in.raw, func() { check(in.name, gapName(s)) })
			}
		}
		for _, e := range elems(sub) {
			old := e.Attrs
			for _, n := range []int{3, 9, 17, 40, 130} {
				for at := range append([]int{0}, make([]int, len(old))...) {
					if at > 1 && at < len(old) && !c.Thorough() {
						continue
					}
					e.Attrs = append(append(append([]Attr{}, old[:at]...), heavyAttrs03(n)...), old[at:]...)
					check(fmt.Sprintf("%d attributes", n), e.Name)
				}
			}
			e.Attrs = old
		}
		return
	}
	for _, s := range sites(sub) {
		if c.Failing() {
			return
		}
		if strings.HasPrefix(what, "names many ") && (s.parent != sub || s.gap%4 == 1) {
			continue
		}
		textual := s.parent.Name == "w:t" || s.parent.Name == "w:instrText"
		where := gapName(s)
		c.State(what + where)
		for _, in := range inserts03 {
			if in.space && textual {
				continue
			}
			if !full && in.name != "foreign-nested" && in.name != "comment" && in.name != "white-space" && in.name != "unsupported-w-content" {
				continue
			}
			s.with(in.raw, func() { check(in.name, where) })
		}
		for _, in := range mirrors03(s.parent.Name, full && (c.Thorough() || strings.HasPrefix(what, "names "))) {
			if textual {
				break
			}
			s.with(in.raw, func() { check(in.name, where) })
		}
		if textual && len(s.parent.Kids) == 1 && s.gap == 0 { // inside the text
			old := s.parent.Kids
			for _, in := range inserts03 {
				if in.space {
					continue
				}
				t := old[0].Text
				for _, cut := range []int{1, len(t) - 1} {
					if cut <= 0 || cut >= len(t) {
						continue
					}
					s.parent.Kids = []*Node{T(t[:cut]), {Name: "#raw", Text: in.raw}, T(t[cut:])}
					check(in.name+" inside text", s.parent.Name)
				}
			}
			s.parent.Kids = old
		}
	}
	for _, e := range elems(sub) {
		old := e.Attrs
		for _, a := range attrs03 {
			if _, ok := e.Get(a.Name); ok {
				continue
			}
			if e.Name == "w:r" && a.Name == "xml:lang" { // fine everywhere
				continue
			}
			for _, front := range []bool{true, false} {
				if !full && front {
					continue
				}
				if front {
					e.Attrs = append([]Attr{a}, old...)
				} else {
					e.Attrs = append(append([]Attr{}, old...), a)
				}
				check("attribute "+a.Name, e.Name)
			}
		}
		e.Attrs = old
	}
}

// unknown03 are element names that occur in real documents and are not in the supported vocabulary.
var unknown03 = strings.Fields("w:ins w:del w:moveFrom w:moveTo w:smartTag w:sdt w:sdtContent w:sdtPr w:customXml w:fldSimple w:pict w:object w:ruby w:rt w:sym w:cr " +
	"w:noBreakHyphen w:softHyphen w:fldChar w:delText w:delInstrText w:footnoteReference w:commentReference w:commentRangeStart w:bookmarkEnd w:proofErr w:lastRenderedPageBreak " +
	"w:permStart w:altChunk w:tblPrEx w:headerReference w:footerReference w:titlePg w:pgBorders w:type w:lang w:caps w:smallCaps w:dstrike w:vanish w:bCs w:effect w:position w:w w:bdr " +
	"w:fitText w:rtl w:cs w:em w:keepNext w:keepLines w:pageBreakBefore w:widowControl w:pBdr w:suppressAutoHyphens w:contextualSpacing w:outlineLvl w:sectPr w:divId w:cnfStyle " +
	"w:tblLayout w:tblCellMar w:tblInd w:tblOverlap w:bidiVisual w:tblCellSpacing w:tblCaption w:gridBefore w:gridAfter w:wBefore w:cantSplit w:tblHeader w:hidden " +
	"w:noWrap w:tcMar w:textDirection w:tcFitText w:hideMark w:tl2br w:start w:end w:hMerge w14:props3d w14:ligatures wp14:sizeRelH wp14:sizeRelV wp:wrapTight wp:wrapThrough wp:wrapTopAndBottom " +
	"wp:align wps:style wps:linkedTxbx wpg:graphicFrame wpc:graphicFrame a:hlinkClick a:extLst a:gradFill a:pattFill a:grpFill a:custGeom a:effectLst a:scene3d a:sp3d a:bevel a:custDash a:lum a:grayscl " +
	"w:bookmarkStart w:endnoteReference w:footnoteRef w:annotationRef w:commentRangeEnd w:permEnd w:moveFromRangeStart w:moveFromRangeEnd w:moveToRangeStart w:moveToRangeEnd w:customXmlInsRangeStart w:dayShort w:pgNum w:separator w:ptab " +
	"w:sdtEndPr w:lnNumType w:pgNumType w:noEndnote w:formProt w:rtlGutter w:paperSrc w:printerSettings w:footnotePr w:endnotePr w:mirrorIndents w:topLinePunct w:autoSpaceDE w:autoSpaceDN w:bidi w:suppressLineNumbers w:suppressOverlap w:framePr w:wordWrap " +
	"w:outline w:shadow w:emboss w:imprint w:noProof w:webHidden w:specVanish w:oMath w:eastAsianLayout w:tblStyleRowBandSize w:tblDescription w:headers a:clrChange a:duotone a:biLevel a:tint a:shade a:lumMod a:sx " +
	"a:schemeClr a:sysClr a:alpha a:normAutofit a:spAutoFit a:prstTxWarp pic:style m:oMath m:oMathPara w:subDoc w:dir w:bdo w:contentPart")

var mirrorCache = map[string][]insert{}
var mirrorMu sync.Mutex

// mirrors03 are unsupported elements that hold (with other values) what their parent itself may hold.
func mirrors03(parent string, full bool) []insert {
	key := fmt.Sprint(parent, full)
	mirrorMu.Lock()
	defer mirrorMu.Unlock()
	if r, ok := mirrorCache[key]; ok {
		return r
	}
	var r []insert
	e := Lookup(parent, "")
	if e != nil {
		alter := func(n *Node) *Node {
			n.Walk(func(x *Node) {
				if x.Name == "" && x.Text != "" {
					x.Text = "mirror"
					return
				}
				if x.Name == "wp:posOffset" {
					x.Kids = []*Node{T("77")}
				}
				for i := range x.Attrs {
					if x.Attrs[i].Name != "r:id" && x.Attrs[i].Name != "r:embed" && x.Attrs[i].Name != "xml:space" {
						x.Attrs[i].Value = "77"
					}
				}
			})
			return n
		}
		var kids []*Node
		for _, k := range e.KidNames() {
			kids = append(kids, alter(Full(k, e.Name, 2)))
		}
		self := alter(Full(parent, "", 2))
		ser := func(n *Node) string { return n.String() }
		all := ""
		for _, k := range kids {
			all += ser(k)
		}
		own := func(n string) bool {
			for _, k := range e.KidNames() {
				if k == n {
					return true
				}
			}
			return n == "w:sectPr" && parent == "w:pPr"
		}
		decl := func(n string) string {
			p, _, _ := strings.Cut(n, ":")
			switch p {
			case "w14", "wp14", "m":
				return n + ` xmlns:` + p + `="urn:` + p + `"`
			}
			return n
		}
		names := []string{"w:zz", parent + "Change"}
		if full {
			pfx, _, _ := strings.Cut(parent, ":")
			for _, u := range unknown03 {
				up, _, _ := strings.Cut(u, ":")
				if up == pfx || len(up) > 1 && up != "wpc" || up == "a" || up == "m" {
					names = append(names, u)
				}
			}
		}
		for i, n := range names {
			if own(n) {
				continue
			}
			if i < 2 {
				r = append(r, insert{"mirror of itself in " + n, "<" + decl(n) + ` w:id="5" w:val="1">` + ser(self) + "</" + n + ">", false})
				for _, k := range kids {
					if !full {
						break
					}
					r = append(r, insert{"mirror " + k.Name + " in " + n, "<" + n + ">" + ser(k) + "</" + n + ">", false})
				}
			} else {
				r = append(r, insert{"empty " + n, "<" + decl(n) + ` w:val="1" w:id="3" w:w="9" val="2" r:id="rId4"/>`, false})
			}
			r = append(r, insert{"mirror in " + n, "<" + decl(n) + ` w:id="5" w:val="1">` + all + "</" + n + ">", false})
		}
	}
	mirrorCache[key] = r
	return r
}

// drawings of every kind for the compatibility markup.
func draw03(kind string) *Node {
	gd := E("a:graphicData", A("uri", "u"))
	switch kind {
	case "wps":
		gd.Kids = []*Node{Full("wps:wsp", "a:graphicData", 5)}
	case "wpc":
		gd.Kids = []*Node{Full("wpc:wpc", "a:graphicData", 2)}
	case "wpg":
		gd.Kids = []*Node{Full("wpg:wgp", "a:graphicData", 2)}
	}
	return E("w:drawing", nil, E("wp:inline", A("distT", "0", "distB", "0", "distL", "0", "distR", "0"),
		E("wp:extent", A("cx", "5", "cy", "6")), E("wp:docPr", A("id", "9", "name", "D")), E("a:graphic", nil, gd)))
}

func runC03(c *Ctx) {
	c.Rule = "one insert at every gap, inside every leaf and on every attribute list, in small, deep, long and repeated forms; distinct = (document, gap)"
	var jobs []func()
	seen := map[string]bool{}
	for _, ed := range Edges() {
		ed := ed
		if !seen[ed.Parent] {
			// every unsupported name of the list, at every gap of every container
			seen[ed.Parent] = true
			jobs = append(jobs, func() {
				body := Wrap(ed.Path)
				par := body
				for _, p := range ed.Path[1:] {
					par = par.Child(p)
				}
				par.Kids = Full(ed.Parent, "", 1).Kids
				cut := par.Kids
				for _, k := range cut {
					if Lookup(k.Name, ed.Parent) != nil && Lookup(k.Name, ed.Parent).Text == "" {
						k.Kids = nil
					}
				}
				explore03(c, body, par, "names "+ed.Parent, nil, true)
			})
			if seq := Lookup(ed.Parent, "").Seq; len(seq) > 0 { // and in containers of many children
				jobs = append(jobs, func() {
					body := Wrap(ed.Path)
					par := body
					for _, p := range ed.Path[1:] {
						par = par.Child(p)
					}
					par.Kids = nil
					for i := 0; i < 12; i++ {
						k := Bare(seq[i%len(seq)], ed.Parent)
						if k.Name == "w:t" {
							k.Kids = []*Node{T("x")}
						}
						par.Kids = append(par.Kids, k)
					}
					explore03(c, body, par, "names many "+ed.Parent, nil, true)
				})
			}
		}
		jobs = append(jobs, func() {
			n := Full(ed.Child, ed.Parent, 1)
			explore03(c, Wrap(ed.Path, n), n, "heavy "+ed.Parent+"/"+ed.Child, nil, true)
		})
		jobs = append(jobs, func() {
			n := Full(ed.Child, ed.Parent, c.Pick(1, 2))
			body := Wrap(ed.Path, n)
			// the parent's gaps around the child
			par := body
			for _, p := range ed.Path[1:] {
				par = par.Child(p)
			}
			explore03(c, body, par, ed.Parent+"/"+ed.Child, nil, true)
		})
		jobs = append(jobs, func() {
			n := Full(ed.Child, ed.Parent, 3)
			body := Wrap(ed.Path, n)
			explore03(c, body, body, "deep "+ed.Parent+"/"+ed.Child, nil, false)
		})
	}
	// every alternative of every choice
	for _, ed := range Edges() {
		e := Lookup(ed.Child, ed.Parent)
		for _, g := range e.Choice {
			for _, alt := range g {
				n := Full(ed.Child, ed.Parent, 3)
				for i, k := range n.Kids {
					if Exclusive(e, k.Name, alt) {
						n.Kids[i] = Full(alt, e.Name, 3)
					}
				}
				body := Wrap(ed.Path, n)
				what := "alt " + ed.Child + "/" + alt
				jobs = append(jobs, func() { explore03(c, body, n, what, nil, c.Thorough()) })
			}
		}
	}
	// sequences of siblings
	seq := func(name, par string, kids ...*Node) {
		path := map[string][]string{"w:p": {"w:body"}, "w:r": {"w:body", "w:p"}, "w:body": {}}[name]
		n := E(name, nil, kids...)
		body := n
		if name != "w:body" {
			body = Wrap(path, n)
		}
		jobs = append(jobs, func() { explore03(c, body, n, "sequence in "+name, nil, true) })
	}
	run := func(t string) *Node { return E("w:r", nil, E("w:t", nil, T(t))) }
	seq("w:r", "w:p", E("w:rPr", nil, E("w:b", nil)), E("w:t", nil, T("one")), E("w:tab", nil), E("w:br", nil), E("w:t", A("xml:space", "preserve"), T(" two ")), Full("w:drawing", "w:r", 9), E("w:instrText", nil, T("instr")))
	seq("w:p", "w:body", E("w:pPr", nil, E("w:jc", A("w:val", "end"))), run("one"), E("w:hyperlink", A("r:id", "rId4"), run("link")), run("two"))
	seq("w:body", "", E("w:p", nil, run("one")), Full("w:tbl", "w:body", 4), E("w:p", nil, run("two")), Full("w:sectPr", "w:body", 2))
	// compatibility markup: read like the drawing it holds
	type ctxt struct {
		name string
		path []string
	}
	for _, ct := range []ctxt{{"run", []string{"w:body", "w:p"}}, {"link", []string{"w:body", "w:p", "w:hyperlink"}}, {"cell", []string{"w:body", "w:tbl", "w:tr", "w:tc", "w:p"}},
		{"textbox", []string{"w:body", "w:p", "w:r", "w:drawing", "wp:inline", "a:graphic", "a:graphicData", "wps:wsp", "wps:txbx", "w:txbxContent", "w:p"}}} {
		for _, kind := range []string{"wps", "wpc", "wpg"} {
			for variant := 0; variant < 6; variant++ {
				ct, kind, variant := ct, kind, variant
				jobs = append(jobs, func() {
					t := func(s string) *Node { return E("w:t", nil, T(s)) }
					plain := E("w:r", nil, E("w:rPr", nil, E("w:i", nil)), t("before"), draw03(kind), t("after"))
					b, err := observe03(GrammarPackage(DocXML(Wrap(ct.path, plain))))
					if err != nil {
						c.Fail("base document: "+errClass(err), err.Error(), ct.name+kind)
						return
					}
					choice := E("mc:Choice", A("Requires", kind), draw03(kind))
					other := E("mc:Choice", A("Requires", "wp99"), E("w:t", nil, T("no")))
					fall := E("mc:Fallback", nil, E("w:pict", nil, E("w:t", nil, T("no"))), E("w:t", nil, T("no")))
					ac := E("mc:AlternateContent", nil)
					switch variant {
					case 0:
						ac.Kids = []*Node{choice, fall}
					case 1:
						ac.Kids = []*Node{choice}
					case 2:
						ac.Kids = []*Node{other, choice, fall}
					case 3:
						ac.Kids = []*Node{choice, other, fall}
					case 4: // a second supported choice is not read
						ac.Kids = []*Node{choice, E("mc:Choice", A("Requires", "wps"), draw03("wps")), fall}
					case 5: // the fallback holds a drawing
						ac.Kids = []*Node{choice, E("mc:Fallback", nil, draw03("wps"))}
					}
					r := E("w:r", nil, E("w:rPr", nil, E("w:i", nil)), t("before"), ac, t("after"))
					body := Wrap(ct.path, r)
					what := fmt.Sprintf("choice %s in %s variant %d", kind, ct.name, variant)
					got, err := observe03(GrammarPackage(DocXML(body)))
					if err != nil || got != b {
						c.Fail("choice "+kind+" in "+ct.name+fmt.Sprint(" variant ", variant)+" not read like its drawing", fmt.Sprint(err, FirstDiff(b.doc, got.doc)), body.String())
						return
					}
					explore03(c, body, r, what, &b, c.Thorough())
				})
			}
		}
	}
	// around the root and the body
	jobs = append(jobs, func() {
		body := E("w:body", nil, E("w:p", nil, run("x")))
		b, err := observe03(GrammarPackage(DocXML(body)))
		if err != nil {
			c.Fail("base document", err.Error(), "")
			return
		}
		for _, in := range inserts03 {
			plain := DocXML(body)
			head := strings.Index(plain, "<w:document")
			bd := strings.Index(plain, "<w:body")
			for _, v := range [][2]string{{"before body", plain[:bd] + in.raw + plain[bd:]}, {"after body", strings.Replace(plain, "</w:document>", in.raw+"</w:document>", 1)},
				{"before root", plain[:head] + in.raw + plain[head:]}, {"after root", plain + in.raw}, {"no declaration", plain[head:]}} {
				if strings.HasSuffix(v[0], "root") && strings.Contains(in.raw, "<x") || strings.HasSuffix(v[0], "root") && strings.Contains(in.raw, "<w:") && in.name != "comment-markup" {
					continue
				}
				c.Trace()
				c.Guard(in.name, v[0], func() {
					got, err := observe03(GrammarPackage(v[1]))
					if err != nil || got != b {
						c.Fail(in.name+" "+v[0], fmt.Sprint(err, FirstDiff(b.doc, got.doc)), v[1])
					}
				})
			}
			// relationships part
			rels := RelsXML(GrammarRels()...)
			for at := 0; at < len(rels); at++ {
				if rels[at] != '<' || strings.HasPrefix(rels[at:], "<?xml") || in.raw[0] != '<' && in.name != "white-space" {
					continue
				}
				if at == strings.Index(rels, "<Relationships") && in.name != "comment" && in.name != "pi" && in.name != "white-space" {
					continue
				}
				raw := in.raw
				for _, p := range []string{"w:", "wp:", "a:"} {
					raw = strings.ReplaceAll(strings.ReplaceAll(raw, "<"+p, "<x:"), "</"+p, "</x:")
					raw = strings.ReplaceAll(raw, " "+p, " x:")
				}
				if strings.Contains(raw, "x:") && !strings.Contains(raw, "xmlns:x") {
					raw = strings.Replace(raw, " x:", ` xmlns:x="urn:x" x:`, 1)
				}
				r2 := rels[:at] + raw + rels[at:]
				c.Trace()
				c.Guard(in.name, "relationships", func() {
					got, err := observe03(MiniPackage(DocXML(body), r2, GrammarMedia()...))
					if err != nil || got.rels != b.rels {
						c.Fail(in.name+" in relationships", fmt.Sprint(err, FirstDiff(b.rels, got.rels)), r2)
					}
				})
			}
		}
	})
	// a foreign element or attribute with the local name of a supported one
	jobs = append(jobs, func() {
		for _, v := range [][3]string{
			{"element", `<w:p><w:r><w:t>x</w:t></w:r></w:p>`, `<w:p><w:r><w:t>x</w:t></w:r><x:r xmlns:x="urn:x"><w:t>no</w:t></x:r></w:p>`},
			{"namespace declaration", `<w:p><w:r><w:drawing><wp:anchor><wp:simplePos x="7" y="7"/></wp:anchor></w:drawing></w:r></w:p>`, `<w:p><w:r><w:drawing><wp:anchor><wp:simplePos x="7" xmlns:x="urn:x" y="7"/></wp:anchor></w:drawing></w:r></w:p>`},
			{"attribute", `<w:p><w:pPr><w:spacing w:line="1"/></w:pPr></w:p>`, `<w:p><w:pPr><w:spacing w:line="1" x:line="2" xmlns:x="urn:x"/></w:pPr></w:p>`},
		} {
			d := func(s string) []byte {
				return GrammarPackage("<w:document" + RootNS() + "><w:body>" + s + "</w:body></w:document>")
			}
			a, err1 := observe03(d(v[1]))
			b, err2 := observe03(d(v[2]))
			c.Trace()
			if err1 != nil || err2 != nil || a != b {
				c.Fail("foreign "+v[0]+" with the local name of a supported one is taken for it", fmt.Sprint(err1, err2, FirstDiff(a.doc, b.doc)), v[2])
			}
		}
	})
	Par(len(jobs), func(i int) { jobs[i]() })
	c.Assume("the vocabulary table core/grammar.go is the supported markup; the output of the document without the insert is the reference (its correctness is C02)")
}
