package main

import (
	"encoding/xml"
	"fmt"
	"reflect"
	"strings"

	docx "github.com/fumiama/go-docx"

	. "verif/harness/core"
)

func init() { checks["C10"] = check{"model_checking", runC10} }

// child10 is one run child.
type child10 struct {
	kind  byte // t text, - tab, / break, D drawing
	text  string
	space string
}

// run10 is one run of the model; link: a hyperlink instead, prop: a stray run-properties child.
type run10 struct {
	kind  byte // r run, L hyperlink, P run properties
	props int
	instr string
	kids  []child10
}

// props10 are the property classes: compared field name -> value.
var props10 = []map[string]string{
	{},
	nil, // no property object
	{"Bold": ""},
	{"Color": "FF0000"},
	{"Bold": "", "Color": "FF0000"},
	{"Color": "00FF00"},
	{"Bold": "0"},
	{"Fonts": "A||"},
	{"Fonts": "A||h"},
	{"Shade": "clear|auto|1"},
	{"Shade": "clear|auto|2"},
	{"Size": "10", "Underline": "none"},
	{"Size": "10"},
	{"ICs": ""},
	{"Spacing": "5"},
	{"Spacing": "6"},
	{"Kern": "1"},
	{"Italic": ""},
	{"Highlight": "red"},
	{"SizeCs": "1"},
	{"RunStyle": "a3"},
	{"Style": "1"},
	{"VertAlign": "subscript"},
	{"Strike": "true"},
	{"Strike": "false"},
}

func mkProps(m map[string]string) *docx.RunProperties {
	if m == nil {
		return nil
	}
	r := &docx.RunProperties{}
	for k, v := range m {
		p := strings.Split(v, "|")
		switch k {
		case "Bold":
			r.Bold = &docx.Bold{Val: v}
		case "Italic":
			r.Italic = &docx.Italic{Val: v}
		case "Color":
			r.Color = &docx.Color{Val: v}
		case "Fonts":
			r.Fonts = &docx.RunFonts{ASCII: p[0], EastAsia: p[1], Hint: p[2]}
		case "Shade":
			r.Shade = &docx.Shade{Val: p[0], Color: p[1], Fill: p[2]}
		case "Size":
			r.Size = &docx.Size{Val: v}
		case "SizeCs":
			r.SizeCs = &docx.SizeCs{Val: v}
		case "Underline":
			r.Underline = &docx.Underline{Val: v}
		case "ICs":
			r.ICs = &struct{}{}
		case "Spacing":
			r.Spacing = &docx.Spacing{Line: int(v[0])}
		case "Kern":
			r.Kern = &docx.Kern{Val: 1}
		case "Highlight":
			r.Highlight = &docx.Highlight{Val: v}
		case "RunStyle":
			r.RunStyle = &docx.RunStyle{Val: v}
		case "Style":
			r.Style = &docx.Style{Val: v}
		case "VertAlign":
			r.VertAlign = &docx.VertAlign{Val: v}
		case "Strike":
			r.Strike = &docx.Strike{Val: v}
		default:
			panic(k)
		}
	}
	return r
}

func (r run10) build() interface{} {
	switch r.kind {
	case 'L':
		return &docx.Hyperlink{ID: "rId9", Run: docx.Run{InstrText: "link"}}
	case 'P':
		return &docx.RunProperties{Bold: &docx.Bold{}}
	}
	o := &docx.Run{RunProperties: mkProps(props10[r.props]), InstrText: r.instr, Children: make([]interface{}, 0, len(r.kids)+2)}
	for _, k := range r.kids {
		switch k.kind {
		case 't':
			o.Children = append(o.Children, &docx.Text{Text: k.text, XMLSpace: k.space})
		case '-':
			o.Children = append(o.Children, &docx.Tab{Val: k.text})
		case '/':
			o.Children = append(o.Children, &docx.BarterRabbet{Type: k.text})
		case 'D':
			o.Children = append(o.Children, &docx.Drawing{Inline: &docx.WPInline{DocPr: &docx.WPDocPr{Name: k.text}}})
		}
	}
	return o
}

func (r run10) String() string {
	if r.kind != 'r' {
		return string(r.kind)
	}
	s := fmt.Sprintf("r%d", r.props)
	if r.instr != "" {
		s += "!"
	}
	s += "("
	for _, k := range r.kids {
		if k.kind == 't' {
			s += fmt.Sprintf("%q%s", k.text, k.space)
		} else {
			s += string(k.kind)
		}
	}
	return s + ")"
}

// rule10 is a merge rule with its meaning on the model.
type rule10 struct {
	name string
	rule docx.RunMergeRule
	ok   func(a, b run10) bool
}

func eqProps(a, b run10, names []string) bool {
	for _, n := range names {
		x, xo := props10[a.props][n]
		y, yo := props10[b.props][n]
		if xo != yo || x != y {
			return false
		}
	}
	return true
}

func rules10() []rule10 {
	all := []string{"Fonts", "Bold", "ICs", "Italic", "Highlight", "Color", "Size", "SizeCs", "Spacing", "RunStyle", "Style", "Shade", "Kern", "Underline", "VertAlign", "Strike"}
	rs := []rule10{
		{"MergeAllRuns", docx.MergeAllRuns, func(a, b run10) bool { return true }},
		{"MergeSamePropRuns", docx.MergeSamePropRuns, func(a, b run10) bool { return eqProps(a, b, all) }},
		{"never", func(a, b *docx.Run) bool { return false }, func(a, b run10) bool { return false }},
	}
	for _, ns := range [][]string{{}, {"Bold"}, {"Color"}, {"Color", "Bold"}, {"NoSuch"}, {"NoSuch", "Fonts"}, {"Shade", "Size"}, all} {
		ns := ns
		rs = append(rs, rule10{fmt.Sprintf("MergeSamePropRunsOf(%v)", ns), docx.MergeSamePropRunsOf(ns...), func(a, b run10) bool { return eqProps(a, b, ns) }})
	}
	return rs
}

// merge10 is the reference.
func merge10(in []run10, ok func(a, b run10) bool) []run10 {
	var out []run10
	for _, r := range in {
		r.kids = append([]child10(nil), r.kids...)
		if n := len(out); n > 0 && r.kind == 'r' && out[n-1].kind == 'r' && r.instr == "" && ok(out[n-1], r) {
			out[n-1].kids = append(out[n-1].kids, r.kids...)
			continue
		}
		out = append(out, r)
	}
	for i := range out {
		var ks []child10
		for _, k := range out[i].kids {
			if k.kind == 't' && k.text == "" {
				continue
			}
			if n := len(ks); n > 0 && k.kind == 't' && ks[n-1].kind == 't' {
				ks[n-1].text += k.text
				if k.space == "preserve" {
					ks[n-1].space = k.space
				}
				continue
			}
			ks = append(ks, k)
		}
		out[i].kids = ks
	}
	return out
}

// view10 renders an implementation paragraph in terms of the model.
func view10(p *docx.Paragraph) string {
	var sb strings.Builder
	for _, c := range p.Children {
		switch x := c.(type) {
		case *docx.Hyperlink:
			fmt.Fprintf(&sb, "[L %s]", x.Run.InstrText)
		case *docx.RunProperties:
			sb.WriteString("[P]")
		case *docx.Run:
			fmt.Fprintf(&sb, "[%s %s ", propsView(x.RunProperties), x.InstrText)
			for _, k := range x.Children {
				switch y := k.(type) {
				case *docx.Text:
					fmt.Fprintf(&sb, "t%q%s,", y.Text, map[bool]string{true: "P"}[y.XMLSpace == "preserve"])
				case *docx.Tab:
					sb.WriteString("-" + y.Val + ",")
				case *docx.BarterRabbet:
					sb.WriteString("/" + y.Type + ",")
				case *docx.Drawing:
					sb.WriteString("D" + y.Inline.DocPr.Name + ",")
				default:
					fmt.Fprintf(&sb, "%T,", k)
				}
			}
			sb.WriteString("]")
		default:
			fmt.Fprintf(&sb, "[%T]", c)
		}
	}
	return sb.String()
}

func propsView(r *docx.RunProperties) string {
	if r == nil {
		r = &docx.RunProperties{}
	}
	v := reflect.ValueOf(*r)
	var s []string
	for i := 1; i < v.NumField(); i++ {
		if !v.Field(i).IsNil() {
			s = append(s, fmt.Sprintf("%s=%v", v.Type().Field(i).Name, v.Field(i).Elem().Interface()))
		}
	}
	return strings.Join(s, ";")
}

func build10(in []run10) *docx.Paragraph {
	p := &docx.Paragraph{Properties: &docx.ParagraphProperties{Style: &docx.Style{Val: "keep"}}}
	p.Children = make([]interface{}, 0, len(in)+2)
	for _, r := range in {
		p.Children = append(p.Children, r.build())
	}
	return p
}

// edit10 appends to the paragraph and to each of its runs and formats them, the way a caller goes on working with it.
func edit10(p *docx.Paragraph, rounds int) {
	for i := 0; i < rounds; i++ {
		for _, c := range p.Children {
			if r, ok := c.(*docx.Run); ok {
				r.AddTab()
				r.Italic().Size("77")
			}
		}
		p.AddText("added")
	}
}

func check10(c *Ctx, in []run10, rules []rule10) {
	rep := fmt.Sprint(in)
	for i := range in { // everything but texts is labelled with its origin
		in[i].kids = append([]child10(nil), in[i].kids...)
		for j := range in[i].kids {
			if in[i].kids[j].kind != 't' {
				in[i].kids[j].text = fmt.Sprintf("%d.%d", i, j)
			}
		}
	}
	c.State(rep)
	c.Sample(fmt.Sprint("runs", len(in)), rep)
	for _, ru := range rules {
		r2 := ru.name + " on " + rep
		c.Guard("merge "+ru.name, r2, func() {
			p := build10(in)
			kids := append([]interface{}(nil), p.Children...)
			before := view10(p)
			np := p.MergeText(ru.rule)
			c.Trans(1)
			c.Trace()
			if after := view10(p); after != before {
				c.Fail("the receiver changes: "+ru.name, FirstDiff(before, after), r2)
			}
			for i := range kids {
				if i >= len(p.Children) || p.Children[i] != kids[i] {
					c.Fail("the receiver's children change: "+ru.name, "", r2)
					break
				}
			}
			want := merge10(in, ru.ok)
			wp := build10(want)
			if w, g := view10(wp), view10(&np); w != g {
				c.Fail("merged paragraph: "+ru.name, FirstDiff(w, g), r2)
			}
			if np.Properties == nil || np.Properties.Style == nil || np.Properties.Style.Val != "keep" {
				c.Fail("paragraph properties lost: "+ru.name, "", r2)
			}
			if np.String() != p.String() && !strings.Contains(rep, "L") {
				c.Fail("text changes: "+ru.name, fmt.Sprintf("want %q got %q", p.String(), np.String()), r2)
			}
			// once merged, merging again changes nothing
			np2 := np.MergeText(ru.rule)
			if view10(&np2) != view10(&np) {
				c.Fail("merging again changes the result: "+ru.name, FirstDiff(view10(&np), view10(&np2)), r2)
			}
			// going on with the result leaves the receiver alone, and the other way round
			edit10(&np, 2)
			c.Trans(2)
			if after := view10(p); after != before {
				c.Fail("editing the merged paragraph changes the receiver: "+ru.name, FirstDiff(before, after), r2)
			}
			edited := view10(&np)
			edit10(p, 2)
			if after := view10(&np); after != edited {
				c.Fail("editing the receiver changes the merged paragraph: "+ru.name, FirstDiff(edited, after), r2)
			}
		})
	}
}

func seqs10(n, depth int, f func(seq []int)) {
	var all [][]int
	var rec func(s []int)
	rec = func(s []int) {
		all = append(all, append([]int(nil), s...))
		if len(s) == depth {
			return
		}
		for i := 0; i < n; i++ {
			rec(append(s, i))
		}
	}
	rec(nil)
	Par(len(all), func(i int) { f(all[i]) })
}

func runC10(c *Ctx) {
	c.Rule = "every paragraph of up to the given number of runs over run contents x property classes, under every rule; reference: fold over runs, then joining of texts"
	rules := rules10()
	T := func(s string) child10 { return child10{'t', s, ""} }
	P := func(s string) child10 { return child10{'t', s, "preserve"} }
	D := func(s string) child10 { return child10{'t', s, "default"} }
	tab, br, dr := child10{kind: '-'}, child10{kind: '/'}, child10{kind: 'D'}
	contents := [][]child10{{}, {T("a")}, {P(" b ")}, {T("")}, {P("")}, {tab}, {br}, {dr}, {T("a"), T("c")}, {T("a"), P(" b ")}, {P(" b "), T("a")}, {T("a"), tab}, {tab, T("a")},
		{tab, P(" b ")}, {T("a"), T(""), T("c")}, {dr, T("a")}, {T("a"), dr}, {br, tab}, {T(""), tab}, {tab, T("")}, {T("a"), tab, P(" b ")}, {dr, br, dr}, {D("a")}, {D("a"), P(" b ")}}
	mk := func(cs [][]child10, ps []int) (out []run10) {
		for _, k := range cs {
			for _, p := range ps {
				out = append(out, run10{kind: 'r', props: p, kids: k})
			}
		}
		out = append(out, run10{kind: 'L'}, run10{kind: 'P'}, run10{kind: 'r', instr: "FIELD", kids: []child10{T("a")}}, run10{kind: 'r', instr: "FIELD"})
		return
	}
	go2 := func(rs []run10, depth int, rules []rule10) {
		seqs10(len(rs), depth, func(seq []int) {
			if c.Failing() {
				return
			}
			in := make([]run10, len(seq))
			for i, k := range seq {
				in[i] = rs[k]
			}
			check10(c, in, rules)
		})
	}
	// all contents, few properties, pairs; few contents, longer
	go2(mk(contents, []int{0, 2}), 2, rules)
	go2(mk(contents[:13], []int{0}), c.Pick(4, 5), rules[:2])
	go2(mk([][]child10{{T("a")}, {P(" b ")}, {tab}, {tab, T("a")}, {}}, []int{0, 2}), c.Pick(4, 5), rules[:7])
	// four and more runs of few kinds
	go2([]run10{{kind: 'r', kids: []child10{T("a")}}, {kind: 'r', props: 3, kids: []child10{T("b")}}, {kind: 'r', kids: []child10{tab}}, {kind: 'L'}, {kind: 'r', instr: "F"}}, c.Pick(6, 7), rules[:2])
	// all property classes, pairs and triples
	var ps []run10
	for i := range props10 {
		ps = append(ps, run10{kind: 'r', props: i, kids: []child10{T("a")}})
	}
	go2(ps, c.Pick(2, 3), rules)
	go2(ps[:8], 3, rules)
	values10(c)
	bulk10(c, rules)
	// shared property objects, nil runs handed to the rules, saved form
	c.Guard("rules", "nil runs", func() {
		for _, ru := range rules[1:2] {
			if ru.rule(nil, &docx.Run{}) || ru.rule(&docx.Run{}, nil) {
				c.Fail("rule accepts a missing run", ru.name, ru.name)
			}
		}
	})
	// parsed and saved: text and content survive merging in the saved document
	kinds := []*Node{E("w:t", nil, T2("ab")), E("w:t", A("xml:space", "preserve"), T2(" c ")), E("w:tab", nil), E("w:br", nil), E("w:t", A("xml:space", "preserve"), T2(""))}
	seqs10(len(kinds), c.Pick(4, 5), func(seq []int) {
		if len(seq) == 0 {
			return
		}
		for cuts := 0; cuts < 1<<(len(seq)-1); cuts++ {
			para := E("w:p", nil, E("w:r", nil))
			for i, k := range seq {
				if i > 0 && cuts>>(i-1)&1 == 1 {
					para.Kids = append(para.Kids, E("w:r", nil))
				}
				r := para.Kids[len(para.Kids)-1]
				r.Kids = append(r.Kids, kinds[k])
			}
			body := E("w:body", nil, para)
			rep := "MergeAllRuns, saved: " + body.String()
			c.Guard("merge saved", rep, func() {
				d := mustParse(GrammarPackage(DocXML(body)))
				p0 := d.Document.Body.Items[0].(*docx.Paragraph)
				np := p0.MergeText(docx.MergeAllRuns)
				raw0, _, err := savePkg(d)
				if err != nil {
					c.Fail("saved: error", err.Error(), rep)
					return
				}
				d.Document.Body.Items[0] = &np
				raw1, _, err := savePkg(d)
				if err != nil {
					c.Fail("saved: error after merging", err.Error(), rep)
					return
				}
				c.Trans(1)
				c.Trace()
				c.State(rep)
				a, b := joinT(raw0.Body().Kids[0]), joinT(raw1.Body().Kids[0])
				if a != b {
					c.Fail("saved text after merging", fmt.Sprintf("want %q got %q", a, b), rep)
				}
				if n := len(raw1.Body().Kids[0].All("w:r")); n != 1 {
					c.Fail("runs left after MergeAllRuns", fmt.Sprint(n), rep)
				}
			})
		}
	})
	// every markup of the vocabulary: merging leaves the document alone, and so does going on with the result
	edit := func(p *docx.Paragraph) {
		p.Justification("mut").Style("mut").NumPr("77", "8").NumFont("m", "m", "m", "m").NumSize("77")
		for _, ch := range p.Children {
			if r, ok := ch.(*docx.Run); ok {
				r.Color("ABCDEF").Size("99").SizeCs("98").Shade("mut", "mut", "mut").Spacing(77).Bold().Italic().Underline("mut").Highlight("mut").Strike(true).Font("m", "m", "m", "m")
				r.AddTab()
			}
		}
		p.AddText("mut")
	}
	docs := append(vocabDocs(c.Pick(2, 3)), pairDocs(false, func(a, b Feature) bool { return c.Thorough() || a.Below("w:pPr") || b.Below("w:pPr") })...)
	c.AddExtra("vocabulary documents whose paragraphs are merged", len(docs))
	all := rules10()
	Par(len(docs), func(i int) {
		ru := all[i%len(all)]
		rep := ru.name + " on " + docs[i].name + " :: " + docs[i].body.String()
		c.Guard("merge vocabulary", rep, func() {
			d := mustParse(GrammarPackage(DocXML(docs[i].body)))
			before, _, err := savePkg(d)
			if err != nil {
				c.Fail("vocabulary: save", err.Error(), rep)
				return
			}
			var srcs []*docx.Paragraph
			var nps []docx.Paragraph
			for _, it := range d.Document.Body.Items {
				if p, ok := it.(*docx.Paragraph); ok {
					srcs = append(srcs, p)
					nps = append(nps, p.MergeText(ru.rule))
				}
			}
			c.Trans(len(nps))
			c.Trace()
			c.State(rep)
			if p, _, err := savePkg(d); err != nil || partsDiff(before, p) != "" {
				c.Fail("merging changes the document: "+ru.name, fmt.Sprint(err, " ", partsDiff(before, p)), rep)
				return
			}
			marsh := func(ps []docx.Paragraph) string {
				var sb strings.Builder
				for i := range ps {
					b, err := xml.Marshal(&ps[i])
					sb.Write(b)
					fmt.Fprint(&sb, err, "\n")
				}
				return sb.String()
			}
			fresh := marsh(nps)
			for i := range nps {
				edit(&nps[i])
			}
			if p, _, err := savePkg(d); err != nil || partsDiff(before, p) != "" {
				c.Fail("editing the merged paragraph changes the document: "+ru.name, fmt.Sprint(err, " ", partsDiff(before, p)), rep)
				return
			}
			nps = nps[:0]
			for _, p := range srcs {
				nps = append(nps, p.MergeText(ru.rule))
			}
			if m := marsh(nps); m != fresh {
				c.Fail("merging twice gives different results: "+ru.name, FirstDiff(fresh, m), rep)
			}
			for _, p := range srcs {
				edit(p)
			}
			if m := marsh(nps); m != fresh {
				c.Fail("editing the receiver changes the merged paragraph: "+ru.name, FirstDiff(fresh, m), rep)
			}
		})
	})
	c.Assume("nil and empty run properties count as equal")
}

// T2 is the text node constructor.
func T2(s string) *Node { return T(s) }

// joinT is the text of a saved paragraph under white-space rules.
func joinT(p *Node) string { return textOf(p) }
