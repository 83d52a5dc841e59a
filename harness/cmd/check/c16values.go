package main

import (
	"fmt"
	"strconv"
	"strings"

	docx "github.com/fumiama/go-docx"

	. "verif/harness/core"
)

// setter16 is one formatting call over a domain of argument tuples.
type setter16 struct {
	name  string
	field string
	args  [][]string
	run   func(*docx.Run, []string) *docx.Run
	para  func(*docx.Paragraph, []string) *docx.Paragraph
	value func([]string) interface{}
	small int // number of leading tuples used where setters are combined
}

// tuples16 lists all n-tuples over the alphabet, simplest first.
func tuples16(n int, alpha ...string) [][]string {
	out := [][]string{{}}
	for i := 0; i < n; i++ {
		var nx [][]string
		for _, t := range out {
			for _, a := range alpha {
				nx = append(nx, append(append([]string{}, t...), a))
			}
		}
		out = nx
	}
	return out
}

var ints16 = map[string]int{"0": 0, "1": 1, "-1": -1, "360": 360, "31681": 31681, "-31681": -31681, "max": 1<<31 - 1, "min": -1 << 31}

func setters16() []setter16 {
	one := tuples16(1, "A", "", "B", "auto", "none", "0", "12.5", "ff00aa", "FF00AA", "#FF00AA", "a&<\">'", "黑 体", "single", "clear")
	for _, w := range append(append([]string{}, Words...), Puncts...) {
		one = append(one, []string{w})
	}
	font := func(a []string) interface{} {
		return docx.RunFonts{ASCII: a[0], EastAsia: a[1], HAnsi: a[2], Hint: a[3]}
	}
	ints := [][]string{}
	for _, k := range []string{"0", "1", "-1", "360", "31681", "-31681", "max", "min"} {
		ints = append(ints, []string{k})
	}
	for _, w := range Numbers {
		if n, err := strconv.ParseInt(w, 10, 32); err == nil {
			if _, ok := ints16[w]; !ok {
				ints16[w] = int(n)
			}
			ints = append(ints, []string{w})
		}
	}
	return []setter16{
		{"Color", "Color", one, func(r *docx.Run, a []string) *docx.Run { return r.Color(a[0]) }, nil, func(a []string) interface{} { return docx.Color{Val: a[0]} }, 3},
		{"Size", "Size", one, func(r *docx.Run, a []string) *docx.Run { return r.Size(a[0]) }, nil, func(a []string) interface{} { return docx.Size{Val: a[0]} }, 3},
		{"SizeCs", "SizeCs", one, func(r *docx.Run, a []string) *docx.Run { return r.SizeCs(a[0]) }, nil, func(a []string) interface{} { return docx.SizeCs{Val: a[0]} }, 3},
		{"Underline", "Underline", one, func(r *docx.Run, a []string) *docx.Run { return r.Underline(a[0]) }, nil, func(a []string) interface{} { return docx.Underline{Val: a[0]} }, 3},
		{"Highlight", "Highlight", one, func(r *docx.Run, a []string) *docx.Run { return r.Highlight(a[0]) }, nil, func(a []string) interface{} { return docx.Highlight{Val: a[0]} }, 3},
		{"Shade", "Shade", tuples16(3, "A", "", "B", "auto"), func(r *docx.Run, a []string) *docx.Run { return r.Shade(a[0], a[1], a[2]) }, nil, func(a []string) interface{} { return docx.Shade{Val: a[0], Color: a[1], Fill: a[2]} }, 3},
		{"Font", "Fonts", tuples16(4, "A", "", "B"), func(r *docx.Run, a []string) *docx.Run { return r.Font(a[0], a[1], a[2], a[3]) }, nil, font, 3},
		{"Spacing", "Spacing", ints, func(r *docx.Run, a []string) *docx.Run { return r.Spacing(ints16[a[0]]) }, nil, func(a []string) interface{} { return docx.Spacing{Line: ints16[a[0]]} }, 3},
		{"Strike", "Strike", [][]string{{"true"}, {"false"}}, func(r *docx.Run, a []string) *docx.Run { return r.Strike(a[0] == "true") }, nil, func(a []string) interface{} { return docx.Strike{Val: a[0]} }, 2},
		{"Bold", "Bold", [][]string{{}}, func(r *docx.Run, a []string) *docx.Run { return r.Bold() }, nil, func(a []string) interface{} { return docx.Bold{} }, 1},
		{"Italic", "Italic", [][]string{{}}, func(r *docx.Run, a []string) *docx.Run { return r.Italic() }, nil, func(a []string) interface{} { return docx.Italic{} }, 1},
		{"Justification", "Justification", one, nil, func(p *docx.Paragraph, a []string) *docx.Paragraph { return p.Justification(a[0]) }, func(a []string) interface{} { return docx.Justification{Val: a[0]} }, 3},
		{"Style", "Style", one, nil, func(p *docx.Paragraph, a []string) *docx.Paragraph { return p.Style(a[0]) }, func(a []string) interface{} { return docx.Style{Val: a[0]} }, 3},
		{"NumPr", "NumProperties", tuples16(2, "1", "", "0", "-1", "9"), nil, func(p *docx.Paragraph, a []string) *docx.Paragraph { return p.NumPr(a[0], a[1]) }, func(a []string) interface{} {
			return docx.NumProperties{NumID: &docx.NumID{Val: a[0]}, Ilvl: &docx.Ilevel{Val: a[1]}}
		}, 4},
		{"NumFont", "RunProperties.Fonts", tuples16(4, "A", "", "B"), nil, func(p *docx.Paragraph, a []string) *docx.Paragraph { return p.NumFont(a[0], a[1], a[2], a[3]) }, font, 3},
		{"NumSize", "RunProperties.Size", one, nil, func(p *docx.Paragraph, a []string) *docx.Paragraph { return p.NumSize(a[0]) }, func(a []string) interface{} { return docx.Size{Val: a[0]} }, 3},
	}
}

// origins16 are the states a run (or paragraph) can be in before the calls; each gives a document and the target.
func origins16() map[string]func() (*docx.Docx, *docx.Run, *docx.Paragraph) {
	parse := func(ppr, rpr *Node) func() (*docx.Docx, *docx.Run, *docx.Paragraph) {
		kids := func(n *Node, rest ...*Node) []*Node {
			if n == nil {
				return rest
			}
			return append([]*Node{n}, rest...)
		}
		b := GrammarPackage(DocXML(E("w:body", nil, E("w:p", nil, kids(ppr, E("w:r", nil, kids(rpr, E("w:t", nil, T("x")))...))...))))
		return func() (*docx.Docx, *docx.Run, *docx.Paragraph) {
			d := mustParse(b)
			p := d.Document.Body.Items[0].(*docx.Paragraph)
			return d, p.Children[0].(*docx.Run), p
		}
	}
	var off []*Node
	for _, n := range []string{"w:b", "w:i", "w:strike"} {
		off = append(off, E(n, A("w:val", "0")))
	}
	return map[string]func() (*docx.Docx, *docx.Run, *docx.Paragraph){
		"built": func() (*docx.Docx, *docx.Run, *docx.Paragraph) {
			d := mini(docx.New())
			p := d.AddParagraph()
			return d, p.AddText("x"), p
		},
		"built, nothing in the paragraph": func() (*docx.Docx, *docx.Run, *docx.Paragraph) {
			d := mini(docx.New())
			r := d.AddParagraph().AddText("x")
			return d, r, d.AddParagraph()
		},
		"parsed":     parse(nil, nil),
		"parsed off": parse(E("w:pPr", nil), E("w:rPr", nil, off...)),
		"parsed full": parse(E("w:pPr", nil, E("w:pStyle", A("w:val", "P")), E("w:jc", A("w:val", "both")), E("w:numPr", nil, E("w:ilvl", A("w:val", "7")), E("w:numId", A("w:val", "8"))), E("w:rPr", nil, E("w:rFonts", A("w:ascii", "pa", "w:eastAsia", "pe", "w:hAnsi", "ph", "w:hint", "hi")), E("w:b", nil), E("w:sz", A("w:val", "99")))),
			Full("w:rPr", "w:r", 1)),
		"parsed half": parse(E("w:pPr", nil, E("w:numPr", nil, E("w:numId", A("w:val", "1"))), E("w:rPr", nil, E("w:rFonts", A("w:hint", "hi")))),
			E("w:rPr", nil, E("w:rFonts", A("w:hint", "hi")), E("w:shd", A("w:val", "v")), E("w:spacing", A("w:val", "5")))),
		"parsed numPr without id": parse(E("w:pPr", nil, E("w:numPr", nil, E("w:ilvl", A("w:val", "3")))), E("w:rPr", nil)),
	}
}

// values16: every setter with every tuple of its domain on every origin, every ordered pair of tuples of one setter,
// and every ordered pair (thorough: triple) of calls of all setters with their leading tuples.
func values16(c *Ctx) {
	ss := setters16()
	type call struct{ s, a int }
	exec := func(on string, mk func() (*docx.Docx, *docx.Run, *docx.Paragraph), calls []call, save bool) {
		if c.Failing() {
			return
		}
		var sb strings.Builder
		sb.WriteString("values " + on + ":")
		for _, k := range calls {
			fmt.Fprintf(&sb, " %s%q", ss[k.s].name, ss[k.s].args[k.a])
		}
		rep := sb.String()
		c.Guard("values "+on, rep, func() {
			d, r, p := mk()
			wantR, wantP := fields16(r.RunProperties), fields16(p.Properties)
			for _, k := range calls {
				s, a := ss[k.s], ss[k.s].args[k.a]
				if s.run != nil {
					if s.run(r, a) != r {
						c.Fail("formatting call does not return its receiver: "+s.name, "", rep)
					}
					wantR[s.field] = render16(s.value(a))
				} else {
					if s.para(p, a) != p {
						c.Fail("formatting call does not return its receiver: "+s.name, "", rep)
					}
					wantP[s.field] = render16(s.value(a))
				}
				c.Trans(1)
			}
			cmp := func(what string, r *docx.Run, p *docx.Paragraph) bool {
				if g, w := fmt.Sprint(fields16(r.RunProperties)), fmt.Sprint(wantR); g != w {
					c.Fail(what+": formatting of the run", FirstDiff(w, g), rep)
					return false
				}
				if g, w := fmt.Sprint(fields16(p.Properties)), fmt.Sprint(wantP); g != w {
					c.Fail(what+": formatting of the paragraph", FirstDiff(w, g), rep)
					return false
				}
				return true
			}
			if !cmp("values", r, p) {
				return
			}
			c.Trace()
			if !save {
				return
			}
			c.State(fmt.Sprint(on, wantR, wantP))
			b, err := Save(d)
			if err != nil {
				c.Fail("values: save", err.Error(), rep)
				return
			}
			re, err := tryParse(b)
			c.Trans(2)
			if err != nil {
				c.Fail("values: re-open", err.Error(), rep)
				return
			}
			first, last := re.Document.Body.Items[0].(*docx.Paragraph), re.Document.Body.Items[len(re.Document.Body.Items)-1].(*docx.Paragraph)
			cmp("values after re-opening", first.Children[0].(*docx.Run), last)
		})
	}
	var few []call
	nt := 0
	for i, s := range ss {
		nt += len(s.args)
		for j := 0; j < s.small; j++ {
			few = append(few, call{i, j})
		}
	}
	c.AddExtra("setter argument tuples", nt)
	c.AddExtra("setter calls combined", len(few))
	for on, mk := range origins16() {
		on, mk := on, mk
		built := on == "built"
		for i := range ss {
			n := len(ss[i].args)
			Par(n, func(j int) {
				exec(on, mk, []call{{i, j}}, true)
				for k := 0; k < n && (built || c.Thorough() || j < 40 || k < 40); k++ {
					exec(on, mk, []call{{i, j}, {i, k}}, built && n < 30 || c.Thorough())
				}
			})
		}
		seqs10(len(few), c.Pick(2, 3), func(seq []int) {
			cs := make([]call, len(seq))
			for i, k := range seq {
				cs[i] = few[k]
			}
			exec(on, mk, cs, len(seq) < 3 && (built || c.Thorough()))
		})
	}
}
