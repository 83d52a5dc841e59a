package core

import (
	"sort"
	"strings"
)

// Abs maps a body (of a saved package, or an expected one) to its semantic form:
// references resolved, drawings reduced to what they show, property order and
// explicit zeros and empty property containers ignored, text under
// WordprocessingML white-space rules.
func (p *Pkg) Abs() []*Node {
	var out []*Node
	for _, k := range p.Canon(p.Body(), CanonOpts{}).Kids {
		if a := absNode(k, false); a != nil {
			out = append(out, a)
		}
	}
	return out
}

// AbsNodes normalises expected nodes written by hand.
func AbsNodes(ns []*Node) []*Node {
	var out []*Node
	for _, k := range ns {
		if a := absNode(k.Clone(), false); a != nil {
			out = append(out, a)
		}
	}
	return out
}

var dropIfEmpty = map[string]bool{"w:rPr": true, "w:pPr": true, "w:trPr": true, "w:tcPr": true, "w:tblPr": true, "w:tblGrid": true}
var unordered = map[string]bool{"w:rPr": true, "w:pPr": true, "w:trPr": true, "w:tcPr": true, "w:tblPr": true, "w:sectPr": true,
	"w:tblBorders": true, "w:tcBorders": true}

func isSpace(s string) bool { return strings.Trim(s, " \t\r\n") == "" }

func absNode(n *Node, keepText bool) *Node {
	if n.Name == "" {
		if !keepText && isSpace(n.Text) {
			return nil
		}
		return T(n.Text)
	}
	switch n.Name {
	case "w:drawing":
		return absDrawing(n)
	case "w:hyperlink":
		l := &Node{Name: "link"}
		txt := ""
		for _, k := range n.Kids {
			if k.Name == "w:r" {
				for _, c := range k.Kids {
					switch c.Name {
					case "w:rPr":
						if a := absNode(c, false); a != nil {
							l.Kids = append(l.Kids, a)
						}
					case "w:instrText", "w:t":
						txt += c.Content()
					default:
						if a := absNode(c, false); a != nil {
							l.Kids = append(l.Kids, a)
						}
					}
				}
				continue
			}
			if a := absNode(k, false); a != nil {
				l.Kids = append(l.Kids, a)
			}
		}
		l.Attrs = []Attr{{"text", txt}, {"to", n.Attr("r:id")}}
		return l
	case "w:t":
		s := n.Content()
		if n.Attr("xml:space") != "preserve" {
			s = strings.Trim(s, " \t\r\n")
		}
		return E("w:t", nil, T(s))
	}
	o := &Node{Name: n.Name}
	for _, a := range n.Attrs {
		if a.Value == "0" && a.Name != "w:val" {
			continue
		}
		o.Attrs = append(o.Attrs, a)
	}
	kt := n.Name == "wp:posOffset" || n.Name == "w:instrText"
	for _, k := range n.Kids {
		if a := absNode(k, kt); a != nil {
			o.Kids = append(o.Kids, a)
		}
	}
	if unordered[o.Name] {
		sort.SliceStable(o.Kids, func(i, j int) bool { return o.Kids[i].Name < o.Kids[j].Name })
	}
	if dropIfEmpty[o.Name] && len(o.Kids) == 0 && len(o.Attrs) == 0 {
		return nil
	}
	return o
}

func absDrawing(n *Node) *Node {
	d := &Node{Name: "drawing"}
	for _, f := range n.Elems() {
		kind := strings.TrimPrefix(f.Name, "wp:")
		fr := E("frame", A("kind", kind))
		if e := f.Child("wp:extent"); e != nil {
			fr.Set("cx", e.Attr("cx")).Set("cy", e.Attr("cy"))
		}
		gd := f.Path("a:graphic", "a:graphicData")
		if gd == nil {
			d.Kids = append(d.Kids, fr)
			continue
		}
		for _, c := range gd.Elems() {
			switch c.Name {
			case "pic:pic":
				p := E("pic", nil)
				if b := c.Path("pic:blipFill", "a:blip"); b != nil {
					p.Set("of", b.Attr("r:embed"))
				}
				if x := c.Path("pic:spPr", "a:xfrm", "a:ext"); x != nil {
					p.Set("cx", x.Attr("cx")).Set("cy", x.Attr("cy"))
				}
				if g := c.Path("pic:spPr", "a:prstGeom"); g != nil {
					p.Set("prst", g.Attr("prst"))
				}
				fr.Kids = append(fr.Kids, p)
			default:
				cc := absNode(c, false)
				if dp := f.Child("wp:docPr"); dp != nil && c.Name == "wps:wsp" {
					// the name a shape was given, without the number added to it
					nm := strings.TrimRight(dp.Attr("name"), "0123456789")
					fr.Set("name", nm)
				}
				cc.Walk(func(x *Node) {
					if strings.HasSuffix(x.Name, ":cNvPr") {
						x.Del("id")
					}
				})
				fr.Kids = append(fr.Kids, cc)
			}
		}
		d.Kids = append(d.Kids, fr)
	}
	return d
}

// Render joins nodes one per line.
func Render(ns []*Node) string {
	var sb strings.Builder
	for _, n := range ns {
		n.write(&sb)
		sb.WriteByte('\n')
	}
	return sb.String()
}

// FirstDiff describes the first difference of two renderings.
func FirstDiff(want, got string) string {
	w, g := strings.Split(want, "\n"), strings.Split(got, "\n")
	for i := 0; i < len(w) || i < len(g); i++ {
		a, b := "<end>", "<end>"
		if i < len(w) {
			a = w[i]
		}
		if i < len(g) {
			b = g[i]
		}
		if a != b {
			k := 0
			for k < len(a) && k < len(b) && a[k] == b[k] {
				k++
			}
			if k > 80 {
				return "line " + itoa(i) + " col " + itoa(k) + ": want …" + trunc(a[k-60:], 300) + " | got …" + trunc(b[k-60:], 300)
			}
			return "line " + itoa(i) + ": want " + trunc(a, 400) + " | got " + trunc(b, 400)
		}
	}
	return ""
}
