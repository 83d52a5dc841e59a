// Package core holds the machinery shared by all checks: an independent
// package/XML reader, canonical forms, the evidence/violation recorder and
// exhaustive enumerators.
package core

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"sort"
	"strings"
	"unicode/utf8"
)

// Namespaces, written from the specification (ECMA-376), not from the code under test.
const (
	NW   = "http://schemas.openxmlformats.org/wordprocessingml/2006/main"
	NR   = "http://schemas.openxmlformats.org/officeDocument/2006/relationships"
	NWP  = "http://schemas.openxmlformats.org/drawingml/2006/wordprocessingDrawing"
	NWPS = "http://schemas.microsoft.com/office/word/2010/wordprocessingShape"
	NWPC = "http://schemas.microsoft.com/office/word/2010/wordprocessingCanvas"
	NWPG = "http://schemas.microsoft.com/office/word/2010/wordprocessingGroup"
	NA   = "http://schemas.openxmlformats.org/drawingml/2006/main"
	NPIC = "http://schemas.openxmlformats.org/drawingml/2006/picture"
	NMC  = "http://schemas.openxmlformats.org/markup-compatibility/2006"
	NREL = "http://schemas.openxmlformats.org/package/2006/relationships"
	NCT  = "http://schemas.openxmlformats.org/package/2006/content-types"
	NXML = "http://www.w3.org/XML/1998/namespace"
)

var nsByPrefix = map[string]string{"w": NW, "r": NR, "wp": NWP, "wps": NWPS, "wpc": NWPC, "wpg": NWPG,
	"a": NA, "pic": NPIC, "mc": NMC, "xml": NXML, "rel": NREL, "ct": NCT}
var prefixByNS = func() map[string]string {
	m := map[string]string{}
	for k, v := range nsByPrefix {
		m[v] = k
	}
	return m
}()

// Attr is one attribute; Name is in the fixed short form ("w:val", "cx", "{uri}local").
type Attr struct{ Name, Value string }

// Node is an element (Name != "") or a text node (Name == "").
type Node struct {
	Name  string
	Attrs []Attr
	Kids  []*Node
	Text  string
}

// E builds an element: attributes are given as "name", "value" pairs.
func E(name string, attrs []string, kids ...*Node) *Node {
	n := &Node{Name: name}
	for i := 0; i+1 < len(attrs); i += 2 {
		n.Attrs = append(n.Attrs, Attr{attrs[i], attrs[i+1]})
	}
	sort.Slice(n.Attrs, func(i, j int) bool { return n.Attrs[i].Name < n.Attrs[j].Name })
	for _, k := range kids {
		if k != nil {
			n.Kids = append(n.Kids, k)
		}
	}
	return n
}

// T builds a text node.
func T(s string) *Node { return &Node{Text: s} }

// A is a shorthand for an attribute list.
func A(kv ...string) []string { return kv }

// Get returns the attribute value.
func (n *Node) Get(name string) (string, bool) {
	for _, a := range n.Attrs {
		if a.Name == name {
			return a.Value, true
		}
	}
	return "", false
}

// Attr returns the attribute value or "".
func (n *Node) Attr(name string) string { v, _ := n.Get(name); return v }

// Set sets or replaces an attribute.
func (n *Node) Set(name, v string) *Node {
	for i := range n.Attrs {
		if n.Attrs[i].Name == name {
			n.Attrs[i].Value = v
			return n
		}
	}
	n.Attrs = append(n.Attrs, Attr{name, v})
	sort.Slice(n.Attrs, func(i, j int) bool { return n.Attrs[i].Name < n.Attrs[j].Name })
	return n
}

// Del removes an attribute.
func (n *Node) Del(name string) *Node {
	for i := range n.Attrs {
		if n.Attrs[i].Name == name {
			n.Attrs = append(append([]Attr{}, n.Attrs[:i]...), n.Attrs[i+1:]...)
			break
		}
	}
	return n
}

// Child returns the first child element of the name, or nil.
func (n *Node) Child(name string) *Node {
	for _, k := range n.Kids {
		if k.Name == name {
			return k
		}
	}
	return nil
}

// Path follows child names.
func (n *Node) Path(names ...string) *Node {
	for _, s := range names {
		if n == nil {
			return nil
		}
		n = n.Child(s)
	}
	return n
}

// Elems returns the child elements (no text).
func (n *Node) Elems() []*Node {
	var r []*Node
	for _, k := range n.Kids {
		if k.Name != "" {
			r = append(r, k)
		}
	}
	return r
}

// All returns all descendants (and n itself) with the name.
func (n *Node) All(name string) []*Node {
	var r []*Node
	n.Walk(func(x *Node) {
		if x.Name == name {
			r = append(r, x)
		}
	})
	return r
}

// Walk visits n and all descendant elements.
func (n *Node) Walk(f func(*Node)) {
	if n.Name != "" {
		f(n)
	}
	for _, k := range n.Kids {
		k.Walk(f)
	}
}

// Content is the concatenated text of n and its descendants.
func (n *Node) Content() string {
	if n.Name == "" {
		return n.Text
	}
	var sb strings.Builder
	for _, k := range n.Kids {
		sb.WriteString(k.Content())
	}
	return sb.String()
}

// Clone makes a deep copy.
func (n *Node) Clone() *Node {
	c := &Node{Name: n.Name, Text: n.Text, Attrs: append([]Attr(nil), n.Attrs...)}
	for _, k := range n.Kids {
		c.Kids = append(c.Kids, k.Clone())
	}
	return c
}

func esc(s string) string {
	var sb strings.Builder
	for _, r := range s {
		switch r {
		case '&':
			sb.WriteString("&amp;")
		case '<':
			sb.WriteString("&lt;")
		case '>':
			sb.WriteString("&gt;")
		case '"':
			sb.WriteString("&quot;")
		case '\n':
			sb.WriteString("&#10;")
		case '\t':
			sb.WriteString("&#9;")
		case '\r':
			sb.WriteString("&#13;")
		default:
			sb.WriteRune(r)
		}
	}
	return sb.String()
}

// String is the canonical rendering (also valid XML when the usual prefixes are bound).
func (n *Node) String() string {
	var sb strings.Builder
	n.write(&sb)
	return sb.String()
}

func (n *Node) write(sb *strings.Builder) {
	if n.Name == "" {
		sb.WriteString(esc(n.Text))
		return
	}
	if n.Name == "#raw" {
		sb.WriteString(n.Text)
		return
	}
	sb.WriteByte('<')
	sb.WriteString(n.Name)
	for _, a := range n.Attrs {
		sb.WriteByte(' ')
		sb.WriteString(a.Name)
		sb.WriteString(`="`)
		sb.WriteString(esc(a.Value))
		sb.WriteByte('"')
	}
	if len(n.Kids) == 0 {
		sb.WriteString("/>")
		return
	}
	sb.WriteByte('>')
	for _, k := range n.Kids {
		k.write(sb)
	}
	sb.WriteString("</")
	sb.WriteString(n.Name)
	sb.WriteByte('>')
}

// RootNS is the list of namespace declarations that make Node.String() parseable.
func RootNS() string {
	var ks []string
	for p := range nsByPrefix {
		if p != "xml" && p != "rel" && p != "ct" {
			ks = append(ks, p)
		}
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, p := range ks {
		fmt.Fprintf(&sb, ` xmlns:%s="%s"`, p, nsByPrefix[p])
	}
	return sb.String()
}

// DocXML renders a w:document root with all prefixes declared on it.
func DocXML(body *Node) string {
	return xml.Header + "<w:document" + RootNS() + ">" + body.String() + "</w:document>"
}

// ParseXML parses a part strictly: every prefix bound, no duplicate attributes,
// matching tags, one root, valid UTF-8. Comments and PIs are dropped; white space
// is kept.
func ParseXML(data []byte) (*Node, error) {
	if !utf8.Valid(data) {
		return nil, fmt.Errorf("invalid UTF-8")
	}
	d := xml.NewDecoder(bytes.NewReader(data))
	type frame struct {
		n   *Node
		raw xml.Name
		ns  map[string]string
	}
	var stack []frame
	var root *Node
	lookup := func(p string) (string, bool) {
		if p == "xml" {
			return NXML, true
		}
		for i := len(stack) - 1; i >= 0; i-- {
			if v, ok := stack[i].ns[p]; ok {
				return v, v != "" || p == ""
			}
		}
		return "", p == ""
	}
	short := func(uri, local string) string {
		if uri == "" {
			return local
		}
		if p, ok := prefixByNS[uri]; ok {
			return p + ":" + local
		}
		return "{" + uri + "}" + local
	}
	for {
		t, err := d.RawToken()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		switch tt := t.(type) {
		case xml.StartElement:
			if len(stack) == 0 && root != nil {
				return nil, fmt.Errorf("second root element <%s>", tt.Name.Local)
			}
			n := &Node{}
			fr := frame{n: n, raw: tt.Name, ns: map[string]string{}}
			for _, a := range tt.Attr {
				if a.Name.Space == "xmlns" {
					if _, dup := fr.ns[a.Name.Local]; dup {
						return nil, fmt.Errorf("duplicate xmlns:%s", a.Name.Local)
					}
					if a.Value == "" {
						return nil, fmt.Errorf("empty xmlns:%s", a.Name.Local)
					}
					fr.ns[a.Name.Local] = a.Value
				} else if a.Name.Space == "" && a.Name.Local == "xmlns" {
					if _, dup := fr.ns[""]; dup {
						return nil, fmt.Errorf("duplicate xmlns")
					}
					fr.ns[""] = a.Value
				}
			}
			stack = append(stack, fr)
			uri, ok := lookup(tt.Name.Space)
			if !ok {
				return nil, fmt.Errorf("unbound prefix %q in element <%s:%s>", tt.Name.Space, tt.Name.Space, tt.Name.Local)
			}
			n.Name = short(uri, tt.Name.Local)
			seen := map[string]bool{}
			for _, a := range tt.Attr {
				if a.Name.Space == "xmlns" || (a.Name.Space == "" && a.Name.Local == "xmlns") {
					continue
				}
				au := ""
				if a.Name.Space != "" {
					au, ok = lookup(a.Name.Space)
					if !ok {
						return nil, fmt.Errorf("unbound prefix %q in attribute %s:%s of <%s>", a.Name.Space, a.Name.Space, a.Name.Local, n.Name)
					}
				}
				nm := short(au, a.Name.Local)
				if seen[nm] {
					return nil, fmt.Errorf("duplicate attribute %s of <%s>", nm, n.Name)
				}
				seen[nm] = true
				n.Attrs = append(n.Attrs, Attr{nm, a.Value})
			}
			sort.Slice(n.Attrs, func(i, j int) bool { return n.Attrs[i].Name < n.Attrs[j].Name })
			if len(stack) == 1 {
				root = n
			} else {
				p := stack[len(stack)-2].n
				p.Kids = append(p.Kids, n)
			}
		case xml.EndElement:
			if len(stack) == 0 || stack[len(stack)-1].raw != tt.Name {
				return nil, fmt.Errorf("mismatched end tag </%s>", tt.Name.Local)
			}
			stack = stack[:len(stack)-1]
		case xml.CharData:
			if len(stack) == 0 {
				if len(bytes.TrimSpace(tt)) != 0 {
					return nil, fmt.Errorf("text outside root")
				}
				continue
			}
			p := stack[len(stack)-1].n
			if k := len(p.Kids); k > 0 && p.Kids[k-1].Name == "" {
				p.Kids[k-1].Text += string(tt)
			} else if len(tt) > 0 {
				p.Kids = append(p.Kids, T(string(tt)))
			}
		}
	}
	if len(stack) != 0 {
		return nil, fmt.Errorf("unexpected end inside <%s>", stack[len(stack)-1].n.Name)
	}
	if root == nil {
		return nil, fmt.Errorf("no root element")
	}
	return root, nil
}

// Diff is one difference between an expected and an actual tree.
type Diff struct {
	Kind string // attr-lost attr-added attr-changed elem text
	Path string // element path from the root, without indexes
	What string // attribute name / element names
	Want string
	Got  string
}

func (d Diff) String() string {
	return fmt.Sprintf("%s at %s %s: want %q got %q", d.Kind, d.Path, d.What, d.Want, d.Got)
}

// DiffTree lists the differences (stops descending where children lists disagree).
func DiffTree(want, got *Node) []Diff {
	var out []Diff
	diffNode(want, got, "", &out)
	return out
}

func kidNames(n *Node) string {
	var s []string
	for _, k := range n.Kids {
		if k.Name == "" {
			s = append(s, "#text")
		} else {
			s = append(s, k.Name)
		}
	}
	return strings.Join(s, " ")
}

func diffNode(w, g *Node, path string, out *[]Diff) {
	if w.Name != g.Name {
		*out = append(*out, Diff{"elem", path, "name", w.Name, g.Name})
		return
	}
	if w.Name == "" {
		if w.Text != g.Text {
			*out = append(*out, Diff{"text", path, "", w.Text, g.Text})
		}
		return
	}
	p := path + "/" + w.Name
	for _, a := range w.Attrs {
		v, ok := g.Get(a.Name)
		if !ok {
			*out = append(*out, Diff{"attr-lost", p, a.Name, a.Value, ""})
		} else if v != a.Value {
			*out = append(*out, Diff{"attr-changed", p, a.Name, a.Value, v})
		}
	}
	for _, a := range g.Attrs {
		if _, ok := w.Get(a.Name); !ok {
			*out = append(*out, Diff{"attr-added", p, a.Name, "", a.Value})
		}
	}
	kw, kg := kidNames(w), kidNames(g)
	if kw != kg {
		*out = append(*out, Diff{"children", p, "", trunc(kw, 400), trunc(kg, 400)})
		return
	}
	for i := range w.Kids {
		diffNode(w.Kids[i], g.Kids[i], p, out)
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}
