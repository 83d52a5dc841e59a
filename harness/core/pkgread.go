package core

import (
	"archive/zip"
	"bytes"
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"io"
	"path"
	"sort"
	"strings"
)

// Rel is one relationship as read from a saved package.
type Rel struct{ ID, Type, Target, Mode string }

// Pkg is a saved package as an independent reader sees it.
type Pkg struct {
	Names []string // in directory order
	Parts map[string][]byte
	Doc   *Node // root of word/document.xml
	Rels  []Rel // word/_rels/document.xml.rels
	relBy map[string]Rel
}

// ReadZip reads every entry, refusing duplicates and checking checksums.
func ReadZip(data []byte) ([]string, map[string][]byte, error) {
	zr, err := zip.NewReader(bytes.NewReader(data), int64(len(data)))
	if err != nil {
		return nil, nil, err
	}
	var names []string
	parts := map[string][]byte{}
	for _, f := range zr.File {
		if _, dup := parts[f.Name]; dup {
			return nil, nil, fmt.Errorf("duplicate part %q", f.Name)
		}
		r, err := f.Open()
		if err != nil {
			return nil, nil, fmt.Errorf("part %q: %w", f.Name, err)
		}
		b, err := io.ReadAll(r)
		r.Close()
		if err != nil {
			return nil, nil, fmt.Errorf("part %q: %w", f.Name, err)
		}
		names = append(names, f.Name)
		parts[f.Name] = b
	}
	return names, parts, nil
}

// ParseRels reads a relationships part.
func ParseRels(b []byte) ([]Rel, error) {
	n, err := ParseXML(b)
	if err != nil {
		return nil, err
	}
	if n.Name != "rel:Relationships" && n.Name != "r:Relationships" {
		return nil, fmt.Errorf("relationships root is %s", n.Name)
	}
	var out []Rel
	for _, k := range n.Elems() {
		if !strings.HasSuffix(k.Name, ":Relationship") {
			return nil, fmt.Errorf("unexpected %s in relationships", k.Name)
		}
		out = append(out, Rel{k.Attr("Id"), k.Attr("Type"), k.Attr("Target"), k.Attr("TargetMode")})
	}
	return out, nil
}

// ReadPkg reads a saved package; document and relationships must be present and well-formed.
func ReadPkg(data []byte) (*Pkg, error) {
	names, parts, err := ReadZip(data)
	if err != nil {
		return nil, err
	}
	p := &Pkg{Names: names, Parts: parts, relBy: map[string]Rel{}}
	d, ok := parts["word/document.xml"]
	if !ok {
		return nil, fmt.Errorf("no word/document.xml")
	}
	if p.Doc, err = ParseXML(d); err != nil {
		return nil, fmt.Errorf("word/document.xml: %w", err)
	}
	if p.Doc.Name != "w:document" {
		return nil, fmt.Errorf("document root is %s", p.Doc.Name)
	}
	rl, ok := parts["word/_rels/document.xml.rels"]
	if !ok {
		return nil, fmt.Errorf("no word/_rels/document.xml.rels")
	}
	if p.Rels, err = ParseRels(rl); err != nil {
		return nil, fmt.Errorf("word/_rels/document.xml.rels: %w", err)
	}
	for _, r := range p.Rels {
		if _, dup := p.relBy[r.ID]; dup {
			return nil, fmt.Errorf("duplicate relationship id %q", r.ID)
		}
		p.relBy[r.ID] = r
	}
	return p, nil
}

// Body returns the w:body element.
func (p *Pkg) Body() *Node {
	if b := p.Doc.Child("w:body"); b != nil {
		return b
	}
	return E("w:body", nil)
}

// Rel looks a relationship up.
func (p *Pkg) Rel(id string) (Rel, bool) { r, ok := p.relBy[id]; return r, ok }

// TargetPart resolves an internal target of the document part to a part name.
func TargetPart(target string) string {
	if strings.HasPrefix(target, "/") {
		return path.Clean(target[1:])
	}
	return path.Clean("word/" + target)
}

// Sum is a short content hash.
func Sum(b []byte) string { h := sha1.Sum(b); return hex.EncodeToString(h[:8]) }

// Resolve describes what a relationship id denotes in this package.
func (p *Pkg) Resolve(id string) string {
	r, ok := p.relBy[id]
	if !ok {
		return "DANGLING"
	}
	ty := r.Type[strings.LastIndex(r.Type, "/")+1:]
	if r.Mode == "External" {
		return ty + "=>" + r.Target
	}
	b, ok := p.Parts[TargetPart(r.Target)]
	if !ok {
		return ty + "=>MISSING " + r.Target
	}
	return ty + ":" + path.Ext(r.Target) + ":" + Sum(b)
}

// CanonOpts selects what is abstracted away.
type CanonOpts struct {
	DrawIDs bool // replace docPr/cNvPr ids (and generated names) by placeholders
}

// Canon returns a copy of the tree under n with references replaced by what they denote.
func (p *Pkg) Canon(n *Node, o CanonOpts) *Node {
	c := n.Clone()
	c.Walk(func(x *Node) {
		for i := range x.Attrs {
			if strings.HasPrefix(x.Attrs[i].Name, "r:") {
				x.Attrs[i].Value = p.Resolve(x.Attrs[i].Value)
			}
		}
		if o.DrawIDs {
			switch x.Name {
			case "wp:docPr", "pic:cNvPr":
				if _, ok := x.Get("id"); ok {
					x.Set("id", "#")
				}
				if nm, ok := x.Get("name"); ok {
					if i := strings.LastIndexByte(nm, ' '); i >= 0 {
						x.Set("name", nm[:i]+" #")
					}
				}
			}
		}
	})
	return c
}

// PartsSummary lists part names and content hashes (sorted).
func (p *Pkg) PartsSummary() string {
	var s []string
	for n, b := range p.Parts {
		s = append(s, n+":"+Sum(b))
	}
	sort.Strings(s)
	return strings.Join(s, "\n")
}

// ContentTypes answers content types of part names from [Content_Types].xml.
type ContentTypes struct {
	Default  map[string]string
	Override map[string]string
}

// ReadContentTypes parses [Content_Types].xml.
func ReadContentTypes(b []byte) (*ContentTypes, error) {
	n, err := ParseXML(b)
	if err != nil {
		return nil, err
	}
	c := &ContentTypes{map[string]string{}, map[string]string{}}
	for _, k := range n.Elems() {
		switch k.Name {
		case "ct:Default":
			e := strings.ToLower(k.Attr("Extension"))
			if _, dup := c.Default[e]; dup {
				return nil, fmt.Errorf("duplicate Default for %q", e)
			}
			c.Default[e] = k.Attr("ContentType")
		case "ct:Override":
			e := strings.ToLower(k.Attr("PartName"))
			if _, dup := c.Override[e]; dup {
				return nil, fmt.Errorf("duplicate Override for %q", e)
			}
			c.Override[e] = k.Attr("ContentType")
		}
	}
	return c, nil
}

// Of returns the content type of a part name ("word/x.xml").
func (c *ContentTypes) Of(part string) string {
	if t, ok := c.Override["/"+strings.ToLower(part)]; ok {
		return t
	}
	return c.Default[strings.ToLower(strings.TrimPrefix(path.Ext(part), "."))]
}

// Consistent checks the C04 invariants of a saved package. needCT: [Content_Types].xml is present.
func Consistent(data []byte) (*Pkg, []string) {
	var bad []string
	p, err := ReadPkg(data)
	if err != nil {
		return nil, []string{err.Error()}
	}
	for _, n := range p.Names {
		if strings.HasSuffix(n, "/") || strings.Contains(n, "\\") || strings.HasPrefix(n, "/") || n != path.Clean(n) {
			bad = append(bad, "bad part name "+n)
		}
	}
	for _, r := range p.Rels {
		if r.ID == "" || r.Type == "" {
			bad = append(bad, fmt.Sprintf("incomplete relationship %+v", r))
		}
		if r.Mode != "External" {
			if _, ok := p.Parts[TargetPart(r.Target)]; !ok {
				bad = append(bad, fmt.Sprintf("relationship %s targets missing part %s", r.ID, r.Target))
			}
		}
	}
	p.Doc.Walk(func(x *Node) {
		for _, a := range x.Attrs {
			if !strings.HasPrefix(a.Name, "r:") {
				continue
			}
			r, ok := p.Rel(a.Value)
			if !ok {
				bad = append(bad, fmt.Sprintf("%s %s=%q does not resolve", x.Name, a.Name, a.Value))
				continue
			}
			want := ""
			switch {
			case x.Name == "w:hyperlink" && a.Name == "r:id":
				want = "/hyperlink"
			case a.Name == "r:embed":
				want = "/image"
			}
			if want != "" && !strings.HasSuffix(r.Type, want) {
				bad = append(bad, fmt.Sprintf("%s %s=%q resolves to a %s", x.Name, a.Name, a.Value, r.Type))
			}
		}
	})
	ctb, ok := p.Parts["[Content_Types].xml"]
	if !ok {
		bad = append(bad, "no [Content_Types].xml")
		return p, bad
	}
	ct, err := ReadContentTypes(ctb)
	if err != nil {
		bad = append(bad, "[Content_Types].xml: "+err.Error())
		return p, bad
	}
	for _, n := range p.Names {
		if n == "[Content_Types].xml" {
			continue
		}
		if ct.Of(n) == "" {
			bad = append(bad, "no content type for part "+n)
		}
	}
	return p, bad
}

// ZipEntry is one entry for BuildZip.
type ZipEntry struct {
	Name string
	Data []byte
}

// BuildZip writes a package. store: no compression.
func BuildZip(entries []ZipEntry, store bool) []byte {
	var buf bytes.Buffer
	zw := zip.NewWriter(&buf)
	for _, e := range entries {
		h := &zip.FileHeader{Name: e.Name, Method: zip.Deflate}
		if store {
			h.Method = zip.Store
		}
		w, err := zw.CreateHeader(h)
		if err != nil {
			panic(err)
		}
		if strings.HasSuffix(e.Name, "/") {
			continue
		}
		if _, err = w.Write(e.Data); err != nil {
			panic(err)
		}
	}
	if err := zw.Close(); err != nil {
		panic(err)
	}
	return buf.Bytes()
}
