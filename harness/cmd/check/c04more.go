package main

import (
	"fmt"
	"strings"

	docx "github.com/fumiama/go-docx"

	. "verif/harness/core"
)

// consistent04 saves a document, reports what is inconsistent, and returns the bytes.
func consistent04(c *Ctx, what string, d *docx.Docx, rep string) ([]byte, *Pkg) {
	b, err := Save(d)
	if err != nil {
		c.Fail(what+": save", err.Error(), rep)
		return nil, nil
	}
	p, bad := Consistent(b)
	for _, s := range bad {
		c.Fail(what+": "+classOf(s), s, rep)
	}
	c.Trans(1)
	c.Eval()
	if p == nil || len(bad) > 0 {
		return nil, nil
	}
	return b, p
}

// derived04 checks what comes of a document: itself, read again, appended to another, split, loaded anew.
func derived04(c *Ctx, what string, mk func() *docx.Docx, rep string, full bool) {
	b, _ := consistent04(c, what, mk(), rep)
	if b == nil {
		return
	}
	c.Trace()
	re, err := tryParse(b)
	if err != nil {
		c.Fail(what+": re-open", err.Error(), rep)
		return
	}
	consistent04(c, what+", re-opened", re, rep)
	if !full {
		return
	}
	d := docx.New().WithDefaultTheme()
	d.AddParagraph().AddLink("x", "http://x/")
	d.AppendFile(mk())
	consistent04(c, what+", appended", d, rep)
	d.AppendFile(re)
	consistent04(c, what+", appended twice", d, rep)
	for i, p := range mk().SplitByParagraph(func(*docx.Paragraph) bool { return true }) {
		consistent04(c, what+", piece", p, fmt.Sprint(rep, " piece ", i))
	}
	src := mk()
	consistent04(c, what+", appended to itself read again", func() *docx.Docx { src.AppendFile(re); return src }(), rep)
}

// targets04: links to every usual form of target; the relationships of a package are the same after it was read and saved.
func targets04(c *Ctx) {
	us := append(append(append([]string{}, URLs...), Puncts...), Words...)
	const per = 20
	n := (len(us) + per - 1) / per
	Par(2*n, func(k int) {
		part := us[k/2*per:]
		if len(part) > per {
			part = part[:per]
		}
		rep := fmt.Sprintf("targets %q, way %d", part, k%2)
		c.State(rep)
		c.Guard("targets", rep, func() {
			if k%2 == 0 {
				derived04(c, "targets", func() *docx.Docx {
					d := docx.New().WithDefaultTheme()
					p := d.AddParagraph()
					for _, u := range part {
						p.AddLink("l", u)
					}
					return d
				}, rep, true)
				return
			}
			rs := BaseRels()
			var hs []*Node
			for i, u := range part {
				id := fmt.Sprint("rId", 20+i)
				rs = append(rs, Rel{id, RelLink, u, "External"})
				hs = append(hs, E("w:hyperlink", A("r:id", id), E("w:r", nil, E("w:t", nil, T("l")))))
			}
			in := MiniPackage(DocXML(E("w:body", nil, E("w:p", nil, hs...))), RelsXML(rs...))
			derived04(c, "parsed targets", func() *docx.Docx { return mustParse(in) }, rep, true)
			if _, p := consistent04(c, "parsed targets", mustParse(in), rep); p != nil && fmt.Sprint(p.Rels) != fmt.Sprint(rs) {
				c.Fail("parsed targets: relationships changed", FirstDiff(fmt.Sprint(rs), fmt.Sprint(p.Rels)), rep)
			}
		})
	})
}

// types04: packages that declare any subset of image types, with and without a medium that has its own type, to which
// pictures of every type are added.
func types04(c *Ctx) {
	exts := []string{"png", "jpeg", "jpg", "gif", "PNG", "Jpeg", "svg"}
	kinds := []string{"png", "jpeg", "gif"}
	Par(1<<len(exts), func(set int) {
		var ct strings.Builder
		ct.WriteString(`<?xml version="1.0" encoding="UTF-8"?><Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types"><Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/><Default Extension="xml" ContentType="application/xml"/>`)
		seen := map[string]bool{}
		for i, e := range exts {
			if set>>i&1 == 1 {
				if seen[strings.ToLower(e)] {
					return
				}
				seen[strings.ToLower(e)] = true
				fmt.Fprintf(&ct, `<Default Extension="%s" ContentType="image/%s"/>`, e, strings.ToLower(e))
			}
		}
		for own := 0; own < 2; own++ {
			tail := ""
			var more []ZipEntry
			if own == 1 {
				tail = `<Override PartName="/word/media/own.png" ContentType="image/png"/>`
				more = append(more, ZipEntry{Name: "word/media/own.png", Data: Img("png", 1, 1, 3)})
			}
			text := ct.String() + tail + "</Types>"
			in := retyped(MiniPackage(DocXML(E("w:body", nil, E("w:p", nil))), RelsXML(BaseRels()...), more...), text)
			for pics := 0; pics < 1<<len(kinds); pics++ {
				rep := fmt.Sprintf("content types %s, pictures %b of %v", text, pics, kinds)
				c.State(rep)
				c.Guard("types", rep, func() {
					mk := func() *docx.Docx {
						d := mustParse(in)
						p := d.AddParagraph()
						for i, k := range kinds {
							if pics>>i&1 == 1 {
								if _, err := p.AddInlineDrawing(Img(k, 1, 1, i)); err != nil {
									c.Fail("types: picture refused", err.Error(), rep)
								}
							}
						}
						return d
					}
					b, p := consistent04(c, "types", mk(), rep)
					if b == nil {
						return
					}
					types, err := ReadContentTypes(p.Parts["[Content_Types].xml"])
					if err != nil {
						return
					}
					for _, n := range p.Names {
						if t := types.Of(n); strings.HasPrefix(n, "word/media/image") && !strings.HasSuffix(n, strings.TrimPrefix(t, "image/")) {
							c.Fail("types: picture of another type", n+" is "+t, rep)
						}
					}
					c.Trace()
					re := mustParse(b)
					consistent04(c, "types, re-opened", re, rep)
					re.AppendFile(mk())
					consistent04(c, "types, appended", re, rep)
				})
			}
		}
	})
}

// retyped replaces the content types of a package.
func retyped(pkg []byte, ct string) []byte {
	names, parts, err := ReadZip(pkg)
	if err != nil {
		panic(err)
	}
	var es []ZipEntry
	for _, n := range names {
		b := parts[n]
		if n == "[Content_Types].xml" {
			b = []byte(ct)
		}
		es = append(es, ZipEntry{Name: n, Data: b})
	}
	return BuildZip(es, false)
}

// docs04: documents over the whole vocabulary.
func docs04(c *Ctx) {
	docs := append(vocabDocs(3), manyDocs([]int{3, 17, 130}, 64)...)
	docs = append(docs, pairDocs(false, func(a, b Feature) bool {
		return c.Thorough() || (a.Below("a:blip") || a.Below("w:hyperlink")) && (b.Below("a:blip") || b.Below("w:hyperlink") || b.Below("w:tbl"))
	})...)
	c.AddExtra("documents over the vocabulary", len(docs))
	others := otherParts()
	c.AddExtra("sets of other parts", len(others))
	Par(len(others), func(i int) {
		in := GrammarPackage(DocXML(E("w:body", nil, E("w:p", nil, E("w:hyperlink", A("r:id", "rId4"), E("w:r", nil, E("w:t", nil, T("b"))))), E("w:p", nil))), others[i]...)
		rep := fmt.Sprintf("a package that also has %d parts like %s", len(others[i])-1, others[i][0].Name)
		c.State(rep)
		c.Guard("other parts", rep, func() { derived04(c, "other parts", func() *docx.Docx { return mustParse(in) }, rep, true) })
	})
	Par(len(docs), func(i int) {
		rep := docs[i].name + " :: " + docs[i].body.String()
		c.State(rep)
		in := GrammarPackage(DocXML(docs[i].body))
		c.Guard("vocabulary", rep, func() {
			derived04(c, "vocabulary", func() *docx.Docx { return mustParse(in) }, rep, strings.Contains(rep, "r:id=") || strings.Contains(rep, "r:embed=") || i%8 == 0)
		})
	})
}
