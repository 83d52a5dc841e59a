package main

import (
	"archive/zip"
	"bytes"
	"fmt"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing/fstest"

	docx "github.com/fumiama/go-docx"

	. "verif/harness/core"
)

func init() { checks["C18"] = check{"model_checking", runC18} }

// extra18 are the parts added to packages: every name and size class.
func extra18() []ZipEntry {
	rng := rand.New(rand.NewSource(18)) // only for incompressible contents
	noise := make([]byte, 70001)
	rng.Read(noise)
	return []ZipEntry{
		{"word/numbering.xml", []byte("<?xml version=\"1.0\"?>\r\n<w:numbering   a='1'/>\n")},
		{"word/header1.xml", []byte{}},
		{"word/_rels/header1.xml.rels", []byte("not xml at all \x00\xff")},
		{"customXml/item 1.xml", bytes.Repeat([]byte("A"), 70000)},
		{"word/embeddings/größe.bin", noise},
		{"word/document.xml.bak", []byte("<w:document/>")},
		{"word/media2.png", []byte("m")},
		{"word/media/unused.dat", noise[:100]},
		{"word/glossary/document.xml", []byte("<w:glossary/>")},
		{"docProps/thumbnail.jpeg", noise[100:300]},
		{"word/_rels/document.xml.rels.old", []byte("x")},
		{"x", []byte("\n")},
	}
}

func parts18(b []byte) (map[string][]byte, error) {
	_, p, err := ReadZip(b)
	return p, err
}

// ctKept tells what is wrong with content types that differ from the old ones:
// only defaults for the extensions of media that had no type may be new.
func ctKept(old, now []byte, parts map[string][]byte) string {
	a, err1 := ReadContentTypes(old)
	b, err2 := ReadContentTypes(now)
	if err1 != nil || err2 != nil {
		return fmt.Sprint("unreadable: ", err1, err2)
	}
	missing := map[string]bool{}
	for n := range parts {
		if strings.HasPrefix(n, "word/media/") && a.Of(n) == "" {
			missing[strings.ToLower(n[strings.LastIndexByte(n, '.')+1:])] = true
		}
		if w := a.Of(n); w != "" && b.Of(n) != w {
			return "type of " + n + " changed"
		}
	}
	for _, n := range []string{"word/document.xml", "a.xml", "b.rels", "c.png", "d.jpeg", "e.gif", "f.bin"} {
		ext := n[strings.LastIndexByte(n, '.')+1:]
		if b.Of(n) != a.Of(n) && !missing[ext] {
			return "type of " + n + " changed without need"
		}
	}
	if len(missing) == 0 {
		return "changed without need"
	}
	return ""
}

func runC18(c *Ctx) {
	c.Rule = "every subset of the extra parts x every placement of the main parts x storage; every sequence of template choices up to the length; every part is compared byte by byte"
	ex := extra18()
	_, tn, tf := MiniTemplate()
	var base []ZipEntry
	for _, n := range tn {
		b, _ := fs.ReadFile(tf, "xml/mini/"+n)
		base = append(base, ZipEntry{n, b})
	}
	main := []ZipEntry{
		{docPart, []byte(DocXML(E("w:body", nil, E("w:p", nil, E("w:r", nil, E("w:t", nil, T("t")))))))},
		{relsPart, []byte(RelsXML(GrammarRels()...))},
	}
	main = append(main, GrammarMedia()...)
	order := func(k int, es []ZipEntry) []ZipEntry {
		out := append([]ZipEntry{}, main...)
		switch k {
		case 0: // main parts first
			return append(out, append(append([]ZipEntry{}, base...), es...)...)
		case 1: // last
			return append(append(append([]ZipEntry{}, es...), base...), out...)
		case 2: // in between, reversed
			out = append(append(append([]ZipEntry{}, base...), out...), es...)
			for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
				out[i], out[j] = out[j], out[i]
			}
			return out
		default: // sorted
			out = append(append(append([]ZipEntry{}, base...), out...), es...)
			sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
			return out
		}
	}
	compare := func(got, in map[string][]byte, what, rep string, added func(name string) bool) {
		for n, b := range in {
			if n == docPart || n == relsPart {
				if _, ok := got[n]; !ok {
					c.Fail("part lost: "+n+": "+what, "", rep)
				}
				continue
			}
			g, ok := got[n]
			if !ok {
				c.Fail("part lost: "+kindOf(n)+": "+what, n, rep)
			} else if n == "[Content_Types].xml" && !bytes.Equal(g, b) {
				if why := ctKept(b, g, got); why != "" {
					c.Fail("part changed: content types: "+what, why+": "+string(g), rep)
				}
			} else if !bytes.Equal(g, b) {
				c.Fail("part changed: "+kindOf(n)+": "+what, fmt.Sprintf("%s: %d bytes, want %d", n, len(g), len(b)), rep)
			}
		}
		for n := range got {
			if _, ok := in[n]; !ok && n != docPart && n != relsPart && !(added != nil && added(n)) {
				c.Fail("part invented: "+what, n, rep)
			}
		}
	}
	orders := 4
	Par((1<<len(ex))*orders, func(k int) {
		if c.Failing() {
			return
		}
		mask, o := k/orders, k%orders
		if !c.Thorough() && o != mask%4 && o != (mask/4)%4 {
			return
		}
		var es []ZipEntry
		for i := range ex {
			if mask>>i&1 == 1 {
				es = append(es, ex[i])
			}
		}
		all := order(o, es)
		in := map[string][]byte{}
		for _, e := range all {
			in[e.Name] = e.Data
		}
		rep := fmt.Sprintf("extra parts %012b, order %d", mask, o)
		c.Guard("pass-through", rep, func() {
			b := BuildZip(all, (mask+o)%2 == 0)
			d, err := tryParse(b)
			c.Trans(1)
			if err != nil {
				c.Fail("parse", err.Error(), rep)
				return
			}
			x, err := Save(d)
			c.Trans(1)
			if err != nil {
				c.Fail("save", err.Error(), rep)
				return
			}
			got, err := parts18(x)
			if err != nil {
				c.Fail("save", err.Error(), rep)
				return
			}
			c.Trace()
			c.State(fmt.Sprint(mask))
			compare(got, in, "re-saved", rep, nil)
			in["[Content_Types].xml"] = got["[Content_Types].xml"] // the type of a media part may have been added
			if mask%16 != 0 && !c.Thorough() {
				return
			}
			// again from the result, with edits, and through the operations that make new documents
			d2, err := tryParse(x)
			if err != nil {
				c.Fail("parse of the result", err.Error(), rep)
				return
			}
			p := d2.AddParagraph()
			p.AddText("new")
			p.AddLink("l", "http://n/")
			y, err := Save(d2)
			if err != nil {
				c.Fail("save after edit", err.Error(), rep)
				return
			}
			got, _ = parts18(y)
			compare(got, in, "edited", rep, nil)
			p.AddInlineDrawing(Img("gif", 1, 1, 8))
			d2.AppendFile(d)
			y, err = Save(d2)
			c.Trans(3)
			if err != nil {
				c.Fail("save after edit", err.Error(), rep)
				return
			}
			got, _ = parts18(y)
			compare(got, in, "edited with a picture", rep, func(n string) bool { return strings.HasPrefix(n, "word/media/") })
			for _, s := range d2.SplitByParagraph(func(*docx.Paragraph) bool { return true }) {
				y, err := Save(s)
				if err != nil {
					c.Fail("save of a piece", err.Error(), rep)
					return
				}
				got, _ := parts18(y)
				want := map[string][]byte{}
				for n, b := range in {
					if !strings.HasPrefix(n, "word/media/") {
						want[n] = b
					}
				}
				compare(got, want, "piece", rep, func(n string) bool { return strings.HasPrefix(n, "word/media/") })
			}
			x2, err := Save(d)
			if err != nil {
				c.Fail("second save", err.Error(), rep)
				return
			}
			got, _ = parts18(x2)
			compare(got, in, "saved again", rep, nil)
		})
	})
	// parts whose names are one edit away from, or contain, those of the interpreted parts
	var near []string
	seenN := map[string]bool{}
	addN := func(n string) {
		if seenN[n] || !fs.ValidPath(n) || n == "." || n == docPart || n == relsPart || strings.HasPrefix(n, "word/media/") {
			return
		}
		seenN[n] = true
		for _, e := range append(append([]ZipEntry{}, base...), main...) {
			if strings.EqualFold(e.Name, n) || strings.HasPrefix(e.Name+"/", n+"/") || strings.HasPrefix(n, e.Name+"/") {
				return
			}
		}
		near = append(near, n)
	}
	for _, n := range []string{docPart, relsPart, "word/media/image1.png", "[Content_Types].xml", "word/styles.xml"} {
		for i := 0; i <= len(n); i++ {
			addN(n[:i] + "x" + n[i:])
			addN(n[:i] + "/" + n[i:])
			addN(n[:i] + "." + n[i:])
			if i < len(n) {
				addN(n[:i] + n[i+1:])
				addN(n[:i] + "x" + n[i+1:])
				addN(n[:i] + "_" + n[i+1:])
				addN(n[i:])
				addN(n[:i])
			}
		}
		dir, file := n[:strings.LastIndexByte(n, '/')+1], n[strings.LastIndexByte(n, '/')+1:]
		for _, x := range []string{"glossary/", "_rels/", "word/", "media/", "x/", "word/media/", "customXml/", "word/_rels/"} {
			addN(x + n)
			addN(dir + x + file)
			addN(x + file)
			addN(n + "/" + x + "f")
			addN(strings.TrimSuffix(x, "/") + n)
		}
		for _, x := range []string{".xml", ".rels", ".bak", " ", "2", "~"} {
			addN(n + x)
		}
	}
	// names with a meaning elsewhere, and parts real packages have
	for _, n := range realParts {
		addN(n)
	}
	contents := [][]byte{[]byte("plain"), {}, []byte(DocXML(E("w:body", nil, E("w:p", nil, E("w:r", nil, E("w:t", nil, T("another")))), E("w:tbl", nil)))),
		[]byte(RelsXML(Rel{"rId1", RelLink, "http://another/", "External"}, Rel{"rId70", RelImage, "media/other.png", ""}, Rel{"x", RelLink, "bad", "External"}))}
	Par(len(near)*4, func(k int) {
		n, o := near[k/4], k%4
		if !c.Thorough() && o != (k/4)%4 && o != 0 {
			return
		}
		for ci, content := range contents {
			all := order(o, []ZipEntry{{n, content}})
			in := map[string][]byte{}
			for _, e := range all {
				in[e.Name] = e.Data
			}
			rep := fmt.Sprintf("part %q with content %d, order %d", n, ci, o)
			c.Guard("look-alike", rep, func() {
				d, err := tryParse(BuildZip(all, ci == 1))
				if err != nil {
					c.Fail("look-alike: parse", err.Error(), rep)
					return
				}
				d0, err := tryParse(BuildZip(order(o, nil), false))
				if err != nil {
					c.Fail("parse", err.Error(), rep)
					return
				}
				x, err := Save(d)
				x0, err0 := Save(d0)
				c.Trans(4)
				c.Trace()
				c.State(rep)
				if err != nil || err0 != nil {
					c.Fail("look-alike: save", fmt.Sprint(err, err0), rep)
					return
				}
				got, err := parts18(x)
				if err != nil {
					c.Fail("look-alike: save", err.Error(), rep)
					return
				}
				compare(got, in, "look-alike", rep, nil)
				got0, _ := parts18(x0)
				if !bytes.Equal(got[docPart], got0[docPart]) || !bytes.Equal(got[relsPart], got0[relsPart]) {
					c.Fail("look-alike: the part changes the document or its relationships", FirstDiff(string(got0[docPart])+string(got0[relsPart]), string(got[docPart])+string(got[relsPart])), rep)
				}
				d.AddParagraph().AddLink("l", "http://n/")
				d0.AddParagraph().AddLink("l", "http://n/")
				y, err := Save(d)
				y0, err0 := Save(d0)
				if err != nil || err0 != nil {
					c.Fail("look-alike: save", fmt.Sprint(err, err0), rep)
					return
				}
				got, _ = parts18(y)
				got0, _ = parts18(y0)
				compare(got, in, "look-alike, edited", rep, nil)
				if !bytes.Equal(got[docPart], got0[docPart]) || !bytes.Equal(got[relsPart], got0[relsPart]) {
					c.Fail("look-alike: the part changes later edits", FirstDiff(string(got0[relsPart]), string(got[relsPart])), rep)
				}
			})
		}
	})
	bulk18(c, base, main)
	mediaTypes18(c)
	// content types: kept byte by byte unless a media type is missing, and then everything else stays
	ctHead := `<?xml version="1.0" encoding="UTF-8" standalone="yes"?>` + "\r\n" + `<Types xmlns="` + NCT + `">`
	for _, def := range []string{"", `<Default Extension="png" ContentType="image/png"/>`, `<Default Extension="PNG" ContentType="image/png"/>`, `<Default ContentType='image/x-png' Extension='png'></Default>`} {
		for _, ov := range []string{"", `<Override PartName="/word/document.xml" ContentType="application/x"/>`, `<!-- c --><Override PartName="/word/media/image1.png" ContentType="image/png"/>`, `<Override PartName="/WORD/Media/image1.PNG" ContentType="image/png"/>`} {
			for _, tail := range []string{"</Types>", "</Types>\n", " </Types >"} {
				for _, pic := range []string{"", "png", "gif"} {
					ct := ctHead + def + `<Default Extension="xml" ContentType="application/xml"/><Default Extension="rels" ContentType="a/b"/>` + ov + tail
					rep := fmt.Sprintf("content types %s, picture %q", ct, pic)
					c.Guard("content types", rep, func() {
						d := mustParse(BuildZip(append([]ZipEntry{{"[Content_Types].xml", []byte(ct)}}, main[:2]...), true))
						if pic != "" {
							d.AddParagraph().AddInlineDrawing(Img(pic, 1, 1, 1))
						}
						b, err := Save(d)
						c.Trans(2)
						c.Trace()
						c.State(rep)
						if err != nil {
							c.Fail("content types: save", err.Error(), rep)
							return
						}
						got, _ := parts18(b)
						out := string(got["[Content_Types].xml"])
						old, err1 := ReadContentTypes([]byte(ct))
						nw, err2 := ReadContentTypes([]byte(out))
						if err1 != nil || err2 != nil {
							c.Fail("content types unreadable", fmt.Sprint(err1, err2), rep+" :: "+out)
							return
						}
						need := pic != "" && old.Of("word/media/x."+pic) == ""
						if !need && out != ct {
							c.Fail("content types changed without need", out, rep)
						}
						if need && nw.Of("word/media/x."+pic) == "" {
							c.Fail("content type of an added picture missing", out, rep)
						}
						for _, n := range []string{"word/document.xml", "word/media/image1.png", "a.xml", "b.rels", "c.png"} {
							if w := old.Of(n); w != "" && nw.Of(n) != w {
								c.Fail("content type of an existing part changed", n+": "+out, rep)
							}
						}
					})
				}
			}
		}
	}
	// templates
	dir, clean := Scratch()
	defer clean()
	alt := map[string]string{"word/styles.xml": "<styles other='1'/>", "a.bin": "\x00\x01\xff", "[Content_Types].xml": ctHead + `<Default Extension="xml" ContentType="application/xml"/><Default Extension="png" ContentType="image/png"/></Types>`, "word/deep/er/file.xml": strings.Repeat("deep", 20000), "empty": ""}
	var altNames []string
	plain, pre := fstest.MapFS{}, fstest.MapFS{}
	for n, b := range alt {
		altNames = append(altNames, n)
		plain[n] = &fstest.MapFile{Data: []byte(b)}
		pre["xml/alt/"+n] = &fstest.MapFile{Data: []byte(b)}
		os.MkdirAll(filepath.Join(dir, "xml/disk", filepath.Dir(n)), 0o755)
		os.WriteFile(filepath.Join(dir, "xml/disk", n), []byte(b), 0o644)
	}
	sort.Strings(altNames)
	var zes []ZipEntry
	for n, b := range alt {
		zes = append(zes, ZipEntry{"xml/zipped/" + n, []byte(b)})
	}
	zb := BuildZip(zes, false)
	zr, err := zip.NewReader(bytes.NewReader(zb), int64(len(zb)))
	if err != nil {
		c.Fail("zip", err.Error(), "")
		return
	}
	want := func(names []string, read func(n string) []byte) map[string][]byte {
		m := map[string][]byte{}
		for _, n := range names {
			m[n] = read(n)
		}
		return m
	}
	altRead := func(n string) []byte { return []byte(alt[n]) }
	type choice struct {
		name string
		do   func(d *docx.Docx) *docx.Docx
		want map[string][]byte
	}
	chunky := &faultFS{inner: pre, style: "one"}
	choices := []choice{
		{"WithDefaultTheme", func(d *docx.Docx) *docx.Docx { return d.WithDefaultTheme() }, want(docx.DefaultTemplateFilesList, func(n string) []byte {
			b, err := fs.ReadFile(docx.TemplateXMLFS, "xml/default/"+n)
			if err != nil {
				c.Fail("listed default template file missing", err.Error(), n)
			}
			return b
		})},
		{"a5", func(d *docx.Docx) *docx.Docx {
			return d.UseTemplate("a5", docx.DefaultTemplateFilesList, docx.TemplateXMLFS)
		}, nil},
		{"mini", func(d *docx.Docx) *docx.Docx { return d.UseTemplate("mini", tn, tf) }, want(tn, func(n string) []byte { b, _ := fs.ReadFile(tf, "xml/mini/"+n); return b })},
		{"alt", func(d *docx.Docx) *docx.Docx { return d.UseTemplate("alt", altNames, pre) }, want(altNames, altRead)},
		{"alt without folder", func(d *docx.Docx) *docx.Docx { return d.UseTemplate("", altNames, plain) }, want(altNames, altRead)},
		{"one file", func(d *docx.Docx) *docx.Docx { return d.UseTemplate("alt", altNames[:1], pre) }, want(altNames[:1], altRead)},
		{"no files", func(d *docx.Docx) *docx.Docx { return d.UseTemplate("alt", nil, pre) }, map[string][]byte{}},
		{"disk", func(d *docx.Docx) *docx.Docx { return d.UseTemplate("disk", altNames, os.DirFS(dir)) }, want(altNames, altRead)},
		{"zip", func(d *docx.Docx) *docx.Docx { return d.UseTemplate("zipped", altNames, zr) }, want(altNames, altRead)},
		{"byte by byte", func(d *docx.Docx) *docx.Docx { return d.UseTemplate("alt", altNames, chunky) }, want(altNames, altRead)},
	}
	if a5, err := fs.Stat(docx.TemplateXMLFS, "xml/a5"); err != nil || !a5.IsDir() {
		choices = append(choices[:1], choices[2:]...)
	} else {
		choices[1].want = want(docx.DefaultTemplateFilesList, func(n string) []byte { b, _ := fs.ReadFile(docx.TemplateXMLFS, "xml/a5/"+n); return b })
	}
	// the embedded templates have what they list
	fs.WalkDir(docx.TemplateXMLFS, "xml", func(p string, e fs.DirEntry, err error) error {
		c.Eval()
		return err
	})
	mk := map[string]func() *docx.Docx{
		"new":    func() *docx.Docx { return docx.New() },
		"loaded": func() *docx.Docx { return docx.LoadBodyItems(nil, nil) },
		"parsed": func() *docx.Docx { return mustParse(GrammarPackage(DocXML(E("w:body", nil, E("w:p", nil))))) },
		"piece": func() *docx.Docx {
			d := mini(docx.New())
			d.AddParagraph().AddText("x")
			return d.SplitByParagraph(func(*docx.Paragraph) bool { return true })[0]
		},
		"receiver": func() *docx.Docx {
			a, b := mini(docx.New()), mini(docx.New())
			b.AddParagraph()
			a.AppendFile(b)
			return a
		},
	}
	for on, m := range mk {
		on, m := on, m
		seqs10(len(choices), c.Pick(3, 4), func(seq []int) {
			if len(seq) == 0 || c.Failing() {
				return
			}
			rep := on
			d := m()
			media := map[string]bool{"word/media/image1.png": on == "parsed", "word/media/pic b.jpeg": on == "parsed"}
			for _, k := range seq {
				rep += "; " + choices[k].name
			}
			c.Guard("template", rep, func() {
				for i, k := range seq {
					if choices[k].do(d) != d {
						c.Fail("template call does not return its document", "", rep)
					}
					c.Trans(1)
					if i == 0 && len(seq) == 3 { // saved in between
						Save(d)
					}
				}
				b, err := Save(d)
				if err != nil {
					c.Fail("template: save", err.Error(), rep)
					return
				}
				got, err := parts18(b)
				if err != nil {
					c.Fail("template: save", err.Error(), rep)
					return
				}
				c.Trace()
				c.State(rep)
				compare(got, choices[seq[len(seq)-1]].want, "template", rep, func(n string) bool { return media[n] })
			})
		})
	}
	c.Assume("part names are OPC part names (no leading slash, no '..', no part that is a folder of another)")
}

// realParts are part names with a meaning elsewhere, and those real packages have.
var realParts = strings.Split(strings.ReplaceAll(`~$doc.xml|word/~$doc.xml|~tmp|word/~WRL0001.tmp|.hidden|word/.hidden|.DS_Store|word/.DS_Store|__MACOSX/._document.xml|__MACOSX/word/._document.xml|Thumbs.db|desktop.ini|[trash]/0000.dat|mimetype|META-INF/manifest.xml|
word/Media/x.png|Word/media/x.png|WORD/MEDIA/X.PNG|word/mediA/image7.png|word/xmedia/a.png|media/image1.png|word/media.xml|word/medias/a.png|Word/x.xml|WORD/STYLES2.XML|
word/comments.xml|word/commentsExtended.xml|word/people.xml|word/footnotes.xml|word/endnotes.xml|word/header1.xml|word/footer1.xml|word/settings.xml|word/webSettings.xml|word/numbering.xml|word/stylesWithEffects.xml|word/vbaProject.bin|word/vbaData.xml|word/_rels/vbaProject.bin.rels|word/_rels/footnotes.xml.rels|word/_rels/header1.xml.rels|word/_rels/settings.xml.rels|word/glossary/document.xml|word/glossary/_rels/document.xml.rels|word/glossary/styles.xml|word/charts/chart1.xml|word/diagrams/data1.xml|word/embeddings/oleObject1.bin|word/fonts/font1.odttf|word/theme/theme2.xml|word/theme/_rels/theme1.xml.rels|word/activeX/activeX1.xml|word/printerSettings/printerSettings1.bin|word/afchunk.mht|word/document2.xml|word/document.xml.rels|word/ink/ink1.xml|word/numbering.xml.bak|
customXml/item1.xml|customXml/itemProps1.xml|customXml/_rels/item1.xml.rels|docProps/custom.xml|docProps/thumbnail.jpeg|docMetadata/LabelInfo.xml|_xmlsignatures/origin.sigs|_xmlsignatures/sig1.xml|_rels/x.rels|package/services/metadata/core-properties/1.psmdcp|userCustomization/customUI.xml|customUI/customUI14.xml|
a b.xml|a%20b.xml|a+b.xml|a&b.xml|a;b.xml|a'b.xml|a,b|a=b|a@b|a$b|a(b)|a!b|größe.xml|文件.xml|Ünï.bin|a..b|a.|word/..x|word/x..|...|word/-|0|00|con|nul.xml|aux|x.exe|x.sh|x.docx|x.zip|x.XML|x.RELS|X|word/x|word/word/x|xml/x|xml/default/x|word/a/b/c/d/e/f`, "\n", ""), "|")
