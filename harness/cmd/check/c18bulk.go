package main

import (
	"archive/zip"
	"bytes"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"testing/fstest"

	docx "github.com/fumiama/go-docx"

	. "verif/harness/core"
)

// filler is n bytes, no two stretches of it alike; packed: hard to compress.
func filler(n, tag int, packed bool) []byte {
	b := make([]byte, n)
	x := uint32(tag)*2654435761 + 1
	for i := range b {
		if packed || i%16 == 0 {
			x ^= x << 13
			x ^= x >> 17
			x ^= x << 5
		}
		b[i] = byte(x)
	}
	return b
}

// sizes18 are sizes around the sizes of buffers, windows, and blocks.
var sizes18 = []int{1, 511, 512, 513, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 131073, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1_200_000, 5_000_000}

// bulk18 enumerates big parts, many parts, and long names through packages and through templates.
func bulk18(c *Ctx, base, main []ZipEntry) {
	type set struct {
		name string
		es   []ZipEntry
	}
	var sets []set
	for i, n := range sizes18 {
		for k, part := range []string{"word/header1.xml", "word/media/big.png", "customXml/item1.xml", "word/embeddings/o.bin"} {
			sets = append(sets, set{fmt.Sprintf("%s of %d bytes", part, n), []ZipEntry{{Name: part, Data: filler(n, i+1, k%2 == 0)}}})
		}
	}
	for _, n := range []int{10, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 5000, 66000}[:c.Pick(14, 15)] {
		s := set{name: fmt.Sprintf("%d parts", n)}
		for i := 0; i < n; i++ {
			s.es = append(s.es, ZipEntry{Name: fmt.Sprintf("customXml/item%d.xml", i), Data: []byte(fmt.Sprint("part ", i))})
		}
		sets = append(sets, s)
	}
	deep, long := set{name: "deep folders"}, set{name: "long names"}
	for i := 1; i <= 60; i++ {
		deep.es = append(deep.es, ZipEntry{Name: strings.Repeat("d/", i) + "f.xml", Data: []byte(fmt.Sprint("deep ", i))})
	}
	for i := 16; i <= 250; i += 13 {
		long.es = append(long.es, ZipEntry{Name: "word/" + strings.Repeat("n", i) + ".xml", Data: []byte(fmt.Sprint("long ", i))})
	}
	sets = append(sets, deep, long, set{"many long paths", append(append([]ZipEntry{}, deep.es...), long.es...)})
	same := func(got map[string][]byte, es []ZipEntry, what, rep string) bool {
		for _, e := range es {
			g, ok := got[e.Name]
			switch {
			case !ok:
				c.Fail("part lost: "+what, e.Name, rep)
				return false
			case !bytes.Equal(g, e.Data) && e.Name != "[Content_Types].xml":
				c.Fail("part changed: "+what, fmt.Sprintf("%s: %d bytes, want %d", e.Name, len(g), len(e.Data)), rep)
				return false
			}
		}
		return true
	}
	Par(len(sets)*2, func(k int) {
		s, stored := sets[k/2], k%2 == 1
		rep := fmt.Sprintf("package with %s, stored %v", s.name, stored)
		all := append(append(append([]ZipEntry{}, base...), s.es...), main...)
		keep := append(append([]ZipEntry{}, base...), s.es...)
		c.Guard("big package", rep, func() {
			d, err := tryParse(BuildZip(all, stored))
			if err != nil {
				c.Fail("big package: parse", err.Error(), rep)
				return
			}
			for step, do := range []func(){func() {}, func() { d.AddParagraph().AddLink("l", "http://n/") }, func() {
				d = d.SplitByParagraph(func(*docx.Paragraph) bool { return true })[0]
			}} {
				do()
				b, err := Save(d)
				c.Trans(2)
				if err != nil {
					c.Fail("big package: save", err.Error(), rep)
					return
				}
				got, err := parts18(b)
				if err != nil {
					c.Fail("big package: saved", err.Error(), rep)
					return
				}
				if step == 2 { // media go with their pictures
					keep = append(append([]ZipEntry{}, base...), s.es...)
					if strings.HasPrefix(s.es[0].Name, "word/media/") {
						keep = base
					}
				}
				if !same(got, keep, []string{"big package", "big package, edited", "piece of a big package"}[step], rep) {
					return
				}
			}
			c.Trace()
			c.State(rep)
		})
	})
	// templates
	dir, clean := Scratch()
	defer clean()
	Par(len(sets), func(k int) {
		s := sets[k]
		if len(s.es) > 5000 {
			return
		}
		var names []string
		m := fstest.MapFS{}
		var zes []ZipEntry
		root := filepath.Join(dir, fmt.Sprint(k))
		for _, e := range s.es {
			names = append(names, e.Name)
			m["xml/t/"+e.Name] = &fstest.MapFile{Data: e.Data}
			zes = append(zes, ZipEntry{Name: "xml/t/" + e.Name, Data: e.Data})
			fn := filepath.Join(root, "xml/t", e.Name)
			if err := os.MkdirAll(filepath.Dir(fn), 0o755); err != nil {
				panic(err)
			}
			if err := os.WriteFile(fn, e.Data, 0o644); err != nil {
				panic(err)
			}
		}
		zb := BuildZip(zes, false)
		zr, err := zip.NewReader(bytes.NewReader(zb), int64(len(zb)))
		if err != nil {
			panic(err)
		}
		for _, f := range []struct {
			name string
			fs   fs.FS
		}{{"memory", m}, {"disk", os.DirFS(root)}, {"zip", zr}} {
			rep := fmt.Sprintf("template with %s from %s", s.name, f.name)
			c.Guard("big template", rep, func() {
				d := docx.New().UseTemplate("t", names, f.fs)
				d.AddParagraph().AddText("x")
				b, err := Save(d)
				c.Trans(2)
				c.Trace()
				c.State(rep)
				if err != nil {
					c.Fail("big template: save", err.Error(), rep)
					return
				}
				got, err := parts18(b)
				if err != nil {
					c.Fail("big template: saved", err.Error(), rep)
					return
				}
				same(got, s.es, "big template", rep)
			})
		}
	})
}

// mediaTypes18 enumerates media names, what the content types say about them, and a second medium.
func mediaTypes18(c *Ctx) {
	names := []string{"image1.png", "a.b.png", "IMG.PNG", "x.tar.gif", "jpg", "pic.jpg", "pic.JPEG", "a.webp", "größe.png", "a.b.c.d.bmp", ".png", "x.emf", "png.x"}
	ext := func(n string) string {
		if i := strings.LastIndexByte(n, '.'); i >= 0 {
			return n[i+1:]
		}
		return ""
	}
	type say struct {
		name string
		ct   func(n string) string
	}
	says := []say{
		{"nothing", func(string) string { return "" }},
		{"default", func(n string) string { return `<Default Extension="` + ext(n) + `" ContentType="image/q"/>` }},
		{"default in capitals", func(n string) string {
			return `<Default Extension="` + strings.ToUpper(ext(n)) + `" ContentType="image/q"/>`
		}},
		{"default in small letters", func(n string) string {
			return `<Default Extension="` + strings.ToLower(ext(n)) + `" ContentType="image/q"/>`
		}},
		{"override", func(n string) string { return `<Override PartName="/word/media/` + n + `" ContentType="image/q"/>` }},
		{"override in other case", func(n string) string {
			return `<Override PartName="/WORD/Media/` + strings.ToUpper(n) + `" ContentType="image/q"/>`
		}},
		{"override of another", func(n string) string {
			return `<Override PartName="/word/media/x` + n + `" ContentType="image/q"/><Override PartName="/` + n + `" ContentType="image/q"/>`
		}},
		{"default of an inner extension", func(n string) string {
			p := strings.Split(n, ".")
			if len(p) < 3 {
				return `<Default Extension="zzz" ContentType="image/q"/>`
			}
			return `<Default Extension="` + p[1] + `" ContentType="image/q"/>`
		}},
	}
	Par(len(names)*len(says), func(k int) {
		n, s := names[k/len(says)], says[k%len(says)]
		for _, n2 := range append([]string{""}, names...) {
			for _, s2 := range says {
				if n2 == "" && s2.name != "nothing" || n2 != "" && strings.EqualFold(n, n2) {
					continue
				}
				a, b := s.ct(n), ""
				if n2 != "" {
					b = s2.ct(n2)
				}
				ct := `<Types xmlns="` + NCT + `"><Default Extension="xml" ContentType="application/xml"/><Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/>` + a + b + `</Types>`
				old, err := ReadContentTypes([]byte(ct))
				if err != nil {
					continue // the two statements clash
				}
				es := []ZipEntry{{Name: "[Content_Types].xml", Data: []byte(ct)}, {Name: docPart, Data: []byte(DocXML(E("w:body", nil, E("w:p", nil))))}, {Name: relsPart, Data: []byte(RelsXML())},
					{Name: "word/media/" + n, Data: Img("png", 1, 1, 1)}}
				if n2 != "" {
					es = append(es, ZipEntry{Name: "word/media/" + n2, Data: Img("gif", 1, 1, 2)})
				}
				rep := fmt.Sprintf("media %q (%s) and %q (%s)", n, s.name, n2, s2.name)
				c.Guard("media types", rep, func() {
					d, err := tryParse(BuildZip(es, true))
					if err != nil {
						c.Fail("media types: parse", err.Error(), rep)
						return
					}
					x, err := Save(d)
					c.Trans(2)
					c.Trace()
					c.State(rep)
					if err != nil {
						c.Fail("media types: save", err.Error(), rep)
						return
					}
					got, _ := parts18(x)
					out := got["[Content_Types].xml"]
					if !bytes.Equal(out, []byte(ct)) {
						if why := ctKept([]byte(ct), out, got); why != "" {
							c.Fail("media types: "+strings.SplitN(why, " of ", 2)[0], why+": "+string(out), rep)
						}
					}
					now, err := ReadContentTypes(out)
					if err != nil {
						c.Fail("media types: unreadable", err.Error(), rep)
						return
					}
					for _, m := range []string{n, n2} {
						if e := ext(m); e != "" && m != "" && now.Of("word/media/"+m) == "" {
							c.Fail("media types: a medium has no type", m+": "+string(out), rep)
						}
						if m != "" && old.Of("word/media/"+m) != "" && now.Of("word/media/"+m) != old.Of("word/media/"+m) {
							c.Fail("media types: the type of a medium changed", m+": "+string(out), rep)
						}
					}
				})
			}
		}
	})
}
