package main

import (
	"archive/zip"
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"regexp"
	"sort"
	"strings"
	"time"

	docx "github.com/fumiama/go-docx"

	. "verif/harness/core"
)

func init() { checks["C13"] = check{"model_checking", runC13} }

// offsetFault serves a package in which the byte at an offset cannot be read.
type offsetFault struct {
	b     []byte
	at    int64
	err   error
	fired bool
	end   bool // nothing after it can be read either
}

func (r *offsetFault) ReadAt(p []byte, off int64) (int, error) {
	if r.at >= 0 && off+int64(len(p)) > r.at && off <= r.at {
		r.fired = true
		return copy(p[:r.at-off], r.b[off:r.at]), r.err
	}
	if r.at >= 0 && off > r.at && r.err == io.EOF && r.end {
		return 0, io.EOF
	}
	return bytes.NewReader(r.b).ReadAt(p, off)
}

// wellFormed walks the tokens of a part up to the end of its root element.
func wellFormed(b []byte) error {
	d := xml.NewDecoder(bytes.NewReader(b))
	depth := 0
	for {
		t, err := d.Token()
		if err != nil {
			return err
		}
		switch t.(type) {
		case xml.StartElement:
			depth++
		case xml.EndElement:
			if depth--; depth == 0 {
				return nil
			}
		}
	}
}

func tryParse(b []byte) (*docx.Docx, error) {
	return docx.Parse(bytes.NewReader(b), int64(len(b)))
}

const docPart, relsPart = "word/document.xml", "word/_rels/document.xml.rels"

// pkgs13 are the packages that are damaged.
func pkgs13() (out []struct {
	name string
	b    []byte
}) {
	add := func(n string, b []byte) {
		out = append(out, struct {
			name string
			b    []byte
		}{n, b})
	}
	body := E("w:body", nil,
		E("w:p", nil, E("w:r", nil, E("w:t", nil, T("some text"))), E("w:hyperlink", A("r:id", "rId4"), E("w:r", nil, E("w:t", nil, T("l"))))),
		E("w:p", nil, E("w:r", nil, E("w:drawing", nil, Full("wp:inline", "w:drawing", 1)))),
		Full("w:tbl", "w:body", 3), Full("w:sectPr", "w:body", 1))
	es := []ZipEntry{
		{"[Content_Types].xml", []byte(`<Types xmlns="` + NCT + `"><Default Extension="xml" ContentType="application/xml"/><Default Extension="png" ContentType="image/png"/><Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/></Types>`)},
		{relsPart, []byte(RelsXML(Rel{"rId4", RelLink, "http://l/", "External"}, Rel{"rId5", RelImage, "media/image1.png", ""}))},
		{"word/media/image1.png", Img("png", 1, 1, 41)},
		{docPart, []byte(DocXML(body))},
		{"word/media/image2.png", Img("png", 2, 1, 43)},
		{"word/styles.xml", []byte("<styles/>")},
	}
	add("stored", BuildZip(es, true))
	add("deflated", BuildZip(es, false))
	rev := []ZipEntry{}
	for i := len(es) - 1; i >= 0; i-- {
		rev = append(rev, es[i])
	}
	add("reversed", BuildZip(rev, false))
	return
}

func runC13(c *Ctx) {
	c.Rule = "every truncation length, every unreadable offset and every failing read call in every mode, every byte position x every damage pattern, of packages and (with valid checksums) of the XML parts of documents covering the vocabulary; every relationship id up to a length; the independent reader decides what must be refused"
	w := c.NewWatch(60 * time.Second)
	for _, pk := range pkgs13() {
		pk := pk
		d, err := tryParse(pk.b)
		if err != nil {
			c.Fail("undamaged package refused", err.Error(), pk.name)
			continue
		}
		good, err := Save(d)
		if err != nil {
			c.Fail("undamaged package not saved", err.Error(), pk.name)
			continue
		}
		_, ref, _ := ReadZip(good)
		_, orig, _ := ReadZip(pk.b)
		// truncation
		Par(len(pk.b), func(k int) {
			for _, how := range []string{"file", "reader", "size"} {
				rep := fmt.Sprintf("%s truncated (%s) to %d of %d bytes", pk.name, how, k, len(pk.b))
				w.Do("parse of a truncated package", func() string { return rep }, func() {
					var err error
					switch how {
					case "file":
						_, err = docx.Parse(bytes.NewReader(pk.b[:k]), int64(k))
					case "reader": // the announced size is the full one: a failing read
						of := &offsetFault{b: pk.b, at: int64(k), err: io.EOF, end: true}
						off := 0
						parseFault(c, w, of, &off, &of.fired, pk.b, good, "end of input", rep)
						return
					case "size":
						_, err = docx.Parse(bytes.NewReader(pk.b), int64(k))
					}
					c.Trans(1)
					c.Trace()
					c.State(rep)
					if err == nil {
						c.Fail("truncated package accepted: "+how, "", rep)
					}
				})
			}
		})
		// failing reads
		ra := &faultReaderAt{b: pk.b, failAt: -1}
		docx.Parse(ra, int64(len(pk.b)))
		calls := ra.calls
		modes := []string{"once", "forever", "short", "short eof", "short unexpected", "eof"}
		c.AddExtra("read calls of a parse", calls)
		Par(calls*len(modes), func(j int) {
			mode := modes[j%len(modes)]
			rep := fmt.Sprintf("%s: read call %d of %d fails (%s)", pk.name, j/len(modes), calls, mode)
			ra := &faultReaderAt{b: pk.b, failAt: j / len(modes), mode: mode}
			parseFault(c, w, ra, &ra.failAt, &ra.fired, pk.b, good, "call, "+mode, rep)
		})
		Par(len(faultKinds)*calls, func(j int) { // every kind of error
			e, at := faultKinds[j%len(faultKinds)], j/len(faultKinds)
			for _, mode := range []string{"once", "forever", "short"} {
				rep := fmt.Sprintf("%s: read call %d of %d fails (%s) with %T %v", pk.name, at, calls, mode, e, e)
				ra := &faultReaderAt{b: pk.b, failAt: at, mode: mode, e: e}
				parseFault(c, w, ra, &ra.failAt, &ra.fired, pk.b, good, "call, "+mode, rep)
			}
		})
		errs := []error{errFault, io.EOF, io.ErrUnexpectedEOF}
		Par(len(pk.b)*len(errs), func(j int) {
			e := errs[j%len(errs)]
			rep := fmt.Sprintf("%s: byte %d of %d cannot be read (%v)", pk.name, j/len(errs), len(pk.b), e)
			ra := &offsetFault{b: pk.b, at: int64(j / len(errs)), err: e}
			off := 0
			parseFault(c, w, ra, &off, &ra.fired, pk.b, good, "offset, "+e.Error(), rep)
		})
		// damaged bytes
		pats := []func(b byte) byte{func(b byte) byte { return b ^ 0xFF }, func(b byte) byte { return b ^ 1 }, func(b byte) byte { return b ^ 0x80 }, func(b byte) byte { return 0 }}
		if c.Thorough() {
			for i := 1; i < 7; i++ {
				i := i
				pats = append(pats, func(b byte) byte { return b ^ 1<<i })
			}
			pats = append(pats, func(b byte) byte { return 0xFF }, func(b byte) byte { return b + 1 }, func(b byte) byte { return b - 1 })
		}
		Par(len(pk.b), func(k int) {
			for _, pat := range pats {
				x := append([]byte(nil), pk.b...)
				x[k] = pat(x[k])
				if x[k] == pk.b[k] {
					continue
				}
				rep := fmt.Sprintf("%s: byte %d of %d changed from %#x to %#x", pk.name, k, len(x), pk.b[k], x[k])
				w.Do("parse of a damaged package", func() string { return rep }, func() {
					d, err := tryParse(x)
					c.Trans(1)
					c.Trace()
					c.State(rep)
					if err != nil {
						c.AddExtra("damaged packages refused", 1)
						return
					}
					// accepted: the independent reader has to agree that nothing of the content is damaged
					names, parts, bad := lenientZip(x)
					for _, n := range bad {
						if n == "" || n == docPart || n == relsPart || strings.HasPrefix(n, "word/media/") {
							c.Fail("damaged part accepted: "+kindOf(n), n, rep)
							return
						}
					}
					if !bytes.Equal(parts[docPart], orig[docPart]) || (parts[relsPart] != nil && !bytes.Equal(parts[relsPart], orig[relsPart])) {
						c.Fail("damaged package accepted", "the main document or its relationships differ", rep)
						return
					}
					b, err := Save(d)
					if err != nil {
						return // reported, and the part is not one of the interpreted ones
					}
					_, got, err := ReadZip(b)
					if err != nil {
						c.Fail("accepted damaged package saved as an unreadable one", err.Error(), rep)
						return
					}
					same := len(names) == len(orig)
					for n := range orig {
						if parts[n] == nil {
							same = false
						}
					}
					if !same { // renamed parts: a different package; what is there must be kept
						c.AddExtra("damaged packages with renamed parts", 1)
						if !bytes.Equal(got[docPart], ref[docPart]) {
							c.Fail("damaged package accepted, content differs", FirstDiff(string(ref[docPart]), string(got[docPart])), rep)
						}
						return
					}
					for n := range ref {
						if !bytes.Equal(ref[n], got[n]) && n != "[Content_Types].xml" && bytes.Equal(parts[n], orig[n]) {
							c.Fail("damaged package accepted, content differs: "+kindOf(n), n, rep)
						}
					}
					c.AddExtra("damage without effect accepted", 1)
				})
			}
		})
		// a part is missing or renamed
		for n := range orig {
			for _, to := range []string{"", "x/" + n, n + "x", strings.ToUpper(n)} {
				rep := fmt.Sprintf("%s without %q (there is %q)", pk.name, n, to)
				var es []ZipEntry
				for m, b := range orig {
					if m == n {
						if to != "" {
							es = append(es, ZipEntry{to, b})
						}
						continue
					}
					es = append(es, ZipEntry{m, b})
				}
				w.Do("missing part", func() string { return rep }, func() {
					_, err := tryParse(BuildZip(es, true))
					c.Trans(1)
					c.State(rep)
					if n == docPart && err == nil {
						c.Fail("package without main document accepted", "", rep)
					}
				})
			}
		}
	}
	big13(c, w)
	values13(c, w)
	// XML parts with valid checksums
	rels := []byte(RelsXML(Rel{"rId4", RelLink, "http://l/", "External"}, Rel{"rId5", RelImage, "media/image1.png", ""}, Rel{"rId17", RelLink, "&<>", "External"}))
	entries := func(doc, rl []byte) []byte {
		return BuildZip([]ZipEntry{{relsPart, rl}, {docPart, doc}}, true)
	}
	type job struct {
		name string
		doc  []byte
		rels bool
		full bool
	}
	var jobs []job
	for _, v := range vocabDocs(c.Pick(1, 3)) {
		if !c.Thorough() && strings.HasPrefix(v.name, "twice") {
			continue
		}
		jobs = append(jobs, job{v.name, []byte(DocXML(v.body)), false, false})
	}
	jobs = append(jobs, job{"relationships", rels, true, true})
	jobs = append(jobs, job{"empty body", []byte(DocXML(E("w:body", nil))), false, true})
	// with everything between: comments, CDATA, entities, processing instructions, foreign markup, compatibility markup
	odd := `<?xml version="1.0"?><!--c--><!DOCTYPE x [<!ENTITY a "b">]><w:document xmlns:w="` + NW + `" xmlns:mc="http://schemas.openxmlformats.org/markup-compatibility/2006" xmlns:wps="http://schemas.microsoft.com/office/word/2010/wordprocessingShape" xmlns:q="urn:q"><?pi d?><w:body><!-- x --><w:p><w:r><w:t>a<![CDATA[b<c]]>&lt;&#65;</w:t><mc:AlternateContent><mc:Choice Requires="wps"><w:drawing/></mc:Choice><mc:Fallback><w:pict><q:x>deep</q:x></w:pict></mc:Fallback></mc:AlternateContent></w:r><q:f><q:g a="1">t</q:g></q:f></w:p><q:x/></w:body></w:document>`
	jobs = append(jobs, job{"extras", []byte(odd), false, true})
	Par(len(jobs), func(i int) {
		j := jobs[i]
		mk := func(x []byte) []byte {
			if j.rels {
				return entries([]byte(DocXML(E("w:body", nil))), x)
			}
			return entries(x, rels)
		}
		if _, err := tryParse(mk(j.doc)); err != nil {
			c.Fail("undamaged part refused", err.Error(), j.name)
			return
		}
		start := 0
		if !j.full {
			start = bytes.Index(j.doc, []byte("<w:body"))
		}
		judge := func(x []byte, kind, rep string) {
			w.Do("parse of a damaged part: "+kind, func() string { return rep }, func() {
				_, err := tryParse(mk(x))
				c.Trans(1)
				c.Trace()
				if err != nil {
					return
				}
				if werr := wellFormed(x); werr != nil {
					c.Fail("part that is not well-formed accepted: "+kind, werr.Error(), rep+" :: "+string(x))
				}
			})
		}
		part := "document"
		if j.rels {
			part = "relationships"
		}
		pk := mk(j.doc)
		base := bytes.Index(pk, j.doc)
		for k := start; k < len(j.doc); k++ {
			if c.Failing() {
				return
			}
			rep := fmt.Sprintf("%s: %s byte %d of %d", j.name, part, k, len(j.doc))
			c.State(rep)
			judge(j.doc[:k], "truncated "+part, rep+" truncated")
			// the byte cannot be read
			ra := &offsetFault{b: pk, at: int64(base + k), err: errFault}
			w.Do("parse of an unreadable part", func() string { return rep }, func() {
				_, err := docx.Parse(ra, int64(len(pk)))
				c.Trans(1)
				c.Trace()
				if err == nil {
					c.Fail("unreadable "+part+" accepted", "", rep+" unreadable :: "+string(j.doc))
				}
			})
			if strings.HasPrefix(j.name, "bare") && !c.Thorough() {
				continue
			}
			for _, r := range []string{"", "<", ">", "&", `"`, "\x00", "\xff", "X", " ", "/"} {
				x := append(append(append([]byte(nil), j.doc[:k]...), r...), j.doc[k+1:]...)
				judge(x, "damaged "+part, fmt.Sprintf("%s replaced by %q", rep, r))
			}
		}
		c.Sample("part", j.name)
	})
	// relationship ids
	form := regexp.MustCompile(`^rId[0-9]+$`)
	ids := []string{"rId18446744073709551616", "rId99999999999999999999999", "rId1e3", "rId١", "rId１", "RId1", "rId1\n", "\u200brId1", "rId1\u00a0"}
	var gen func(p string, alpha []string, n int)
	gen = func(p string, alpha []string, n int) {
		ids = append(ids, p)
		if n == 0 {
			return
		}
		for _, a := range alpha {
			gen(p+a, alpha, n-1)
		}
	}
	gen("", []string{"r", "I", "d", "R", "1", "-", " ", "rId"}, c.Pick(4, 5))
	gen("rId", []string{"0", "1", "9", "-", "+", "_", " ", "x", ".", "rId", ","}, c.Pick(3, 5))
	big := regexp.MustCompile(`^rId0*[0-9]{20,}$`)
	Par(len(ids), func(i int) {
		for pos := 0; pos < 3; pos++ {
			rs := []Rel{{"rId1", RelLink, "a", "External"}, {"rId2", RelLink, "b", "External"}}
			rs = append(rs[:pos], append([]Rel{{ids[i], RelLink, "c", "External"}}, rs[pos:]...)...)
			rep := fmt.Sprintf("relationship id %q at %d", ids[i], pos)
			w.Do("relationship id", func() string { return rep }, func() {
				_, err := tryParse(entries([]byte(DocXML(E("w:body", nil))), []byte(RelsXML(rs...))))
				c.Trans(1)
				c.Trace()
				c.State(rep)
				ok := form.MatchString(ids[i]) && !big.MatchString(ids[i])
				if ok && err != nil && len(ids[i]) < 12 {
					c.Fail("relationship id of the supported form refused", err.Error(), rep)
				}
				if !ok && err == nil {
					c.Fail("relationship id that is not of the supported form accepted", "", rep)
				}
			})
		}
	})
	// after a refused package the next one is read as usual, and a refusal gives no document to go on with silently
	c.Assume("truncated or damaged input that contains another complete package (a package stored inside a package) is not covered",
		"damage that leaves every checksum valid and only renames a part describes a different package")
}

// big13 damages a big package: at every point of a grid, around every power of two, and around every part of it.
func big13(c *Ctx, w *Watch) {
	body := E("w:body", nil)
	for i := 0; i < 6000; i++ {
		body.Kids = append(body.Kids, E("w:p", nil, E("w:r", nil, E("w:t", nil, T(fmt.Sprintf("paragraph %d %x", i, filler(12, i, true)))))))
	}
	var rels []Rel
	es := []ZipEntry{{Name: "[Content_Types].xml", Data: []byte(`<Types xmlns="` + NCT + `"><Default Extension="xml" ContentType="application/xml"/><Default Extension="png" ContentType="image/png"/><Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/></Types>`)}}
	for i := 0; i < 600; i++ {
		rels = append(rels, Rel{ID: fmt.Sprint("rId", i+1), Type: RelLink, Target: fmt.Sprintf("http://%x/", filler(20, i+7, true)), Mode: "External"})
	}
	rels = append(rels, Rel{ID: "rId700", Type: RelImage, Target: "media/image1.png"})
	es = append(es, ZipEntry{Name: relsPart, Data: []byte(RelsXML(rels...))}, ZipEntry{Name: "word/media/image1.png", Data: filler(300_000, 5, true)},
		ZipEntry{Name: docPart, Data: []byte(DocXML(body))}, ZipEntry{Name: "word/media/image2.png", Data: filler(70_000, 6, true)}, ZipEntry{Name: "customXml/item1.xml", Data: filler(150_000, 8, false)})
	for _, stored := range []bool{true, false} {
		stored := stored
		b := BuildZip(es, stored)
		_, orig, _ := ReadZip(b)
		d, err := tryParse(b)
		if err != nil {
			c.Fail("undamaged big package refused", err.Error(), fmt.Sprint(stored))
			return
		}
		good, err := Save(d)
		if err != nil {
			c.Fail("undamaged big package not saved", err.Error(), fmt.Sprint(stored))
			return
		}
		set := map[int]bool{}
		pt := func(k int) {
			if k >= 0 && k < len(b) {
				set[k] = true
			}
		}
		for k := 0; k < len(b); k += len(b) / c.Pick(60, 600) {
			pt(k)
		}
		for k := 1; k < len(b); k *= 2 {
			pt(k - 1)
			pt(k)
			pt(k + 1)
		}
		for at := 0; ; { // around every header
			i := bytes.Index(b[at:], []byte("PK"))
			if i < 0 {
				break
			}
			for _, x := range []int{-17, -16, -12, -8, -4, -1, 0, 4, 8, 14, 18, 22, 30} {
				pt(at + i + x)
			}
			at += i + 2
		}
		var ks []int
		for k := range set {
			ks = append(ks, k)
		}
		sort.Ints(ks)
		name := fmt.Sprintf("big package (stored %v)", stored)
		c.AddExtra("damage points of big packages", len(ks))
		Par(len(ks), func(i int) {
			k := ks[i]
			if c.Failing() {
				return
			}
			rep := fmt.Sprintf("%s at %d of %d bytes", name, k, len(b))
			w.Do("parse of a truncated package", func() string { return rep }, func() {
				c.Trans(1)
				c.Trace()
				c.State(rep)
				if _, err := docx.Parse(bytes.NewReader(b[:k]), int64(k)); err == nil {
					c.Fail("truncated big package accepted", "", rep)
				}
			})
			for _, e := range []error{errFault, io.EOF, io.ErrUnexpectedEOF} {
				ra := &offsetFault{b: b, at: int64(k), err: e}
				off := 0
				parseFault(c, w, ra, &off, &ra.fired, b, good, "offset of a big package, "+e.Error(), rep+" cannot be read")
			}
			for _, x := range []byte{0xFF, 1} {
				y := append([]byte(nil), b...)
				y[k] ^= x
				w.Do("parse of a damaged package", func() string { return rep }, func() {
					d, err := tryParse(y)
					c.Trans(1)
					c.Trace()
					if err != nil {
						return
					}
					_, parts, bad := lenientZip(y)
					for _, n := range bad {
						if n == "" || n == docPart || n == relsPart || strings.HasPrefix(n, "word/media/") {
							c.Fail("damaged part of a big package accepted: "+kindOf(n), n, rep)
							return
						}
					}
					if !bytes.Equal(parts[docPart], orig[docPart]) || (parts[relsPart] != nil && !bytes.Equal(parts[relsPart], orig[relsPart])) {
						c.Fail("damaged big package accepted", "the main document or its relationships differ", rep)
						return
					}
					_ = d
				})
			}
		})
	}
}

// kindOf names the kind of a part.
func kindOf(n string) string {
	if strings.HasPrefix(n, "word/media/") {
		return "media"
	}
	return n
}

// lenientZip reads every readable entry and names the unreadable ones ("" for the archive itself).
func lenientZip(x []byte) (names []string, parts map[string][]byte, bad []string) {
	fs, err := zip.NewReader(bytes.NewReader(x), int64(len(x)))
	if err != nil {
		return nil, nil, []string{""}
	}
	parts = map[string][]byte{}
	for _, f := range fs.File {
		names = append(names, f.Name)
		r, err := f.Open()
		if err != nil {
			bad = append(bad, f.Name)
			continue
		}
		b, err := io.ReadAll(r)
		r.Close()
		if err != nil {
			bad = append(bad, f.Name)
			continue
		}
		parts[f.Name] = b
	}
	return
}

// parseFault parses under a read fault: an error, or the complete content.
func parseFault(c *Ctx, w *Watch, ra io.ReaderAt, failAt *int, fired *bool, b, good []byte, kind, rep string) {
	w.Do("parse with a failing read", func() string { return rep }, func() {
		d, err := docx.Parse(ra, int64(len(b)))
		c.Trans(1)
		c.Trace()
		c.State(rep)
		if err != nil {
			if !*fired {
				c.Fail("error without a fault: "+kind, err.Error(), rep)
			}
			return
		}
		*failAt = -1
		if of, ok := ra.(*offsetFault); ok {
			of.at = -1
		}
		x, err := Save(d)
		if err != nil || !sameParts(x, good) {
			c.Fail("failing read accepted: "+kind, fmt.Sprint(err), rep)
		}
	})
}

// values13 damages every value of the documents of the vocabulary: a part
// with a value that cannot be read is refused, whatever the value says, or
// taken with everything around the value.
func values13(c *Ctx, w *Watch) {
	texts := []string{"zz", "expected", "is unexpected", "is expected", "EOF", "unexpected EOF", "element closed by", "syntax error", "ignore", "nil", "12 is expected", "value out of range"}
	attr := regexp.MustCompile(`[a-zA-Z0-9]+:?[a-zA-Z0-9]+="[0-9-]+"`)
	shape := func(b []byte) string {
		var l []string
		d := xml.NewDecoder(bytes.NewReader(b))
		for {
			t, err := d.RawToken()
			if err != nil {
				return strings.Join(l, " ")
			}
			switch e := t.(type) {
			case xml.StartElement:
				l = append(l, e.Name.Local)
			case xml.EndElement:
				l = append(l, "/")
			}
		}
	}
	docs := vocabDocs(c.Pick(1, 3))
	Par(len(docs), func(i int) {
		v := docs[i]
		rels := []byte(RelsXML(Rel{"rId4", RelLink, "http://l/", "External"}, Rel{"rId5", RelImage, "media/image1.png", ""}, Rel{"rId17", RelLink, "&<>", "External"}))
		try := func(text string) (out string) {
			x := BuildZip([]ZipEntry{{relsPart, rels}, {docPart, []byte(text)}}, true)
			d, err := tryParse(x)
			c.Trans(1)
			c.Trace()
			if err != nil {
				return "refused"
			}
			b, err := Save(d)
			if err != nil {
				return "cannot be saved"
			}
			_, m, err := ReadZip(b)
			if err != nil {
				return "saved as an unreadable one"
			}
			return "accepted " + shape(m[docPart])
		}
		doc := DocXML(v.body)
		off := strings.Index(doc, "<w:body")
		good := try(doc)
		for _, at := range attr.FindAllStringIndex(doc[off:], -1) {
			a, b := off+at[0], off+at[1]
			q := a + strings.IndexByte(doc[a:b], '"') + 1
			for _, t := range texts {
				if c.Failing() {
					return
				}
				rep := fmt.Sprintf("%s: %s at %d has the value %q", v.name, doc[a:b], a, t)
				w.Do("damaged value", func() string { return rep }, func() {
					c.State(rep)
					got := try(doc[:q] + t + doc[b-1:])
					if got != "refused" && got != good {
						c.Fail("damaged value accepted with content missing", FirstDiff(good, got), rep)
					}
				})
			}
		}
	})
}
