package main

import (
	"bytes"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net/url"
	"path"
	"sort"
	"strings"

	docx "github.com/fumiama/go-docx"

	. "verif/harness/core"
)

func init() { checks["C20"] = check{"model_checking", runC20} }

var errStop20 = errors.New("stop")

// look20 compares every lookup of d with the saved package p.
func look20(d *docx.Docx, p *Pkg, queries []string) string {
	want, byID, byTarget := []docx.Relationship{}, map[string]string{}, map[string][]string{}
	for _, r := range p.Rels {
		want = append(want, docx.Relationship{ID: r.ID, Type: r.Type, Target: r.Target, TargetMode: r.Mode})
		byID[r.ID] = r.Target
		byTarget[r.Target] = append(byTarget[r.Target], r.ID)
	}
	iter := func() (got []docx.Relationship, err error) {
		err = d.RangeRelationships(func(r *docx.Relationship) error { got = append(got, *r); return nil })
		return
	}
	same := func(got []docx.Relationship) bool {
		if len(got) != len(want) {
			return false
		}
		for i := range got {
			g := got[i]
			w := want[i]
			if g.ID != w.ID || g.Type != w.Type || g.Target != w.Target || g.TargetMode != w.TargetMode {
				return false
			}
		}
		return true
	}
	got, err := iter()
	if err != nil || !same(got) {
		return fmt.Sprintf("iteration gives %v (%v), saved %v", got, err, want)
	}
	for k := range want { // stop at each one
		n := 0
		err := d.RangeRelationships(func(r *docx.Relationship) error {
			if n > k {
				return errors.New("went on")
			}
			n++
			if n == k+1 {
				return errStop20
			}
			return nil
		})
		if err != errStop20 || n != k+1 {
			return fmt.Sprintf("iteration stopped at %d: %v after %d", k, err, n)
		}
	}
	for ki, e := range append(faultKinds, io.EOF, fs.SkipAll, fs.SkipDir, docx.ErrRefIDNotFound, docx.ErrRefTargetNotFound, xml.UnmarshalError("")) { // any error is returned as it is
		if len(want) == 0 {
			break
		}
		k, n := ki%len(want), 0
		err := d.RangeRelationships(func(r *docx.Relationship) error {
			n++
			if n == k+1 {
				return e
			}
			return nil
		})
		if err != e || n != k+1 {
			return fmt.Sprintf("iteration stopped at %d with %v: %v after %d", k, e, err, n)
		}
	}
	// what the function does to its argument is its own
	d.RangeRelationships(func(r *docx.Relationship) error {
		r.ID, r.Target, r.Type, r.TargetMode = "x", "x", "x", "x"
		return nil
	})
	if got, _ := iter(); !same(got) {
		return "iteration changes the document"
	}
	q := map[string]bool{"": true, "rId": true, "rId0": true, "rid1": true, "RID1": true, " rId1": true, "rId1 ": true, "rId01": true, "1": true, "rId99999999999": true, "*": true, "media/": true}
	for _, s := range queries {
		q[s] = true
	}
	for id, tg := range byID {
		for _, s := range []string{id, id + "0", id[:len(id)-1], strings.ToUpper(id), tg, tg + "x", strings.TrimPrefix(tg, "media/"), "word/" + tg, "/word/" + tg, strings.ToUpper(tg),
			"./" + tg, "/" + tg, "../word/" + tg, strings.TrimPrefix(tg, "/word/"), strings.TrimPrefix(tg, "word/"), strings.TrimPrefix(tg, "/"), strings.TrimPrefix(tg, "./"), strings.TrimPrefix(tg, "../"), strings.ToLower(tg), tg + "/",
			strings.TrimSuffix(tg, "/"), strings.TrimSpace(tg), url.PathEscape(tg), url.QueryEscape(tg), unescape(tg), strings.TrimPrefix(strings.TrimPrefix(tg, "http:"), "https:"), strings.ReplaceAll(tg, "/", "\\"), tg + "#", strings.SplitN(tg, "#", 2)[0], strings.SplitN(tg, "?", 2)[0], tg + "\x00"} {
			q[s] = true
		}
	}
	for s := range q {
		tg, err := d.ReferTarget(s)
		if w, ok := byID[s]; ok && (err != nil || tg != w) || !ok && (tg != "" || !errors.Is(err, docx.ErrRefIDNotFound)) {
			return fmt.Sprintf("ReferTarget(%q) = %q, %v; saved %q", s, tg, err, w)
		}
		id, err := d.ReferID(s)
		if w, ok := byTarget[s]; ok {
			if err != nil || byID[id] != s {
				return fmt.Sprintf("ReferID(%q) = %q, %v; saved %q", s, id, err, w)
			}
		} else if id != "" || !errors.Is(err, docx.ErrRefTargetNotFound) {
			return fmt.Sprintf("ReferID(%q) = %q, %v; not in the document", s, id, err)
		}
	}
	// media
	names := map[string]bool{"": true, "image0.png": true, "image99999.png": true, "IMAGE1.PNG": true, ".": true}
	for n := range p.Parts {
		names[n] = true
		if b := strings.TrimPrefix(n, "word/media/"); b != n && b != "" {
			for _, s := range []string{b + "x", b + "\x00", b[:len(b)-1], b[1:], strings.TrimSuffix(b, path.Ext(b)), "media/" + b, "./" + b, "/" + b, b + "/", " " + b, b + " ", path.Base(b), strings.ToLower(b), unescape(b), url.PathEscape(b), b + "." + b,
				strings.TrimSuffix(b, path.Ext(b)) + strings.ToUpper(path.Ext(b)), strings.TrimSuffix(b, path.Ext(b)) + ".png", "image" + b, strings.TrimPrefix(b, "image")} {
				names[s] = true
			}
		}
		names[strings.TrimPrefix(n, "word/media/")] = true
		names[strings.ToUpper(strings.TrimPrefix(n, "word/media/"))] = true
	}
	for n := range names {
		m := d.Media(n)
		b, ok := p.Parts["word/media/"+n]
		switch {
		case ok && m == nil:
			return fmt.Sprintf("Media(%q) not found", n)
		case !ok && m != nil:
			return fmt.Sprintf("Media(%q) found, but not in the document", n)
		case ok && (m.Name != n || !bytes.Equal(m.Data, b) || m.String() != "word/media/"+n):
			return fmt.Sprintf("Media(%q) is %q (%s) with %d bytes, saved %d", n, m.Name, m, len(m.Data), len(b))
		}
	}
	if got, _ := iter(); !same(got) {
		return "lookups change the document"
	}
	return ""
}

// unescape undoes percent encoding.
func unescape(s string) string {
	if u, err := url.PathUnescape(s); err == nil {
		return u
	}
	return s
}

func runC20(c *Ctx) {
	c.Rule = "every history up to the depth from every pair of start documents; after every operation every lookup of the domain in both documents and all pieces is compared with the saved packages; lookups before saving again must not change what is saved"
	queries := []string{"http://l/", "http://l", "http://L/", "http://m/", "http://cell/", "media/image1.png", "media/image2.png", "media/image1.gif", "media/image2.gif", "image1.png", "rId1", "rId2", "rId3", "rId4", "rId5", "rId6", "rId7", "http://old/"}
	ops := []HOp{hPara("S"), hLink("l", "http://l/"), hLink("l", "http://m/"), hPic("inline", "png", 2, 1), hPic("anchor", "gif", 1, 2), hTable(true),
		hReopen(), hAppend(1), hAppend(0), hSwap(), hSplit(false), hSplit(true), hLoad(true), hLoad(false)}
	chk := func(t *trans) {
		for i, m := range t.h.s {
			if m == nil {
				continue
			}
			p := t.after.pkg[i]
			c.State(fmt.Sprint(p.Rels, mediaOf(p)))
			if s := look20(m.d, p, queries); s != "" {
				c.Fail("after "+t.op.Kind+": "+strings.SplitN(strings.SplitN(s, "(", 2)[0], " gives", 2)[0], s, t.rep)
				return
			}
			c.Eval()
			b, err := Save(m.d)
			if err != nil {
				c.Fail("save after lookups", err.Error(), t.rep)
				return
			}
			if p2, err := ReadPkg(b); err != nil || partsDiff(p, p2) != "" {
				c.Fail("lookups change the document", fmt.Sprint(err, partsDiff(p, p2)), t.rep)
			}
		}
		for _, m := range t.h.pieces {
			b, err := Save(m.d)
			if err != nil {
				continue
			}
			if p, err := ReadPkg(b); err == nil {
				if s := look20(m.d, p, queries); s != "" {
					c.Fail("piece: "+strings.SplitN(s, "(", 2)[0], s, t.rep)
				}
			}
		}
		if t.h.newID != "" { // the id just given out leads to the target it was made for
			want := strings.TrimSuffix(t.op.Name[strings.Index(t.op.Name, "(")+1:], ")")
			if tg, err := t.h.s[0].d.ReferTarget(t.h.newID); err != nil || tg != want {
				c.Fail("new link", fmt.Sprintf("%q: %q, %v", t.h.newID, tg, err), t.rep)
			}
		}
		// what was found before is found again with the same target
		if t.op.Kind == "add" || t.op.Kind == "append" || t.op.Kind == "none" {
			for _, r := range t.before.pkg[0].Rels {
				if tg, err := t.h.s[0].d.ReferTarget(r.ID); err != nil || tg != r.Target {
					c.Fail("target of an existing id", fmt.Sprintf("%q: %q, %v; was %q", r.ID, tg, err, r.Target), t.rep)
				}
			}
		}
	}
	exploreH(c, startsH(), ops, c.Pick(3, 4), chk)
	exploreBulk(c, chk)
	for _, tg := range []string{"media/image1.png", "styles.xml", "", "#a b", "http://é?a=1&b=<\"'>", "HTTP://L/", "rId1", "a)b"} {
		queries = append(queries, tg)
		exploreH(c, startsH(), []HOp{hLink("l", tg), hLink("l", "http://l/"), hPic("inline", "png", 2, 1), hAppend(1), hSwap(), hReopen(), hSplit(true), hLoad(true)}, c.Pick(2, 3), chk)
	}
	targets20(c, queries)
	names20(c, queries)
	c.Assume("relationship ids have the form rIdN: packages with other ids are refused when parsed")
	parsedMany20(c, queries)
	// parsed relationships of every kind, in every order
	rels := []Rel{{ID: "rId3", Type: RelLink, Target: "http://a/?x=1&y=2", Mode: "External"}, {ID: "rId2", Type: RelLink, Target: "http://a/?x=1&y=2", Mode: "External"},
		{ID: "rId10", Type: RelImage, Target: "media/pic b.png"}, {ID: "rId0007", Type: "urn:x", Target: "größe \"1\".xml"}, {ID: "rId1", Type: "urn:x", Target: " "}, {ID: "rId11", Type: "urn:x", Target: "rId1"}}
	perm(len(rels), func(ix []int) {
		for n := 0; n <= len(ix); n++ {
			rs := []Rel{}
			for _, i := range ix[:n] {
				rs = append(rs, rels[i])
			}
			rep := fmt.Sprint(rs)
			if !c.State(rep) {
				continue
			}
			c.Guard("parsed relationships", rep, func() {
				b := MiniPackage(DocXML(E("w:body", nil)), RelsXML(rs...), ZipEntry{Name: "word/media/pic b.png", Data: Img("png", 1, 1, 3)}, ZipEntry{Name: "word/media/sub.gif", Data: Img("gif", 1, 1, 4)})
				d := mustParse(b)
				p, err := ReadPkg(b)
				if err != nil {
					c.Fail("harness", err.Error(), rep)
					return
				}
				c.Trans(1)
				c.Trace()
				if s := look20(d, p, queries); s != "" {
					c.Fail("parsed: "+strings.SplitN(s, "(", 2)[0], s, rep)
				}
				c.Eval()
			})
		}
	})
}

// names20 has media of every form of name.
func names20(c *Ctx, queries []string) {
	ns := []string{"a", "a.b", "a.png.png", ".png", "png", "image1", "image1.", "Image1.png", "image1.PNG", "image1.png", "image01.png", "image1.jpg", "sub/image1.png", "sub/sub/x", "größe 1.png", "gro%C3%9Fe.png", "a b.png", "a%20b.png", "a+b.png", "图片.png", "~a", "a~", "-", "_rels.png", "..a", "a..", "&.gif"}
	for _, l := range []int{8, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256, 1000} {
		ns = append(ns, strings.Repeat("m", l), strings.Repeat("m", l)+".png", strings.Repeat("m", l-1)+"n.png")
	}
	Par(len(ns)+1, func(k int) {
		part := ns
		if k < len(ns) {
			part = ns[k : k+1]
		}
		rep := fmt.Sprintf("media named %q", part)
		c.Guard("names", rep, func() {
			rs := BaseRels()
			var es []ZipEntry
			for i, n := range part {
				rs = append(rs, Rel{fmt.Sprint("rId", 20+i), RelImage, "media/" + n, ""})
				es = append(es, ZipEntry{Name: "word/media/" + n, Data: Img("png", 1, 1, i)})
			}
			b := MiniPackage(DocXML(E("w:body", nil, E("w:p", nil))), RelsXML(rs...), es...)
			p, err := ReadPkg(b)
			if err != nil {
				c.Fail("harness", err.Error(), rep)
				return
			}
			d := mustParse(b)
			d.AddParagraph().AddInlineDrawing(Img("png", 1, 1, 99))
			for round := 0; round < 2; round++ {
				p, _, err = savePkg(d)
				if err != nil {
					c.Fail("names: save", err.Error(), rep)
					return
				}
				for i, n := range part {
					if m := d.Media(n); m == nil || !bytes.Equal(m.Data, Img("png", 1, 1, i)) {
						c.Fail("names: Media", fmt.Sprintf("%q", n), rep)
					}
				}
				if s := look20(d, p, queries); s != "" {
					c.Fail("names: "+strings.SplitN(s, "(", 2)[0], s, rep)
				}
				raw, err := Save(d)
				if err != nil {
					c.Fail("names: save", err.Error(), rep)
					return
				}
				d = mustParse(raw)
			}
			c.Trans(2)
			c.State(rep)
			c.Eval()
			c.Trace()
		})
	})
}

// targets20 has links to every usual form of target, given by the calls, read from a package, and taken over by appending.
func targets20(c *Ctx, queries []string) {
	us := append(append(append([]string{}, URLs...), Puncts...), Words...)
	const per = 20
	Par(3*(len(us)+per-1)/per+3, func(k int) {
		how, lo := k%3, k/3*per
		if lo >= len(us) {
			return
		}
		part := us[lo:]
		if len(part) > per {
			part = part[:per]
		}
		rep := fmt.Sprintf("targets %q, way %d", part, how)
		c.Guard("targets", rep, func() {
			d := docx.New()
			switch how {
			case 0, 1:
				p := d.AddParagraph()
				for _, u := range part {
					p.AddLink("l", u)
					tg, err := d.ReferTarget(p.Children[len(p.Children)-1].(*docx.Hyperlink).ID)
					if err != nil || tg != u {
						c.Fail("target of a new link", fmt.Sprintf("%q: %q, %v", u, tg, err), rep)
					}
				}
				if how == 1 {
					d2 := docx.New()
					d2.AddParagraph().AddLink("x", part[0])
					d2.AppendFile(d)
					d = d2
				}
			case 2:
				rs := append(BaseRels(), Rel{"rId90", RelBase + "theme", "/word/theme/theme9.xml", ""}, Rel{"rId91", RelBase + "customXml", "../customXml/item1.xml", ""},
					Rel{"rId92", RelBase + "header", "./header1.xml", ""}, Rel{"rId93", RelBase + "footer", "word/footer1.xml", ""}, Rel{"rId94", RelBase + "customXml", "/customXml/item%202.xml", "Internal"})
				for i, u := range part {
					rs = append(rs, Rel{fmt.Sprint("rId", 20+i), RelLink, u, "External"})
				}
				d = mustParse(MiniPackage(DocXML(E("w:body", nil, E("w:p", nil))), RelsXML(rs...)))
				for i, u := range part {
					if tg, err := d.ReferTarget(fmt.Sprint("rId", 20+i)); err != nil || tg != u {
						c.Fail("target of a parsed link", fmt.Sprintf("%q: %q, %v", u, tg, err), rep)
					}
				}
			}
			c.Trans(len(part))
			c.State(rep)
			p, _, err := savePkg(d)
			if err != nil {
				c.Fail("targets: save", err.Error(), rep)
				return
			}
			have := map[string]bool{}
			for _, r := range p.Rels {
				have[r.Target] = true
			}
			for _, u := range part {
				if !have[u] {
					c.Fail("targets: not in the saved package", fmt.Sprintf("%q", u), rep)
				}
			}
			if s := look20(d, p, append(queries, part...)); s != "" {
				c.Fail("targets: "+strings.SplitN(s, "(", 2)[0], s, rep)
			}
			c.Eval()
			c.Trace()
		})
	})
}

// parsedMany20 looks up in parsed packages with many relationships and media, in every order of a set.
func parsedMany20(c *Ctx, queries []string) {
	ns := []int{2, 3, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 130, 255, 256, 257, 300, 999, 1000, 1001, 2000}
	orders := []string{"rising", "falling", "even first", "text order", "shuffled by 7"}
	Par(len(ns)*len(orders)*3, func(k int) {
		n, o, ids := ns[k/15], orders[k/3%5], k%3
		rs := make([]Rel, n)
		var es []ZipEntry
		for i := range rs {
			id := i + 1
			switch ids {
			case 1: // with gaps
				id = 3*i + 50
			case 2: // of different lengths, equal in number only to none
				id = i*i + 7
			}
			switch i % 4 {
			case 0:
				rs[i] = Rel{ID: fmt.Sprint("rId", id), Type: RelLink, Target: fmt.Sprintf("http://m/%d", n-i), Mode: "External"}
			case 1:
				name := fmt.Sprintf("image%d.png", n+i)
				rs[i] = Rel{ID: fmt.Sprint("rId", id), Type: RelImage, Target: "media/" + name}
				es = append(es, ZipEntry{Name: "word/media/" + name, Data: Img("png", 1, 1, i)})
			case 2:
				rs[i] = Rel{ID: fmt.Sprint("rId", id), Type: "urn:x", Target: fmt.Sprintf("x%d.xml", i)}
			case 3: // the same target more than once
				rs[i] = Rel{ID: fmt.Sprint("rId", id), Type: RelLink, Target: fmt.Sprintf("http://same/%d", i%40), Mode: "External"}
			}
		}
		switch o {
		case "falling":
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				rs[i], rs[j] = rs[j], rs[i]
			}
		case "even first":
			sort.SliceStable(rs, func(i, j int) bool { return len(rs[i].Target)%2 < len(rs[j].Target)%2 })
		case "text order":
			sort.SliceStable(rs, func(i, j int) bool { return rs[i].ID < rs[j].ID })
		case "shuffled by 7":
			for i := range rs {
				j := (i * 7) % n
				rs[i], rs[j] = rs[j], rs[i]
			}
		}
		rep := fmt.Sprintf("package with %d relationships, %s, ids %d", n, o, ids)
		c.Guard("parsed, many", rep, func() {
			b := MiniPackage(DocXML(E("w:body", nil, E("w:p", nil))), RelsXML(rs...), es...)
			d := mustParse(b)
			p, err := ReadPkg(b)
			if err != nil {
				c.Fail("harness", err.Error(), rep)
				return
			}
			c.Trans(2)
			c.Trace()
			c.State(rep)
			if s := look20(d, p, queries); s != "" {
				c.Fail("parsed, many: "+strings.SplitN(s, "(", 2)[0], s, rep)
				return
			}
			// after one more link and picture
			para := d.AddParagraph()
			para.AddLink("l", "http://l/")
			para.AddInlineDrawing(Img("png", 2, 1, 9))
			p, _, err = savePkg(d)
			if err != nil {
				c.Fail("parsed, many: save", err.Error(), rep)
				return
			}
			if s := look20(d, p, queries); s != "" {
				c.Fail("parsed, many, extended: "+strings.SplitN(s, "(", 2)[0], s, rep)
			}
			c.Eval()
		})
	})
}

// perm calls f with every permutation of 0..n-1.
func perm(n int, f func([]int)) {
	ix := make([]int, n)
	for i := range ix {
		ix[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			f(ix)
			return
		}
		for i := k; i < n; i++ {
			ix[k], ix[i] = ix[i], ix[k]
			rec(k + 1)
			ix[k], ix[i] = ix[i], ix[k]
		}
	}
	rec(0)
}
