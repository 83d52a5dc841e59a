package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"os"
	"path/filepath"
	"sort"

	docx "github.com/fumiama/go-docx"

	. "verif/harness/core"
)

func init() { checks["C19"] = check{"model_checking", runC19} }

// hdr19 makes the header of a picture; max: biggest dimension of the format.
type hdr19 struct {
	name, format string
	max          uint64
	mk           func(w, h uint64) []byte
}

func headers19() []hdr19 {
	be := func(n int, v uint64) []byte {
		b := make([]byte, 8)
		binary.BigEndian.PutUint64(b, v)
		return b[8-n:]
	}
	le := func(n int, v uint64) []byte {
		b := make([]byte, 8)
		binary.LittleEndian.PutUint64(b, v)
		return b[:n]
	}
	cat := func(bs ...[]byte) []byte { return bytes.Join(bs, nil) }
	s := func(x string) []byte { return []byte(x) }
	chunk := func(ty string, data []byte) []byte {
		body := cat(s(ty), data)
		return cat(be(4, uint64(len(data))), body, be(4, uint64(crc32.ChecksumIEEE(body))))
	}
	png := func(color, depth byte, extra ...[]byte) func(w, h uint64) []byte {
		return func(w, h uint64) []byte {
			return cat(append([][]byte{s("\x89PNG\r\n\x1a\n"), chunk("IHDR", cat(be(4, w), be(4, h), []byte{depth, color, 0, 0, 0}))}, append(extra, chunk("IDAT", s("x")), chunk("IEND", nil))...)...)
		}
	}
	riff := func(c []byte) []byte { return cat(s("RIFF"), le(4, uint64(4+len(c))), s("WEBP"), c) }
	wchunk := func(ty string, d []byte) []byte {
		c := cat(s(ty), le(4, uint64(len(d))), d)
		if len(d)%2 == 1 {
			c = append(c, 0)
		}
		return c
	}
	jpg := func(pre []byte, sof byte, comp int) func(w, h uint64) []byte {
		return func(w, h uint64) []byte {
			return cat(s("\xff\xd8"), pre, []byte{0xff, sof}, be(2, uint64(8+3*comp)), []byte{8}, be(2, h), be(2, w), []byte{byte(comp)}, make([]byte, 3*comp), s("\xff\xda\x00\x02\xff\xd9"))
		}
	}
	app0 := s("\xff\xe0\x00\x10JFIF\x00\x01\x01\x00\x00\x01\x00\x01\x00\x00")
	exif := cat(s("\xff\xe1\x00\x08Exif\x00\x00"), s("\xff\xfe\x00\x05abc"), s("\xff\xdb\x00\x04ab"))
	return []hdr19{
		{"png true colour", "png", 1<<31 - 1, png(2, 8)},
		{"png grey 1 bit", "png", 1<<31 - 1, png(0, 1)},
		{"png palette", "png", 1<<31 - 1, png(3, 8, chunk("PLTE", s("\x00\x00\x00\xff\xff\xff")), chunk("tRNS", s("\x00")))},
		{"png alpha 16", "png", 1<<31 - 1, png(6, 16, chunk("pHYs", make([]byte, 9)))},
		{"gif87", "gif", 65535, func(w, h uint64) []byte {
			return cat(s("GIF87a"), le(2, w), le(2, h), s("\x80\x00\x00"), make([]byte, 6), s(";"))
		}},
		{"gif89", "gif", 65535, func(w, h uint64) []byte { return cat(s("GIF89a"), le(2, w), le(2, h), s("\x00\x00\x31;")) }},
		{"jpeg baseline jfif", "jpeg", 65535, jpg(app0, 0xc0, 3)},
		{"jpeg extended grey", "jpeg", 65535, jpg(exif, 0xc1, 1)},
		{"jpeg progressive cmyk", "jpeg", 65535, jpg(nil, 0xc2, 4)},
		{"webp lossy", "webp", 1<<14 - 1, func(w, h uint64) []byte {
			return riff(wchunk("VP8 ", cat(s("\x10\x02\x00\x9d\x01\x2a"), le(2, w|1<<14), le(2, h|3<<14), s("xx"))))
		}},
		{"webp lossless", "webp", 1 << 14, func(w, h uint64) []byte {
			if w == 0 || h == 0 {
				return nil
			}
			return riff(wchunk("VP8L", cat([]byte{0x2f}, le(4, (w-1)|(h-1)<<14|1<<28), s("xx"))))
		}},
		{"webp extended", "webp", 1 << 24, func(w, h uint64) []byte {
			if w == 0 || h == 0 {
				return nil
			}
			return riff(cat(wchunk("VP8X", cat([]byte{0, 0, 0, 0}, le(3, w-1), le(3, h-1))), wchunk("VP8 ", s("x"))))
		}},
		{"webp extended alpha", "webp", 1 << 24, func(w, h uint64) []byte {
			if w == 0 || h == 0 {
				return nil
			}
			return riff(cat(wchunk("VP8X", cat([]byte{0x10, 0, 0, 0}, le(3, w-1), le(3, h-1))), wchunk("ALPH", s("x")), wchunk("VP8 ", s("x"))))
		}},
	}
}

const page19 = 5274310 // width of the text of an A4 page

// exts19 gives the sizes of the frame and of the picture.
func exts19(r *docx.Run) (f, p [2]int64, ok bool) {
	if r == nil || len(r.Children) != 1 {
		return
	}
	d, isD := r.Children[0].(*docx.Drawing)
	if !isD {
		return
	}
	var e *docx.WPExtent
	var g *docx.AGraphic
	switch {
	case d.Inline != nil && d.Anchor == nil:
		e, g = d.Inline.Extent, d.Inline.Graphic
	case d.Anchor != nil && d.Inline == nil:
		e, g = d.Anchor.Extent, d.Anchor.Graphic
	}
	if e == nil || g == nil || g.GraphicData == nil || g.GraphicData.Pic == nil || g.GraphicData.Pic.SpPr == nil {
		return
	}
	x := g.GraphicData.Pic.SpPr.Xfrm.Ext
	return [2]int64{e.CX, e.CY}, [2]int64{x.CX, x.CY}, true
}

func add19(p *docx.Paragraph, kind int, b []byte) (*docx.Run, error) {
	if kind == 0 {
		return p.AddInlineDrawing(b)
	}
	return p.AddAnchorDrawing(b)
}

func resize19(r *docx.Run, w, h int64) {
	d := r.Children[0].(*docx.Drawing)
	if d.Inline != nil {
		d.Inline.Size(w, h)
	} else {
		d.Anchor.Size(w, h)
	}
}

// saved19 reads the sizes of the drawings of a document from its saved form.
func saved19(d *docx.Docx) (out [][4]string, err error) {
	b, err := Save(d)
	if err != nil {
		return nil, err
	}
	p, err := ReadPkg(b)
	if err != nil {
		return nil, err
	}
	p.Doc.Walk(func(n *Node) {
		if n.Name == "w:drawing" {
			f := n.Kids[0]
			e, x := f.Child("wp:extent"), f.Path("a:graphic", "a:graphicData", "pic:pic", "pic:spPr", "a:xfrm", "a:ext")
			if e == nil || x == nil {
				out = append(out, [4]string{"missing"})
				return
			}
			out = append(out, [4]string{e.Attr("cx"), e.Attr("cy"), x.Attr("cx"), x.Attr("cy")})
		}
	})
	return out, nil
}

func runC19(c *Ctx) {
	c.Rule = "every width x height of the grid in every header, inline and anchored; every truncation and every one-byte change of every header; every resize of the domain in built, saved, reopened and copied documents"
	hs := headers19()
	// refused: nothing may have changed
	refused := func(d *docx.Docx, p *docx.Paragraph) string {
		n := 0
		d.RangeRelationships(func(*docx.Relationship) error { n++; return nil })
		if len(p.Children) != 0 || n != 3 || d.Media("image1.png") != nil || d.Media("image1.jpeg") != nil || d.Media("image1.gif") != nil || d.Media("image1.webp") != nil {
			return fmt.Sprintf("%d children, %d relationships", len(p.Children), n)
		}
		return ""
	}
	one := func(h hdr19, w, hh uint64, full bool) {
		b := h.mk(w, hh)
		if b == nil {
			return
		}
		for kind := 0; kind < 2; kind++ {
			rep := fmt.Sprintf("%s %dx%d %s", h.name, w, hh, []string{"inline", "anchored"}[kind])
			c.Guard("picture", rep, func() {
				d := docx.New()
				p := d.AddParagraph()
				r, err := add19(p, kind, b)
				c.Trans(1)
				c.Trace()
				if w == 0 || hh == 0 {
					c.State("zero " + rep)
					if err == nil {
						c.Fail("empty picture accepted", "", rep)
					} else if s := refused(d, p); s != "" {
						c.Fail("refused picture changes the document", s, rep)
					}
					return
				}
				if err != nil {
					c.Fail("picture refused", err.Error(), rep)
					return
				}
				f, x, ok := exts19(r)
				if !ok {
					c.Fail("picture without size", "", rep)
					return
				}
				want := int64(page19)
				if 5*w <= 6*hh { // not wider than 1.2 times the height
					want = page19 / 2
				}
				if f != x {
					c.Fail("frame and picture differ in size", fmt.Sprint(f, x), rep)
				}
				if f[0] != want {
					c.Fail("wrong width", fmt.Sprintf("%d, want %d", f[0], want), rep)
				}
				// |f1 - want*h/w| <= 1, exactly
				if dlt := f[1]*int64(w) - want*int64(hh); dlt > int64(w) || dlt < -int64(w) {
					c.Fail("aspect ratio not kept", fmt.Sprintf("%d x %d", f[0], f[1]), rep)
				}
				c.State(fmt.Sprint(h.name, f, kind))
				if !full {
					return
				}
				got, err := saved19(mini(d))
				if err != nil || len(got) != 1 || got[0] != [4]string{fmt.Sprint(f[0]), fmt.Sprint(f[1]), fmt.Sprint(f[0]), fmt.Sprint(f[1])} {
					c.Fail("saved size differs", fmt.Sprint(got, err), rep)
				}
				if m := d.Media("image1." + h.format); m == nil || !bytes.Equal(m.Data, b) {
					c.Fail("picture bytes", "not stored as "+h.format, rep)
				}
			})
		}
	}
	n := uint64(c.Pick(60, 260))
	Par(int(n+1), func(i int) {
		for j := uint64(0); j <= n; j++ {
			for hi, h := range hs {
				if hi > 0 && !c.Thorough() && i > 24 && (uint64(i)+j)%7 != 0 && 5*i != 6*int(j) {
					continue
				}
				one(h, uint64(i), j, i < 7 && j < 7)
			}
		}
	})
	// around the ratio, and extreme sizes
	var dims []uint64
	seen := map[uint64]bool{}
	addDim := func(v uint64) {
		if !seen[v] {
			seen[v] = true
			dims = append(dims, v)
		}
	}
	for b := uint(0); b <= 31; b++ {
		for d := uint64(0); d < 3; d++ {
			if v := uint64(1)<<b + d; v > 1 {
				addDim(v - 1)
			}
		}
	}
	for _, v := range []uint64{1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, page19, page19 + 1, page19 - 1, 2*page19 + 1, 595, 842, 1080, 1920, 3840} {
		addDim(v)
	}
	sort.Slice(dims, func(i, j int) bool { return dims[i] < dims[j] })
	Par(len(dims), func(i int) {
		for _, h := range hs {
			for _, v := range dims {
				if dims[i] <= h.max && v <= h.max {
					one(h, dims[i], v, i%8 == 0 && v%5 == 0)
				}
			}
			for d := -3; d <= 3; d++ {
				if w := int64(dims[i])*6/5 + int64(d); w > 0 && uint64(w) <= h.max && dims[i] <= h.max {
					one(h, uint64(w), dims[i], d == 0)
				}
			}
		}
	})
	// damaged headers: refused without any change, or placed with a width
	Par(len(hs), func(hi int) {
		h := hs[hi]
		b := h.mk(12, 7)
		try := func(x []byte, rep string) {
			for kind := 0; kind < 2; kind++ {
				c.Guard("damaged picture", rep, func() {
					d := docx.New()
					p := d.AddParagraph()
					r, err := add19(p, kind, x)
					c.Trans(1)
					c.Trace()
					if err != nil {
						if s := refused(d, p); s != "" {
							c.Fail("refused picture changes the document", s, rep)
						}
						return
					}
					f, pp, ok := exts19(r)
					if !ok || f != pp || (f[0] != page19 && f[0] != page19/2) || f[1] < 0 {
						c.Fail("damaged picture placed without size", fmt.Sprint(f, pp, ok), rep)
					}
				})
			}
		}
		for i := 0; i <= len(b); i++ {
			try(b[:i], fmt.Sprintf("%s cut to %d bytes", h.name, i))
		}
		for i := range b {
			for v := 0; v < 256; v++ {
				x := append([]byte(nil), b...)
				x[i] = byte(v)
				try(x, fmt.Sprintf("%s byte %d = %#x", h.name, i, v))
			}
		}
		c.State("damaged " + h.name)
	})
	// resizing, at every stage of the life of a picture
	sizes := []int64{0, 1, 2, page19, page19 + 1, 1 << 31, 27273042316900, -1}
	stages := map[string]func(r *docx.Run, d *docx.Docx, kind int) (*docx.Docx, *docx.Run){
		"added": func(r *docx.Run, d *docx.Docx, kind int) (*docx.Docx, *docx.Run) { return d, r },
		"reopened": func(r *docx.Run, d *docx.Docx, kind int) (*docx.Docx, *docx.Run) {
			b, _ := Save(d)
			d2 := mustParse(b)
			return d2, d2.Document.Body.Items[0].(*docx.Paragraph).Children[0].(*docx.Run)
		},
		"appended": func(r *docx.Run, d *docx.Docx, kind int) (*docx.Docx, *docx.Run) {
			d2 := mini(docx.New())
			d2.AppendFile(d)
			return d2, d2.Document.Body.Items[0].(*docx.Paragraph).Children[0].(*docx.Run)
		},
		"split": func(r *docx.Run, d *docx.Docx, kind int) (*docx.Docx, *docx.Run) {
			d2 := d.SplitByParagraph(func(*docx.Paragraph) bool { return true })[0]
			return d2, d2.Document.Body.Items[0].(*docx.Paragraph).Children[0].(*docx.Run)
		},
	}
	for sn, st := range stages {
		for kind := 0; kind < 2; kind++ {
			for _, w := range sizes {
				for _, h := range sizes {
					rep := fmt.Sprintf("%s, kind %d, Size(%d, %d)", sn, kind, w, h)
					c.Guard("resize", rep, func() {
						d0 := mini(docx.New())
						r0, err := add19(d0.AddParagraph(), kind, hs[0].mk(3, 2))
						if err != nil {
							c.Fail("resize: add", err.Error(), rep)
							return
						}
						r1, _ := add19(d0.AddParagraph(), kind, hs[0].mk(2, 3)) // another one stays as it is
						f1, _, _ := exts19(r1)
						d, r := st(r0, d0, kind)
						resize19(r, w, h)
						c.Trans(3)
						c.Trace()
						c.State(rep)
						f, x, ok := exts19(r)
						if !ok || f != [2]int64{w, h} || x != f {
							c.Fail("Size does not set both sizes", fmt.Sprint(f, x), rep)
						}
						if g, x, _ := exts19(r1); g != f1 || x != f1 {
							c.Fail("Size changes another picture", fmt.Sprint(g), rep)
						}
						got, err := saved19(d)
						s := [4]string{fmt.Sprint(w), fmt.Sprint(h), fmt.Sprint(w), fmt.Sprint(h)}
						if err != nil || len(got) == 0 || got[0] != s {
							c.Fail("size not saved", fmt.Sprint(got, err), rep)
						}
						if sn != "added" { // the original keeps its size
							if g, _, _ := exts19(r0); g[0] != page19 {
								c.Fail("Size changes the source", fmt.Sprint(g), rep)
							}
						}
						resize19(r, 7, 8)
						if f, x, _ := exts19(r); f != [2]int64{7, 8} || x != f {
							c.Fail("Size does not set both sizes", fmt.Sprint(f, x), rep+" again")
						}
					})
				}
			}
		}
	}
	// from files
	dir, clean := Scratch()
	defer clean()
	for _, h := range hs {
		fn := filepath.Join(dir, "p")
		os.WriteFile(fn, h.mk(30, 20), 0o600)
		for kind := 0; kind < 2; kind++ {
			p := docx.New().AddParagraph()
			var r *docx.Run
			var err error
			if kind == 0 {
				r, err = p.AddInlineDrawingFrom(fn)
			} else {
				r, err = p.AddAnchorDrawingFrom(fn)
			}
			c.Trans(1)
			f, x, ok := exts19(r)
			if err != nil || !ok || f != [2]int64{page19, page19 * 2 / 3} || x != f {
				c.Fail("picture from a file", fmt.Sprint(f, x, err), h.name)
			}
		}
	}
	c.Assume("sizes up to what the header of each format can hold; the decoder of headers (imgsz) is taken as it is")
}
