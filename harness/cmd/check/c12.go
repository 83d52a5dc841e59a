package main

import (
	"archive/zip"
	"bytes"
	"context"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"reflect"
	"strings"
	"sync"
	"syscall"
	"testing/fstest"
	"time"

	docx "github.com/fumiama/go-docx"

	. "verif/harness/core"
)

func init() { checks["C12"] = check{"model_checking", runC12} }

var errFault = errors.New("injected fault")

// faultKinds are the errors a destination, an open or a read may give: none of them may be taken for something harmless.
var faultKinds = []error{errFault, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrShortBuffer, io.ErrNoProgress, io.ErrClosedPipe, fs.ErrNotExist, fs.ErrExist, fs.ErrPermission, fs.ErrClosed, fs.ErrInvalid,
	os.ErrDeadlineExceeded, context.Canceled, context.DeadlineExceeded, syscall.EINTR, syscall.EAGAIN, syscall.ENOSPC, syscall.EPIPE, zip.ErrFormat, zip.ErrChecksum,
	&fs.PathError{Op: "open", Path: "x", Err: fs.ErrNotExist}, &fs.PathError{Op: "read", Path: "x", Err: io.ErrUnexpectedEOF}, fmt.Errorf("wrapped: %w", fs.ErrNotExist), fmt.Errorf("wrapped: %w", io.EOF), fmt.Errorf("wrapped: %w", io.ErrUnexpectedEOF), temporary{}, joined{}, errors.New("expected element type <w:body> but have <body>")}

// temporary calls itself temporary and a timeout.
type temporary struct{}

func (temporary) Error() string   { return "" }
func (temporary) Temporary() bool { return true }
func (temporary) Timeout() bool   { return true }

// joined is every well-known error at once.
type joined struct{}

func (joined) Error() string        { return "EOF" }
func (joined) Is(target error) bool { return true }

// faultWriter accepts bytes until the fault.
type faultWriter struct {
	mode  string
	at    int // byte count or call number
	got   bytes.Buffer
	calls int
	fired bool
	e     error
}

func (w *faultWriter) err() error {
	if w.e != nil {
		return w.e
	}
	return errFault
}

func (w *faultWriter) Write(p []byte) (int, error) {
	w.calls++
	forever := strings.HasSuffix(w.mode, "forever")
	switch {
	case strings.HasPrefix(w.mode, "call"):
		if w.calls-1 == w.at || (forever && w.calls-1 > w.at) {
			w.fired = true
			if strings.Contains(w.mode, "all") && strings.Contains(w.mode, "taken") {
				w.got.Write(p)
				return len(p), w.err()
			}
			return 0, w.err()
		}
	case strings.HasPrefix(w.mode, "byte"), strings.HasPrefix(w.mode, "short"):
		if (!w.fired || forever) && w.got.Len()+len(p) > w.at {
			n := w.at - w.got.Len()
			if n < 0 {
				n = 0
			}
			if strings.Contains(w.mode, "by one") { // all but the last byte
				n = len(p) - 1
			}
			w.fired = true
			w.got.Write(p[:n])
			if strings.HasPrefix(w.mode, "short") {
				return n, nil
			}
			return n, w.err()
		}
	}
	w.got.Write(p)
	return len(p), nil
}

// faultFS counts opened and closed files and injects faults.
type faultFS struct {
	mu       sync.Mutex
	inner    fs.FS
	openFail string // name whose Open fails
	readFail string // name whose reading fails
	at       int    // after this many bytes
	style    string // err (separate), with (together with data), one (one byte at a time), zero (empty reads between), eof (data with EOF)
	opened   int
	closed   int
	over     int // closed more than once
	fired    bool
	e        error
}

func (f *faultFS) err() error {
	if f.e != nil {
		return f.e
	}
	return errFault
}

type faultFile struct {
	fs.File
	f      *faultFS
	name   string
	done   int
	zero   bool
	closed bool
	rest   []byte
}

func (f *faultFS) Open(name string) (fs.File, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.openFail != "" && strings.HasSuffix(name, f.openFail) {
		f.fired = true
		return nil, f.err()
	}
	x, err := f.inner.Open(name)
	if err != nil {
		return nil, err
	}
	f.opened++
	ff := &faultFile{File: x, f: f, name: name}
	ff.rest, _ = io.ReadAll(x)
	return ff, nil
}

func (x *faultFile) Close() error {
	x.f.mu.Lock()
	defer x.f.mu.Unlock()
	if x.closed {
		x.f.over++
	} else {
		x.f.closed++
	}
	x.closed = true
	return x.File.Close()
}

func (x *faultFile) Read(p []byte) (int, error) {
	if x.closed {
		return 0, fs.ErrClosed
	}
	f := x.f
	fail := f.readFail != "" && strings.HasSuffix(x.name, f.readFail)
	lim := len(x.rest)
	if fail && f.at-x.done < lim {
		lim = f.at - x.done
	}
	if f.style == "one" && lim > 1 {
		lim = 1
	}
	if f.style == "zero" {
		x.zero = !x.zero
		if x.zero {
			return 0, nil
		}
	}
	if len(p) < lim {
		lim = len(p)
	}
	if lim < 0 {
		lim = 0
	}
	n := copy(p, x.rest[:lim])
	x.rest = x.rest[n:]
	x.done += n
	if fail && x.done >= f.at && (n == 0 || f.style == "with") {
		f.fired = true
		return n, f.err()
	}
	if len(x.rest) == 0 && (n == 0 || f.style == "eof") {
		return n, io.EOF
	}
	return n, nil
}

// badItem fails while being marshalled, after writing some tokens.
type badItem struct {
	after int
	err   error
	open  bool
}

func (b badItem) MarshalXML(e *xml.Encoder, _ xml.StartElement) error {
	for i := 0; i < b.after; i++ {
		if err := e.EncodeToken(xml.StartElement{Name: xml.Name{Local: "w:p"}}); err != nil {
			return err
		}
		if err := e.EncodeToken(xml.EndElement{Name: xml.Name{Local: "w:p"}}); err != nil {
			return err
		}
	}
	if b.open {
		return e.EncodeToken(xml.StartElement{Name: xml.Name{Local: "w:p"}})
	}
	return b.err
}

// badText fails while being marshalled as text.
type badText struct{ err error }

func (b badText) MarshalText() ([]byte, error) { return nil, b.err }

// bads12 lists values that cannot be written.
func bads12() (out []struct {
	name string
	v    interface{}
}) {
	add := func(n string, v interface{}) {
		out = append(out, struct {
			name string
			v    interface{}
		}{n, v})
	}
	for after := 0; after < 3; after++ {
		add(fmt.Sprint("refused after ", after, " elements"), badItem{after: after, err: errFault})
	}
	for _, err := range []error{io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, fs.ErrNotExist, fs.ErrClosed, &xml.UnsupportedTypeError{Type: reflect.TypeOf(1)}, xml.UnmarshalError("expected element type <p> but have <q>"), errors.New("expected element type <p>"), errors.New("")} {
		add(fmt.Sprintf("%T %q", err, err), badItem{err: err})
		add(fmt.Sprintf("text %T %q", err, err), badText{err})
	}
	add("unclosed", badItem{open: true})
	add("map", map[string]string{"a": "b"})
	add("channel", make(chan int))
	add("function", func() {})
	add("struct of a channel", &struct{ C chan int }{make(chan int)})
	add("complex", complex(1, 2))
	return
}

// doc12 is a document to be saved, over a template file system that can be made faulty.
type doc12 struct {
	name  string
	mk    func() (*docx.Docx, *faultFS)
	files []string
	huge  bool // explored at fewer points
}

func docs12() []doc12 {
	rng := rand.New(rand.NewSource(1)) // only for incompressible contents
	noise := make([]byte, 30000)
	rng.Read(noise)
	pic := append(append([]byte(nil), Img("jpeg", 2, 1, 3)...), noise...)
	n, l, f := MiniTemplate()
	content := func(d *docx.Docx, big bool) {
		p := d.AddParagraph()
		p.AddText("x").Bold()
		p.AddLink("l", "http://l/")
		p.AddInlineDrawing(Img("png", 1, 1, 9))
		t := d.AddTable(1, 1, 0, nil)
		t.TableRows[0].TableCells[0].AddParagraph().AddText("cell")
		if big {
			p.AddAnchorDrawing(pic)
			for i := 0; i < 300; i++ {
				d.AddParagraph().AddText(fmt.Sprintf("%x", noise[i*80:i*80+80]))
			}
		}
	}
	mk := func(tn string, tl []string, tf fs.FS, big, fill bool) func() (*docx.Docx, *faultFS) {
		return func() (*docx.Docx, *faultFS) {
			ff := &faultFS{inner: tf}
			d := docx.New().UseTemplate(tn, tl, ff)
			if fill {
				content(d, big)
			}
			return d, ff
		}
	}
	hl := append(append([]string{}, l...), "word/numbering.xml", "customXml/item1.xml")
	hf := fstest.MapFS{}
	for _, x := range l {
		b, err := fs.ReadFile(f, "xml/mini/"+x)
		if err != nil {
			panic(err)
		}
		hf["xml/mini/"+x] = &fstest.MapFile{Data: b}
	}
	hf["xml/mini/word/numbering.xml"] = &fstest.MapFile{Data: filler(100_000, 1, true)}
	hf["xml/mini/customXml/item1.xml"] = &fstest.MapFile{Data: filler(1_200_000, 2, false)}
	huge := func() (*docx.Docx, *faultFS) {
		ff := &faultFS{inner: hf}
		d := docx.New().UseTemplate("mini", hl, ff)
		content(d, true)
		d.AddParagraph().AddInlineDrawing(BigImg("png", 2, 1, 7, 1_200_000))
		for i := 0; i < 70; i++ {
			d.AddParagraph().AddInlineDrawing(Img("gif", 1, 1, i))
		}
		for i := 0; i < 2000; i++ {
			d.AddParagraph().AddText(fmt.Sprint("paragraph number ", i))
		}
		return d, ff
	}
	return []doc12{
		{"empty", mk(n, l, f, false, false), l, false},
		{"small", mk(n, l, f, false, true), l, false},
		{"default template", mk("default", docx.DefaultTemplateFilesList, docx.TemplateXMLFS, false, true), docx.DefaultTemplateFilesList, false},
		{"big", mk(n, l, f, true, true), l, false},
		{"huge", huge, hl, true},
	}
}

func runC12(c *Ctx) {
	c.Rule = "every byte count and every write call at which the destination fails, in every fault mode; every open and every read offset of every template part; fault sequences; marshalling faults at every place of the document tree; documents and templates of several sizes"
	w := c.NewWatch(60 * time.Second)
	manyParts12(c)
	for _, dc := range docs12() {
		dc := dc
		d, ff := dc.mk()
		good, err := Save(d)
		if err != nil {
			c.Fail("fault-free save fails", err.Error(), dc.name)
			continue
		}
		_, ref, err := ReadZip(good)
		if err != nil {
			c.Fail("fault-free save incomplete", err.Error(), dc.name)
			continue
		}
		if ff.opened == 0 || ff.closed != ff.opened {
			c.Fail("template parts not released after a successful save", fmt.Sprintf("opened %d closed %d", ff.opened, ff.closed), dc.name)
		}
		complete := func(b []byte) string {
			_, got, err := ReadZip(b)
			if err != nil {
				return err.Error()
			}
			if len(got) != len(ref) {
				return fmt.Sprintf("%d parts, want %d", len(got), len(ref))
			}
			for k, v := range ref {
				if !bytes.Equal(got[k], v) {
					return "part " + k + " differs"
				}
			}
			return ""
		}
		// one save under faults, then a good one
		attempt := func(d *docx.Docx, ff *faultFS, fw *faultWriter, rep string, again bool) {
			w.Do("save under fault", func() string { return rep }, func() {
				ff.opened, ff.closed, ff.over, ff.fired = 0, 0, 0, false
				_, err := d.WriteTo(fw)
				c.Trans(1)
				c.Trace()
				c.State(rep)
				fired := fw.fired || ff.fired
				kind := fw.mode + "/" + ff.style
				if i := strings.IndexByte(rep, '@'); i > 0 {
					kind = rep[:i]
				}
				if err == nil && fired {
					c.Fail("fault not reported: "+kind, fmt.Sprintf("accepted %d bytes", fw.got.Len()), rep)
				}
				if err != nil && !fired {
					c.Fail("error without a fault: "+kind, err.Error(), rep)
				}
				if err == nil {
					if m := complete(fw.got.Bytes()); m != "" {
						c.Fail("reported success is incomplete: "+kind, m, rep)
					}
				}
				if ff.opened != ff.closed {
					c.Fail("template parts not released: "+kind, fmt.Sprintf("opened %d closed %d", ff.opened, ff.closed), rep)
				}
				ff.openFail, ff.readFail, ff.style, ff.e = "", "", "", nil
				if again {
					b, err := Save(d)
					c.Trans(1)
					if err != nil {
						c.Fail("save after a failed save: "+kind, err.Error(), rep)
					} else if m := complete(b); m != "" {
						c.Fail("save after a failed save is incomplete: "+kind, m, rep)
					}
				}
			})
		}
		// destination faults
		modes := []string{"byte forever", "byte once", "short once", "short forever", "short by one once", "short by one forever"}
		step := 1
		if dc.name == "big" {
			step = c.Pick(97, 7)
		} else if dc.name == "default template" {
			step = c.Pick(3, 1)
		}
		block, fwstep := 4096, 1
		if dc.huge {
			step, block, fwstep = len(good)/c.Pick(20, 200), 1<<18, c.Pick(37, 5)
		}
		var ks []int
		for k := 0; k <= len(good)+2; k += step {
			ks = append(ks, k)
		}
		for k := block; k < len(good); k += block { // the buffer boundaries
			for x := -3; x <= 3; x++ {
				ks = append(ks, k+x)
			}
		}
		for k := len(good) - 40; k <= len(good)+2; k += 1 + fwstep/8 {
			ks = append(ks, k)
		}
		c.AddExtra("fault points of the destination", len(ks)*len(modes))
		chunks := 32
		Par(chunks*len(modes), func(j int) {
			mode := modes[j%len(modes)]
			d, ff := dc.mk()
			for i := j / len(modes); i < len(ks); i += chunks {
				if c.Failing() {
					return
				}
				attempt(d, ff, &faultWriter{mode: mode, at: ks[i]}, fmt.Sprintf("%s: destination %s @ %d", dc.name, mode, ks[i]), i%5 == 0 || len(good) < 6000)
			}
		})
		fw := &faultWriter{}
		d.WriteTo(fw)
		cmodes := []string{"call once", "call forever", "call once, all taken", "call forever, all taken"}
		Par(len(cmodes), func(j int) {
			d, ff := dc.mk()
			for i := 0; i < fw.calls+1; i += fwstep {
				attempt(d, ff, &faultWriter{mode: cmodes[j], at: i}, fmt.Sprintf("%s: destination %s @ %d of %d", dc.name, cmodes[j], i, fw.calls), true)
			}
		})
		Par(len(faultKinds), func(j int) { // every kind of error
			if dc.huge {
				return
			}
			d, ff := dc.mk()
			e := faultKinds[j]
			for _, mode := range append([]string{"byte forever", "byte once", io.EOF.Error()}, cmodes...) {
				e := e
				if mode == io.EOF.Error() {
					mode, e = "byte once", io.EOF
				}
				max := len(good)
				if strings.HasPrefix(mode, "call") {
					max = fw.calls
				}
				for _, at := range []int{0, 1, max / 3, max / 2, max - 2, max - 1} {
					attempt(d, ff, &faultWriter{mode: mode, at: at, e: e}, fmt.Sprintf("%s: destination %s with %T %v @ %d", dc.name, mode, e, e, at), false)
				}
			}
		})
		// template faults
		Par(len(dc.files), func(i int) {
			d, ff := dc.mk()
			name := dc.files[i]
			for r := 0; r < 3; r++ { // the order in which parts are handled is not determined by the input
				ff.openFail = name
				attempt(d, ff, &faultWriter{}, fmt.Sprintf("%s: open of %s fails @ %d", dc.name, name, r), true)
			}
			size := len(ref[name])
			st := 1
			if size > 2000 {
				st = c.Pick(41, 5)
			}
			if dc.name == "big" {
				st *= 20
			}
			if dc.huge {
				if size < 50_000 && i > 1 {
					return
				}
				st = 1 + size/c.Pick(12, 100)
			}
			var bs []int
			for b := 0; b < size; b += st {
				bs = append(bs, b)
			}
			bs = append(bs, size-1)
			for _, b := range bs {
				for _, style := range []string{"err", "with"} {
					ff.readFail, ff.at, ff.style = name, b, style
					attempt(d, ff, &faultWriter{}, fmt.Sprintf("%s: read of %s fails (%s) @ %d", dc.name, name, style, b), b%7 == 0)
				}
			}
			for ki, e := range faultKinds { // every kind of error
				if dc.huge {
					break
				}
				ff.openFail, ff.e = name, e
				attempt(d, ff, &faultWriter{}, fmt.Sprintf("%s: open of %s fails with %T %v @ %d", dc.name, name, e, e, ki), ki%5 == 0)
				for _, style := range []string{"err", "with"} {
					for _, b := range []int{0, 1, size / 2, size - 1, size} {
						if b > size {
							continue
						}
						ff.readFail, ff.at, ff.style, ff.e = name, b, style, e
						attempt(d, ff, &faultWriter{}, fmt.Sprintf("%s: read of %s fails (%s) with %T %v @ %d", dc.name, name, style, e, e, b), false)
					}
				}
			}
			for _, style := range []string{"one", "zero", "eof"} { // harmless
				if dc.huge && style == "one" {
					continue
				}
				ff.style = style
				attempt(d, ff, &faultWriter{}, fmt.Sprintf("%s: template reads in style %s @ %d", dc.name, style, i), true)
			}
			// both ends fail
			for _, k := range []int{0, 1, len(good) / 2, len(good) - 1} {
				ff.openFail = name
				attempt(d, ff, &faultWriter{mode: "byte forever", at: k}, fmt.Sprintf("%s: open of %s and destination fail @ %d", dc.name, name, k), true)
				ff.readFail, ff.at, ff.style = name, size/2, "err"
				attempt(d, ff, &faultWriter{mode: "byte once", at: k}, fmt.Sprintf("%s: read of %s and destination fail @ %d", dc.name, name, k), true)
			}
		})
		// a listed part that does not exist
		w.Do("missing template part", func() string { return dc.name }, func() {
			if dc.huge {
				return
			}
			d, ff := dc.mk()
			d.UseTemplate("mini", append(append([]string{}, dc.files...), "word/none.xml"), ff)
			if _, err := Save(d); err == nil {
				c.Fail("missing template part not reported", "", dc.name)
			}
			if ff.opened != ff.closed {
				c.Fail("template parts not released when one is missing", fmt.Sprintf("opened %d closed %d", ff.opened, ff.closed), dc.name)
			}
		})
	}
	// histories of faults and edits: after each failing save the next good one has everything
	steps := []string{"w0", "w300", "open", "read", "edit", "good"}
	seqs10(len(steps), c.Pick(4, 6), func(seq []int) {
		n, l, f := MiniTemplate()
		ff := &faultFS{inner: f}
		d := docx.New().UseTemplate(n, l, ff)
		want := 0
		rep := ""
		for _, s := range seq {
			rep += steps[s] + " "
			c.Trans(1)
			fw := &faultWriter{}
			expectErr := true
			switch steps[s] {
			case "w0":
				fw.mode, fw.at = "byte forever", 0
			case "w300":
				fw.mode, fw.at = "byte once", 300
			case "open":
				ff.openFail = l[3]
			case "read":
				ff.readFail, ff.at, ff.style = l[2], 3, "with"
			case "edit":
				p := d.AddParagraph()
				p.AddText("t")
				p.AddInlineDrawing(Img("png", 1, 1, want))
				want++
				continue
			case "good":
				expectErr = false
			}
			w.Do("fault history", func() string { return rep }, func() {
				_, err := d.WriteTo(fw)
				ff.openFail, ff.readFail, ff.style = "", "", ""
				if (err != nil) != expectErr {
					c.Fail("fault history: error expected "+fmt.Sprint(expectErr), fmt.Sprint(err), rep)
				}
			})
		}
		b, err := Save(d)
		c.Trace()
		c.State(rep)
		if err != nil {
			c.Fail("fault history: final save", err.Error(), rep)
			return
		}
		p, bad := Consistent(b)
		if p == nil || len(bad) > 0 || len(p.Body().All("w:p")) != want || len(mediaOf(p)) != want {
			c.Fail("fault history: final save incomplete", fmt.Sprint(bad), rep)
		}
		if ff.opened != ff.closed {
			c.Fail("fault history: template parts not released", fmt.Sprintf("opened %d closed %d", ff.opened, ff.closed), rep)
		}
	})
	// the source of a parsed document fails while saving
	for v := 0; v < 5; v++ {
		src := odd(v)
		ra := &faultReaderAt{b: src, failAt: -1}
		d, err := docx.Parse(ra, int64(len(src)))
		if err != nil {
			c.Fail("parse", err.Error(), fmt.Sprint("odd", v))
			continue
		}
		first := ra.calls
		good, err := Save(d)
		if err != nil {
			c.Fail("save of a parsed document", err.Error(), fmt.Sprint("odd", v))
			continue
		}
		n := ra.calls - first
		for i := 0; i < n; i++ {
			for _, mode := range []string{"once", "forever", "short", "short eof", "short unexpected", "eof"} {
				rep := fmt.Sprintf("odd%d: source read %d of %d fails %s", v, i, n, mode)
				w.Do("save from a failing source", func() string { return rep }, func() {
					ra.calls, ra.failAt, ra.mode, ra.fired = 0, i, mode, false
					b, err := Save(d)
					c.Trans(1)
					c.Trace()
					c.State(rep)
					if err == nil && ra.fired && !sameParts(b, good) {
						c.Fail("failing source not reported: "+mode, "", rep)
					}
					ra.failAt = -1
					if b, err := Save(d); err != nil || !sameParts(b, good) {
						c.Fail("save after a failing source: "+mode, fmt.Sprint(err), rep)
					}
				})
			}
		}
	}
	// marshalling faults
	for _, bad := range bads12() {
		for _, place := range []string{"body first", "body middle", "body last", "paragraph", "run", "canvas", "group"} {
			rep := fmt.Sprintf("element that cannot be written in %s: %s", place, bad.name)
			w.Do("marshal fault", func() string { return rep }, func() {
				d := mini(docx.New())
				p := d.AddParagraph()
				r := p.AddText("x")
				d.AddParagraph().AddText("y")
				cnv, grp := &docx.WordprocessingCanvas{}, &docx.WordprocessingGroup{}
				q := d.AddParagraph().AddText("z")
				q.Children = append(q.Children, &docx.Drawing{Inline: &docx.WPInline{Graphic: &docx.AGraphic{GraphicData: &docx.AGraphicData{Canvas: cnv}}}},
					&docx.Drawing{Inline: &docx.WPInline{Graphic: &docx.AGraphic{GraphicData: &docx.AGraphicData{Group: grp}}}})
				good, err := Save(d)
				if err != nil {
					c.Fail("marshal fault: base", err.Error(), rep)
					return
				}
				items := d.Document.Body.Items
				b := bad.v
				undo := func() {}
				switch place {
				case "body first":
					d.Document.Body.Items = append([]interface{}{b}, items...)
				case "body middle":
					d.Document.Body.Items = []interface{}{items[0], b, items[1], items[2]}
				case "body last":
					d.Document.Body.Items = append(append([]interface{}{}, items...), b)
				case "paragraph":
					old := p.Children
					p.Children = append(append([]interface{}{}, old...), b)
					undo = func() { p.Children = old }
				case "run":
					old := r.Children
					r.Children = append([]interface{}{b}, old...)
					undo = func() { r.Children = old }
				case "canvas":
					cnv.Items = []interface{}{b}
					undo = func() { cnv.Items = nil }
				case "group":
					grp.Elems = []interface{}{b}
					undo = func() { grp.Elems = nil }
				}
				c.Trans(1)
				c.Trace()
				c.State(rep)
				if _, err := Save(d); err == nil {
					c.Fail("element that cannot be written not reported: "+place, "", rep)
				}
				undo()
				d.Document.Body.Items = items
				if b, err := Save(d); err != nil || !sameParts(b, good) {
					c.Fail("save after an element that cannot be written: "+place, fmt.Sprint(err), rep)
				}
			})
		}
	}
	c.Assume("the order in which parts are written follows Go's map iteration, which the runtime randomises: every fault point is tried with the order of that run", "a template part that ends early without an error cannot be recognised")
}

// faultReaderAt serves a package and fails at a read call.
type faultReaderAt struct {
	b      []byte
	calls  int
	failAt int
	mode   string
	fired  bool
	e      error
}

func (r *faultReaderAt) ReadAt(p []byte, off int64) (int, error) {
	i := r.calls
	r.calls++
	if r.failAt >= 0 && (i == r.failAt || (i > r.failAt && r.mode == "forever")) {
		r.fired = true
		n := 0
		if r.mode != "once" && r.mode != "forever" {
			n, _ = bytes.NewReader(r.b).ReadAt(p, off)
			n /= 2
		}
		switch r.mode {
		case "short eof":
			return n, io.EOF
		case "short unexpected":
			return n, io.ErrUnexpectedEOF
		case "eof":
			return 0, io.EOF
		}
		if r.e != nil {
			return n, r.e
		}
		return n, errFault
	}
	return bytes.NewReader(r.b).ReadAt(p, off)
}

// manyParts12 saves over templates of many parts: what is opened is closed, whatever fails.
func manyParts12(c *Ctx) {
	_, l, f := MiniTemplate()
	for _, n := range []int{17, 33, 65, 100, 129, 257, c.Pick(600, 2100)} {
		names := append([]string{}, l...)
		m := fstest.MapFS{}
		for _, x := range l {
			b, err := fs.ReadFile(f, "xml/mini/"+x)
			if err != nil {
				panic(err)
			}
			m["xml/mini/"+x] = &fstest.MapFile{Data: b}
		}
		for i := 0; len(names) < n; i++ {
			x := fmt.Sprintf("customXml/item%d.xml", i)
			names = append(names, x)
			m["xml/mini/"+x] = &fstest.MapFile{Data: []byte(fmt.Sprint("<i>", i, "</i>"))}
		}
		ff := &faultFS{inner: m}
		d := docx.New().UseTemplate("mini", names, ff)
		d.AddParagraph().AddText("x")
		one := func(what string, prep func(), fw *faultWriter, bad bool) {
			rep := fmt.Sprintf("template of %d parts: %s", n, what)
			c.Guard("many parts", rep, func() {
				ff.opened, ff.closed, ff.over, ff.fired = 0, 0, 0, false
				ff.openFail, ff.readFail, ff.style, ff.e, ff.at = "", "", "", nil, 0
				prep()
				_, err := d.WriteTo(fw)
				c.Trans(1)
				c.Trace()
				c.State(rep)
				if (err != nil) != bad {
					c.Fail("many parts: outcome", fmt.Sprint(err), rep)
				}
				if ff.opened != ff.closed {
					c.Fail("many parts: template parts not released", fmt.Sprintf("opened %d closed %d", ff.opened, ff.closed), rep)
				}
				if err == nil {
					if _, ps, err := ReadZip(fw.got.Bytes()); err != nil || len(ps) < n {
						c.Fail("many parts: reported success is incomplete", fmt.Sprint(err, " ", len(ps)), rep)
					}
				}
			})
		}
		one("no fault", func() {}, &faultWriter{}, false)
		var ks []int
		for k := range names {
			if n < 140 || k%(n/70) == 0 || k > n-3 {
				ks = append(ks, k)
			}
		}
		for _, k := range ks {
			one("open of part "+names[k]+" fails", func() { ff.openFail = names[k] }, &faultWriter{}, true)
			one("read of part "+names[k]+" fails", func() { ff.readFail, ff.style = names[k], "err" }, &faultWriter{}, true)
		}
		fw := &faultWriter{}
		d.WriteTo(fw)
		total := fw.got.Len()
		for k := 0; k < 40; k++ {
			at := k * total / 40
			one(fmt.Sprint("destination fails at byte ", at), func() {}, &faultWriter{mode: "byte forever", at: at}, true)
		}
		one("no fault again", func() {}, &faultWriter{}, false)
	}
}
