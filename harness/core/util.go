package core

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/gif"
	"image/jpeg"
	"image/png"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing/fstest"
	"time"
)

func itoa(i int) string { return strconv.Itoa(i) }

// Itoa is strconv.Itoa.
func Itoa(i int) string { return strconv.Itoa(i) }

// Trunc shortens a string.
func Trunc(s string, n int) string { return trunc(s, n) }

var imgMu sync.Mutex
var imgCache = map[string][]byte{}

// Img makes a small image of a format with distinguishable content.
// w,h: dimensions; tag: content tag.
func Img(format string, w, h, tag int) []byte {
	key := fmt.Sprint(format, w, h, tag)
	imgMu.Lock()
	defer imgMu.Unlock()
	if b, ok := imgCache[key]; ok {
		return b
	}
	m := image.NewPaletted(image.Rect(0, 0, w, h), color.Palette{color.Black, color.White, color.RGBA{uint8(tag), 3 + uint8(tag>>8), 4, 255}})
	if w > 0 && h > 0 {
		m.SetColorIndex(0, 0, 2)
	}
	var buf bytes.Buffer
	switch format {
	case "png":
		png.Encode(&buf, m)
	case "gif":
		gif.Encode(&buf, m, nil)
	case "jpeg":
		jpeg.Encode(&buf, m, nil)
		buf.WriteString("tag" + itoa(tag)) // trailing bytes make contents distinct
	default:
		panic(format)
	}
	imgCache[key] = buf.Bytes()
	return imgCache[key]
}

// BigImg is a picture file of at least n bytes, no two parts of it alike.
func BigImg(format string, w, h, tag, n int) []byte {
	key := fmt.Sprint("big", format, w, h, tag, n)
	imgMu.Lock()
	b, ok := imgCache[key]
	imgMu.Unlock()
	if ok {
		return b
	}
	b = append([]byte(nil), Img(format, w, h, tag)...)
	for i := uint32(0); len(b) < n; i++ {
		x := i*2654435761 + uint32(tag)
		b = append(b, byte(i), byte(i>>8), byte(i>>16), byte(x>>24), 0, 0, 0, 0)
	}
	imgMu.Lock()
	imgCache[key] = b
	imgMu.Unlock()
	return b
}

// MiniTemplate is a small but complete template (fast to save).
func MiniTemplate() (string, []string, fs.FS) {
	files := map[string]string{
		"_rels/.rels":           `<?xml version="1.0"?><Relationships xmlns="` + NREL + `"><Relationship Id="rId1" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument" Target="word/document.xml"/></Relationships>`,
		"docProps/app.xml":      `<Properties/>`,
		"docProps/core.xml":     `<core/>`,
		"word/theme/theme1.xml": `<theme/>`,
		"word/fontTable.xml":    `<fonts/>`,
		"word/styles.xml":       `<styles/>`,
		"[Content_Types].xml": `<?xml version="1.0"?><Types xmlns="` + NCT + `"><Default Extension="png" ContentType="image/png"/><Default Extension="jpeg" ContentType="image/jpeg"/>` +
			`<Default Extension="gif" ContentType="image/gif"/><Default Extension="webp" ContentType="image/webp"/>` +
			`<Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/><Default Extension="xml" ContentType="application/xml"/>` +
			`<Override PartName="/word/document.xml" ContentType="application/vnd.openxmlformats-officedocument.wordprocessingml.document.main+xml"/></Types>`,
	}
	m := fstest.MapFS{}
	var names []string
	for k, v := range files {
		m["xml/mini/"+k] = &fstest.MapFile{Data: []byte(v)}
		names = append(names, k)
	}
	sort.Strings(names)
	return "mini", names, m
}

// Parts turns entries into a list for BuildZip with a minimal complete package around them.
func MiniPackage(doc, rels string, extra ...ZipEntry) []byte {
	_, names, f := MiniTemplate()
	var es []ZipEntry
	for _, n := range names {
		b, err := fs.ReadFile(f, "xml/mini/"+n)
		if err != nil {
			panic(err)
		}
		skip := false
		for _, e := range extra {
			if e.Name == n {
				skip = true
			}
		}
		if !skip {
			es = append(es, ZipEntry{n, b})
		}
	}
	es = append(es, ZipEntry{"word/_rels/document.xml.rels", []byte(rels)}, ZipEntry{"word/document.xml", []byte(doc)})
	es = append(es, extra...)
	return BuildZip(es, true)
}

// RelsXML renders a relationships part.
func RelsXML(rs ...Rel) string {
	var sb strings.Builder
	sb.WriteString(`<?xml version="1.0" encoding="UTF-8"?><Relationships xmlns="` + NREL + `">`)
	for _, r := range rs {
		fmt.Fprintf(&sb, `<Relationship Id="%s" Type="%s" Target="%s"`, esc(r.ID), esc(r.Type), esc(r.Target))
		if r.Mode != "" {
			fmt.Fprintf(&sb, ` TargetMode="%s"`, r.Mode)
		}
		sb.WriteString("/>")
	}
	sb.WriteString("</Relationships>")
	return sb.String()
}

const (
	RelBase  = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/"
	RelLink  = RelBase + "hyperlink"
	RelImage = RelBase + "image"
)

// BaseRels are the three relationships every built document has.
func BaseRels() []Rel {
	return []Rel{{"rId1", RelBase + "styles", "styles.xml", ""}, {"rId2", RelBase + "theme", "theme/theme1.xml", ""}, {"rId3", RelBase + "fontTable", "fontTable.xml", ""}}
}

// Scratch makes a private scratch directory (removed by the returned func).
func Scratch() (string, func()) {
	d, err := os.MkdirTemp("", "verif-scratch-")
	if err != nil {
		panic(err)
	}
	return d, func() {
		if strings.Contains(filepath.Base(d), "verif-scratch-") {
			os.RemoveAll(d)
		}
	}
}

// Save runs WriteTo into memory.
func Save(d io.WriterTo) ([]byte, error) {
	var b bytes.Buffer
	_, err := d.WriteTo(&b)
	return b.Bytes(), err
}

// Watch runs a watchdog: if one case runs longer than limit, the check reports a hang and exits.
type Watch struct {
	c     *Ctx
	slots sync.Map
	limit time.Duration
	n     int64
	mu    sync.Mutex
}

type slot struct {
	start  time.Time
	sig    string
	replay func() string
}

// NewWatch starts the watchdog.
func (c *Ctx) NewWatch(limit time.Duration) *Watch {
	w := &Watch{c: c, limit: limit}
	go func() {
		for {
			time.Sleep(limit / 10)
			w.slots.Range(func(k, v interface{}) bool {
				s := v.(*slot)
				if time.Since(s.start) > limit {
					c.Fail("hang "+s.sig, fmt.Sprintf("no result after %v", limit), s.replay())
					os.Exit(c.Finish())
				}
				return true
			})
		}
	}()
	return w
}

// Do runs one case under the watchdog and the panic guard.
func (w *Watch) Do(sig string, replay func() string, f func()) {
	w.mu.Lock()
	w.n++
	id := w.n
	w.mu.Unlock()
	w.slots.Store(id, &slot{time.Now(), sig, replay})
	defer w.slots.Delete(id)
	defer func() {
		if r := recover(); r != nil {
			w.c.failPanic(sig, r, replay())
		}
	}()
	f()
}
