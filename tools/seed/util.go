package main

import (
	"archive/zip"
	"bytes"
	"encoding/base64"
	"fmt"
	"hash/crc32"
	"io"
	"os"
	"strings"

	docx "github.com/fumiama/go-docx"
)

var _ = base64.StdEncoding
var _ = strings.Contains

// die reports that the property is broken.
func die(f string, a ...interface{}) {
	fmt.Printf("BROKEN: "+f+"\n", a...)
	os.Exit(1)
}

// must is for errors that do not belong to the demonstration.
func must(err error) {
	if err != nil {
		die("unexpected error: %v", err)
	}
}

func save(d *docx.Docx) []byte {
	var b bytes.Buffer
	_, err := d.WriteTo(&b)
	must(err)
	return b.Bytes()
}

func open(b []byte) *docx.Docx {
	d, err := docx.Parse(bytes.NewReader(b), int64(len(b)))
	must(err)
	return d
}

func parts(b []byte) map[string]string {
	z, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	must(err)
	m := map[string]string{}
	for _, f := range z.File {
		r, err := f.Open()
		must(err)
		x, err := io.ReadAll(r)
		must(err)
		m[f.Name] = string(x)
	}
	return m
}

type part struct{ name, data string }

func pack(ps ...part) []byte {
	var b bytes.Buffer
	z := zip.NewWriter(&b)
	for _, p := range ps {
		w, err := z.Create(p.name)
		must(err)
		_, err = io.WriteString(w, p.data)
		must(err)
	}
	must(z.Close())
	return b.Bytes()
}

const nsdecl = `xmlns:w="http://schemas.openxmlformats.org/wordprocessingml/2006/main" xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships" xmlns:wp="http://schemas.openxmlformats.org/drawingml/2006/wordprocessingDrawing" xmlns:a="http://schemas.openxmlformats.org/drawingml/2006/main" xmlns:pic="http://schemas.openxmlformats.org/drawingml/2006/picture" xmlns:wps="http://schemas.microsoft.com/office/word/2010/wordprocessingShape" xmlns:wpg="http://schemas.microsoft.com/office/word/2010/wordprocessingGroup" xmlns:wpc="http://schemas.microsoft.com/office/word/2010/wordprocessingCanvas" xmlns:mc="http://schemas.openxmlformats.org/markup-compatibility/2006"`

// pkg is a package around the body and the relationships.
func pkg(body, rels string, more ...part) []byte {
	ps := []part{
		{"[Content_Types].xml", `<?xml version="1.0" encoding="UTF-8" standalone="yes"?><Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types"><Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/><Default Extension="xml" ContentType="application/xml"/><Default Extension="png" ContentType="image/png"/><Override PartName="/word/document.xml" ContentType="application/vnd.openxmlformats-officedocument.wordprocessingml.document.main+xml"/></Types>`},
		{"_rels/.rels", `<?xml version="1.0" encoding="UTF-8" standalone="yes"?><Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships"><Relationship Id="rId1" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument" Target="word/document.xml"/></Relationships>`},
		{"word/_rels/document.xml.rels", `<?xml version="1.0" encoding="UTF-8" standalone="yes"?><Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">` + rels + `</Relationships>`},
		{"word/document.xml", `<?xml version="1.0" encoding="UTF-8" standalone="yes"?><w:document ` + nsdecl + `><w:body>` + body + `</w:body></w:document>`},
	}
	return pack(append(ps, more...)...)
}

// png is a picture of the given size; distinct n give distinct bytes.
func png(w, h, n int) []byte {
	b, _ := base64.StdEncoding.DecodeString("iVBORw0KGgoAAAANSUhEUgAAAAEAAAABCAYAAAAfFcSJAAAADUlEQVR42mNk+M9QDwADhgGAWjR9awAAAABJRU5ErkJggg==")
	b[16], b[17], b[18], b[19] = byte(w>>24), byte(w>>16), byte(w>>8), byte(w)
	b[20], b[21], b[22], b[23] = byte(h>>24), byte(h>>16), byte(h>>8), byte(h)
	c := crc32.ChecksumIEEE(b[12:29])
	b[29], b[30], b[31], b[32] = byte(c>>24), byte(c>>16), byte(c>>8), byte(c)
	return append(b, byte(n))
}
