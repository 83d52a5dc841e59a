package core

import (
	"fmt"
	"strings"
)

// This file enumerates documents with many of one thing and with the words and numbers real documents use.

// Words are values that mean something in WordprocessingML or DrawingML (and a few that look like something).
var Words = append([]string{" lead", "trail ", "  ", "a  b", "中文 x", `<&>"'`, "a\nb\tc", "é", "A.b-c_d", "文本框 1", "Text Box 1", "Picture 1", "图片 1", "图片 2"}, strings.Fields(`auto none nil single double thick dotted dashed wave clear solid left right center both start end distribute
 baseline superscript subscript top bottom middle inline page margin column text paragraph character line continue restart
 dxa pct exact atLeast lines linesAndChars default eastAsia cs on off yes no True TRUE FALSE NaN null undefined rect roundRect ellipse
 straightConnector1 textWrapping nextPage preserve black white red yellow FFFFFF ffffff 000000 00 01 007 +5 -0 0x10 1e3 1,5 50% 12pt 9525 Normal Heading1 a3 TableGrid
 bothSides largest square overflow clip horz vert eaVert sq flat rnd sng dbl tx1 bg1 accent1 phClr print rId1 rId5 image1.png HYPERLINK NULL N/A unknown TODO test docx w:p mso error EOF expected`)...)

// Puncts are texts that begin with, end with or hold each sign of ASCII.
var Puncts = func() (out []string) {
	for r := '!'; r <= '~'; r++ {
		if s := string(r); r < '0' || r > '9' && r < 'A' || r > 'Z' && r < 'a' || r > 'z' {
			out = append(out, "a"+s, s+"a"+s+"b"+s, s)
		}
	}
	return
}()

// URLs are link targets of every usual form.
var URLs = strings.Fields(`http://host http://host/ https://host/a/ http://h:8080/p?q=1&r=2#frag HTTP://Host/ http://h? http://h# http://h/#a ftp://h/x mailto:a@b.c?subject=x
 file:///C:/x.docx C:\x\y.docx \\srv\share ../rel.docx ./rel.docx rel.docx #bookmark #_Toc1 ?q tel:+1-2 http://h/%20a http://h/a%2Fb http://h//x http://h/./x http://h/../x http://u:p@h/ http://[::1]/
 //h/x /abs/x www.x.com http://h/中文 news:x data:text/plain,hi urn:x javascript:x() media/image1.png styles.xml word/document.xml http://h/a+b http://h/a;b http://h/'a' http://h/(a) http://h:80/ https://h:443/ http://h/index.html`)

// Numbers are integers real documents use, and the edges of narrower types.
var Numbers = strings.Fields(`2 3 4 5 8 9 10 11 12 15 16 20 21 22 24 31 32 50 63 64 65 72 90 99 100 127 128 180 220 240 255 256 312 360 420 480 567 600 720 840 851 999 1000 1001 1440 1800 2880 4680 5000 6480 8296 9525 10000 11906 12240 12700 15840 16383 16384 16838 19050 25400 32767 32768 36000 45720 60000 65535 65536 91440 100000 114300 360000 914400 1000000 5400000 16777216 21600000 251658240 1073741824 2147483646 4294967295 4294967296 9007199254740993 9223372036854775807 -2 -10 -100 -255 -32768 -32769 -65536 -360000 -914400 -2147483648 -9223372036854775808`)

// ValueDocs calls f with every attribute of every element at every word or number, and every text.
func ValueDocs(f func(name string, body *Node)) {
	for _, ed := range Edges() {
		e := Lookup(ed.Child, ed.Parent)
		for _, a := range e.Attrs {
			var vs []string
			switch a.Type {
			case "s":
				vs = Words
			case "i":
				vs = Numbers
			}
			for _, v := range vs {
				f(fmt.Sprintf("%s %s=%q", ed.Child, a.Name, v), Wrap(ed.Path, Bare(ed.Child, ed.Parent).Set(a.Name, v)))
			}
		}
		var vs []string
		switch e.Text {
		case "t":
			vs = Words
		case "i":
			vs = Numbers
		}
		for _, v := range vs {
			n := Bare(ed.Child, ed.Parent)
			n.Kids = []*Node{T(v)}
			f(fmt.Sprintf("%s text %q", ed.Child, v), Wrap(ed.Path, n))
		}
	}
}

// mark makes the i-th copy of an element differ from the others.
func mark(n *Node, parent string, i, depth int) bool {
	e := Lookup(n.Name, parent)
	switch e.Text {
	case "t":
		n.Kids = []*Node{T(fmt.Sprintf("t%d", i))}
		return true
	case "i":
		n.Kids = []*Node{T(Itoa(i))}
		return true
	}
	if depth == 0 {
		return false
	}
	for _, k := range append(append([]string{}, e.Seq...), e.Props...) {
		x := Bare(k, n.Name)
		if mark(x, n.Name, i, depth-1) {
			n.Kids = append(n.Kids, x)
			return true
		}
	}
	for _, a := range e.Attrs {
		switch a.Type {
		case "s":
			n.Set(a.Name, fmt.Sprintf("v%d", i))
			return true
		case "i":
			n.Set(a.Name, Itoa(i))
			return true
		}
	}
	return false
}

// BulkDocs calls f with many copies (all different where they can be) of every element that may repeat, alone and
// alternating with each element that may stand next to it.
func BulkDocs(counts []int, f func(name string, body *Node)) {
	for _, ed := range Edges() {
		e := Lookup(ed.Parent, "")
		rep := func(k string) bool {
			for _, s := range e.Seq {
				if s == k {
					return true
				}
			}
			return false
		}
		if !rep(ed.Child) {
			continue
		}
		for _, n := range counts {
			for _, other := range e.Seq {
				var kids []*Node
				for i := 0; i < n; i++ {
					name := ed.Child
					if i%2 == 1 {
						name = other
					}
					x := Bare(name, ed.Parent)
					mark(x, ed.Parent, i, 7)
					kids = append(kids, x)
				}
				name := fmt.Sprintf("%d x %s", n, ed.Child)
				if other != ed.Child {
					name += " and " + other
				}
				f(name+" in "+ed.Parent, Wrap(ed.Path, kids...))
			}
		}
	}
}

// ValueBatches is ValueDocs with the values of one element gathered in documents of up to n of them.
func ValueBatches(n int, f func(name string, body *Node)) {
	var cur *Node
	last, k := "", 0
	flush := func() {
		if cur != nil {
			f(fmt.Sprintf("values of %s, %d", last, k), cur)
			k++
		}
		cur = nil
	}
	ValueDocs(func(name string, b *Node) {
		el, _, _ := strings.Cut(name, " ")
		if el != last || cur != nil && len(cur.Kids) >= n {
			flush()
		}
		if el != last {
			last, k = el, 0
		}
		if b.Kids[0].Name == "w:sectPr" {
			f(name, b)
			return
		}
		if cur == nil {
			cur = &Node{Name: b.Name, Attrs: b.Attrs}
		}
		cur.Kids = append(cur.Kids, b.Kids...)
	})
	flush()
}

// AllChars lists every character XML can carry up to max, in texts of up to n of them.
func AllChars(max, n int) (out []string) {
	var b strings.Builder
	k := 0
	for r := rune(1); r <= rune(max); r++ {
		if r < 32 && r != '\t' && r != '\n' && r != '\r' || r >= 0xD800 && r <= 0xDFFF || r == 0xFFFE || r == 0xFFFF {
			continue
		}
		b.WriteRune(r)
		if k++; k%n == 0 {
			out = append(out, b.String())
			b.Reset()
		}
	}
	if b.Len() > 0 {
		out = append(out, b.String())
	}
	return
}
