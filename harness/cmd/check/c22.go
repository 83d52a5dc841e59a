package main

import (
	"bytes"
	"context"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	docx "github.com/fumiama/go-docx"

	. "verif/harness/core"
)

func init() { checks["C22"] = check{"model_checking", runC22} }

// cfg22 is one combination of flags.
type cfg22 struct {
	a, c, u, p bool
	s          string
	d          int
}

func (f cfg22) args(path string) (as []string) {
	if path != "new-file.docx" { // the default
		as = append(as, "-f", path)
	}
	for _, x := range []struct {
		on bool
		f  string
	}{{f.a, "-a"}, {f.c, "-c"}, {f.u, "-u"}, {f.p, "-p"}} {
		if x.on {
			as = append(as, x.f)
		}
	}
	if f.s != "" {
		as = append(as, "-s", f.s)
	}
	if f.d != 0 {
		as = append(as, "-d", strconv.Itoa(f.d))
	}
	return
}

// want22 gives the output files of a run on the parsed input.
func want22(f cfg22, path string, in []byte) (files map[string][]byte, text string, err error) {
	files = map[string][]byte{}
	dir, base := filepath.Split(path)
	ext := ""
	if i := strings.LastIndexByte(base, '.'); i >= 0 {
		ext = base[i:]
	}
	doc, err := tryParse(in)
	if err != nil {
		return
	}
	if f.c {
		doc.Document.Body.DropDrawingOf("NilPicture")
	}
	if f.p {
		for _, it := range doc.Document.Body.Items {
			switch o := it.(type) {
			case *docx.Paragraph:
				o.Properties = nil
			case *docx.Table:
				for _, r := range o.TableRows {
					for _, c := range r.TableCells {
						for _, p := range c.Paragraphs {
							p.Properties = nil
						}
					}
				}
			}
		}
	}
	put := func(name string, d *docx.Docx) error {
		b, err := Save(d)
		files[dir+name] = b
		return err
	}
	if f.u {
		if err = put("unmarshal_"+base, doc); err != nil {
			return
		}
	}
	for _, it := range doc.Document.Body.Items {
		switch o := it.(type) {
		case *docx.Paragraph:
			text += o.String() + "\n"
		case *docx.Table:
			text += o.String() + "\n"
		}
	}
	if f.s != "" {
		for i, p := range doc.SplitByParagraph(docx.SplitDocxByPlainTextRegex(regexp.MustCompile(f.s))) {
			if err = put(fmt.Sprintf("unmarshal_%s_split%d%s", strings.TrimSuffix(base, ext), i, ext), p); err != nil {
				return
			}
		}
	}
	if f.d > 1 {
		n := docx.New().WithDefaultTheme().WithA4Page()
		for i := 0; i < f.d; i++ {
			n.AppendFile(doc)
		}
		err = put("dup_"+base, n)
	}
	return
}

func runC22(c *Ctx) {
	c.Rule = "every combination of flags x path form x input x left-over output files, run as a process in a folder of its own; the files found afterwards are compared part by part with what the library's operations give"
	dir, clean := Scratch()
	defer clean()
	bin := filepath.Join(dir, "cli")
	cmd := exec.Command("go", "build", "-o", bin, "github.com/fumiama/go-docx/cmd/main")
	cmd.Dir = os.Getenv("VERIF_ROOT") + "/harness"
	if out, err := cmd.CombinedOutput(); err != nil {
		fmt.Printf("build of the command failed: %s\n", out)
		os.Exit(2)
	}
	testdata := filepath.Join(dir, "testdata")
	os.Mkdir(testdata, 0o755)
	for _, n := range []string{"fumiama.JPG", "fumiama2x.webp", "fumiamayoko.png"} {
		b, err := os.ReadFile("/repo/testdata/" + n)
		if err != nil {
			panic(err)
		}
		os.WriteFile(filepath.Join(testdata, n), b, 0o644)
	}
	E2 := func(name string, attrs []string, kids ...*Node) *Node { return E(name, A(attrs...), kids...) }
	para := func(s string, jc bool, kids ...*Node) *Node {
		p := E("w:p", nil)
		if jc {
			p.Kids = append(p.Kids, E("w:pPr", nil, E2("w:jc", []string{"w:val", "center"})))
		}
		p.Kids = append(p.Kids, E("w:r", nil, E("w:t", nil, T(s))))
		p.Kids = append(p.Kids, kids...)
		return p
	}
	shape := E("w:r", nil, E("w:drawing", nil, E("wp:inline", A("distT", "0", "distB", "0", "distL", "0", "distR", "0"), E("wp:extent", A("cx", "1", "cy", "2")), E("wp:docPr", A("id", "9", "name", "sh")),
		E("a:graphic", nil, E("a:graphicData", A("uri", "p"), shape0("x"))))))
	tbl := E("w:tbl", nil, E("w:tblPr", nil), E("w:tblGrid", nil, E("w:gridCol", A("w:w", "5")), E("w:gridCol", A("w:w", "5"))),
		E("w:tr", nil, E("w:tc", nil, para("S", true), para("c2", true)), E("w:tc", nil, para("c3", false, shape.Clone()))))
	inputs := map[string][]byte{
		"mixed": MiniPackage(DocXML(E("w:body", nil, para("first", true), para("S 1", true, shape.Clone()), para("S", false), tbl, para("S 3", true), para("last", false))), RelsXML(BaseRels()...)),
		"empty": MiniPackage(DocXML(E("w:body", nil)), RelsXML(BaseRels()...)),
		"odd0":  odd(0), "odd1": odd(1), "odd2": odd(2), "odd4": odd(4),
	}
	paths := []string{"new-file.docx", "x.docx", "d.v1/x.docx", "ABS/y.docx", "noext", "d.v1/noext", "./x.docx", "d e/größe 1.b.docx", "d.v1/../x.docx", "d.v1/.docx", "d.v1/trailing."}
	var cfgs []cfg22
	for m := 0; m < 16; m++ {
		for _, s := range []string{"", "^S", "none of these", "."} {
			for _, d := range []int{0, 2, 3} {
				cfgs = append(cfgs, cfg22{m&1 != 0, m&2 != 0, m&4 != 0, m&8 != 0, s, d})
			}
		}
	}
	type job struct {
		f    cfg22
		path string
		in   string
		junk bool
	}
	var jobs []job
	var inNames []string
	for n := range inputs {
		inNames = append(inNames, n)
	}
	sort.Strings(inNames)
	for i, f := range cfgs {
		for pi, p := range paths {
			if !f.a {
				if c.Thorough() || (pi == i%len(paths)) {
					jobs = append(jobs, job{f, p, "", (i+pi)%2 == 0})
				}
				continue
			}
			for ni, n := range inNames {
				if c.Thorough() || n == "mixed" || (i+pi+ni)%7 == 0 {
					jobs = append(jobs, job{f, p, n, (i+pi+ni)%2 == 0})
				}
			}
		}
	}
	for _, n := range []int{9, 10, 100, 255, 256, 257, 300, c.Pick(600, 3000)} { // many copies
		jobs = append(jobs, job{cfg22{a: true, d: n}, "x.docx", "empty", false}, job{cfg22{a: true, u: true, s: "^S", d: n}, "x.docx", "mixed", false})
	}
	// everything that paragraphs, runs and drawings can carry, in the body and in a table
	for i, v := range vocabDocs(c.Pick(2, 3)) {
		body := E("w:body", nil, para("S 1", true))
		cell := E("w:tc", nil)
		for _, k := range v.body.Kids {
			body.Kids = append(body.Kids, k)
			if k.Name == "w:p" {
				cell.Kids = append(cell.Kids, k.Clone())
			}
		}
		if len(cell.Kids) > 0 {
			body.Kids = append(body.Kids, para("S 2", false), E("w:tbl", nil, E("w:tr", nil, cell)))
		}
		name := "vocabulary " + v.name
		inputs[name] = GrammarPackage(DocXML(body))
		jobs = append(jobs, job{cfg22{a: true, c: i%2 == 0, u: true, p: true, s: "^S", d: 2}, "x.docx", name, false})
		if c.Thorough() || i%8 == 0 {
			jobs = append(jobs, job{cfg22{a: true, c: i%2 == 1, u: true, s: ".", d: 2}, "x.docx", name, false})
		}
	}
	var demo []byte // the generated document does not depend on the other flags
	demoOf := func(j job) []byte { return demo }
	run := func(ji int, j job) {
		root := filepath.Join(dir, fmt.Sprint("run", ji))
		os.MkdirAll(filepath.Join(root, "d.v1"), 0o755)
		os.MkdirAll(filepath.Join(root, "d e"), 0o755)
		os.MkdirAll(filepath.Join(root, "abs"), 0o755)
		os.Symlink(testdata, filepath.Join(root, "testdata"))
		defer func() {
			if strings.HasPrefix(root, dir+"/run") {
				os.RemoveAll(root)
			}
		}()
		path := strings.Replace(j.path, "ABS", filepath.Join(root, "abs"), 1)
		at := func(p string) string { // relative to root
			if !filepath.IsAbs(p) {
				p = filepath.Join(root, p)
			}
			r, _ := filepath.Rel(root, filepath.Clean(p))
			return r
		}
		in := inputs[j.in]
		rep := fmt.Sprintf("input %q left-overs %v: main %s", j.in, j.junk, strings.Join(j.f.args(j.path), " "))
		want := map[string][]byte{}
		var text string
		if j.f.a {
			os.WriteFile(filepath.Join(root, at(path)), in, 0o644)
		} else if in = demoOf(j); in == nil && j.in != "first" {
			return
		}
		if in != nil {
			files, t, err := want22(j.f, path, in)
			if err != nil {
				c.Fail("library", err.Error(), rep)
				return
			}
			text = t
			for n, b := range files {
				want[at(n)] = b
			}
		}
		if j.junk { // longer files of the same names are replaced
			for n := range want {
				os.WriteFile(filepath.Join(root, n), bytes.Repeat([]byte("junk"), 1<<19), 0o644)
			}
			if !j.f.a {
				os.WriteFile(filepath.Join(root, at(path)), bytes.Repeat([]byte("junk"), 1<<20), 0o644)
			}
		}
		cmd := exec.Command(bin, j.f.args(path)...)
		cmd.Dir = root
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		if err := cmd.Start(); err != nil {
			c.Fail("start", err.Error(), rep)
			return
		}
		tm := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
		err := cmd.Wait()
		tm.Stop()
		c.Trans(1)
		c.Trace()
		c.State(fmt.Sprint(j.f, j.path, j.in, j.junk))
		if err != nil {
			c.Fail("the command fails", err.Error()+": "+Trunc(se.String(), 400), rep)
			return
		}
		got := map[string][]byte{}
		filepath.WalkDir(root, func(p string, e fs.DirEntry, err error) error {
			if err == nil && e.Type().IsRegular() {
				r, _ := filepath.Rel(root, p)
				got[r], _ = os.ReadFile(p)
			}
			return nil
		})
		input := at(path)
		if j.f.a {
			if !bytes.Equal(got[input], in) {
				c.Fail("analysed input changed", fmt.Sprint(len(got[input]), " bytes"), rep)
			}
		} else {
			if in == nil {
				demo = got[input]
				if ref := demo22(testdata); !sameParts(ref, demo) {
					c.Fail("generated document differs", FirstDiff(docXMLOf(ref), docXMLOf(demo)), rep)
				}
				if _, bad := Consistent(demo); len(bad) > 0 {
					c.Fail("generated document", fmt.Sprint(bad), rep)
				}
				return
			}
			if !sameParts(got[input], in) {
				c.Fail("generated document depends on flags or path", "", rep)
			}
		}
		delete(got, input)
		for n, b := range want {
			g, ok := got[n]
			if !ok {
				c.Fail("output file missing", n+": "+fmt.Sprint(keys22(got)), rep)
				continue
			}
			if !sameParts(g, b) {
				c.Fail("output file differs", n+": "+FirstDiff(docXMLOf(b), docXMLOf(g)), rep)
			}
			delete(got, n)
		}
		if len(got) > 0 {
			c.Fail("files that no flag asks for", fmt.Sprint(keys22(got)), rep)
		}
		if !strings.Contains(so.String(), text) {
			c.Fail("plain text not printed", FirstDiff(text, so.String()), rep)
		}
	}
	run(len(jobs), job{cfg22{}, "x.docx", "first", false})
	if c.Failing() || demo == nil {
		c.Fail("no generated document", "", "main -f x.docx")
		return
	}
	Par(len(jobs), func(i int) {
		if !c.Failing() {
			c.Guard("command", fmt.Sprint(jobs[i]), func() { run(i, jobs[i]) })
		}
	})
	// whatever it needs and cannot have makes it end with a failure
	fails := 0
	failing := func(name string, prep func(root string), files map[string]bool, args ...string) {
		fails++
		root := filepath.Join(dir, fmt.Sprint("fail", fails))
		os.MkdirAll(filepath.Join(root, "testdata"), 0o755)
		for _, n := range []string{"fumiama.JPG", "fumiama2x.webp", "fumiamayoko.png"} {
			b, _ := os.ReadFile(filepath.Join(testdata, n))
			os.WriteFile(filepath.Join(root, "testdata", n), b, 0o644)
		}
		os.WriteFile(filepath.Join(root, "in.docx"), inputs["mixed"], 0o644)
		prep(root)
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, bin, args...)
		cmd.Dir = root
		out, err := cmd.CombinedOutput()
		rep := name + ": main " + strings.Join(args, " ")
		c.Trans(1)
		c.Trace()
		c.State(rep)
		if err == nil {
			c.Fail("ends with success though it failed", Trunc(string(out), 200), rep)
		}
		if b, _ := os.ReadFile(filepath.Join(root, "in.docx")); files["in"] && !bytes.Equal(b, inputs["mixed"]) {
			c.Fail("analysed input changed by a failing run", "", rep)
		}
		if strings.HasPrefix(root, dir+"/fail") {
			os.RemoveAll(root)
		}
	}
	none := func(string) {}
	keep := map[string]bool{"in": true}
	for _, n := range []string{"fumiama.JPG", "fumiama2x.webp", "fumiamayoko.png"} {
		failing("without "+n, func(r string) { os.Remove(filepath.Join(r, "testdata", n)) }, nil, "-f", "x.docx")
		failing("empty "+n, func(r string) { os.WriteFile(filepath.Join(r, "testdata", n), nil, 0o644) }, nil, "-f", "x.docx")
		failing("damaged "+n, func(r string) { os.WriteFile(filepath.Join(r, "testdata", n), []byte("no picture"), 0o644) }, nil, "-f", "x.docx")
	}
	full := func(n string) func(string) {
		return func(r string) { os.Symlink("/dev/full", filepath.Join(r, n)) }
	}
	folder := func(n string) func(string) {
		return func(r string) { os.Mkdir(filepath.Join(r, n), 0o755) }
	}
	for _, o := range []struct {
		name string
		args []string
	}{{"unmarshal_in.docx", []string{"-a", "-u", "-f", "in.docx"}}, {"dup_in.docx", []string{"-a", "-d", "2", "-f", "in.docx"}}, {"dup_in.docx", []string{"-a", "-u", "-s", "^S", "-d", "9", "-f", "in.docx"}},
		{"unmarshal_in_split0.docx", []string{"-a", "-s", "^S", "-f", "in.docx"}}, {"unmarshal_in_split1.docx", []string{"-a", "-s", "^S", "-f", "in.docx"}}, {"unmarshal_in_split2.docx", []string{"-a", "-u", "-s", "^S", "-f", "in.docx"}},
		{"x.docx", []string{"-f", "x.docx"}}, {"dup_x.docx", []string{"-d", "2", "-f", "x.docx"}}, {"unmarshal_x.docx", []string{"-u", "-f", "x.docx"}}} {
		failing("no space for "+o.name, full(o.name), keep, o.args...)
		failing("a folder at "+o.name, folder(o.name), keep, o.args...)
	}
	failing("no such input", none, keep, "-a", "-f", "missing.docx")
	failing("no such folder", none, keep, "-f", "missing/x.docx")
	failing("bad expression", none, keep, "-a", "-s", "(", "-f", "in.docx")
	for i, b := range [][]byte{nil, []byte("PK"), inputs["mixed"][:len(inputs["mixed"])-1], inputs["mixed"][:len(inputs["mixed"])/2], []byte("<w:document/>")} {
		b := b
		failing(fmt.Sprint("input that is no document ", i), func(r string) { os.WriteFile(filepath.Join(r, "bad.docx"), b, 0o644) }, keep, "-a", "-f", "bad.docx")
	}
	c.AddExtra("failing runs", fails)
	c.Assume("a copy count of one is not exercised (the help text leaves open whether it makes a file)", "the folder of the file exists and can be written")
}

func keys22(m map[string][]byte) (ks []string) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return
}

// demo22 builds the document the command writes, by the library's own operations.
func demo22(dir string) []byte {
	w := docx.New().WithDefaultTheme().WithA4Page()
	// add new paragraph
	para1 := w.AddParagraph().Justification("distribute")
	r, err := para1.AddAnchorDrawingFrom(dir + "/fumiama.JPG")
	if err != nil {
		panic(err)
	}
	r.Children[0].(*docx.Drawing).Anchor.Size(r.Children[0].(*docx.Drawing).Anchor.Extent.CX/4, r.Children[0].(*docx.Drawing).Anchor.Extent.CY/4)
	r.Children[0].(*docx.Drawing).Anchor.BehindDoc = 1
	r.Children[0].(*docx.Drawing).Anchor.PositionH.PosOffset = r.Children[0].(*docx.Drawing).Anchor.Extent.CX
	r.Children[0].(*docx.Drawing).Anchor.Graphic.GraphicData.Pic.BlipFill.Blip.AlphaModFix = &docx.AAlphaModFix{Amount: 50000}
	// add text
	para1.AddText("test").AddTab()
	para1.AddText("size").Size("44").AddTab()
	para1.AddText("color").Color("808080").AddTab()
	para1.AddText("shade").Shade("clear", "auto", "E7E6E6").AddTab()
	para1.AddText("bold").Bold().AddTab()
	para1.AddText("italic").Italic().AddTab()
	para1.AddText("underline").Underline("double").AddTab()
	para1.AddText("highlight").Highlight("yellow").AddTab()
	para1.AddText("font").Font("Consolas", "", "", "cs").AddTab()

	para2 := w.AddParagraph().Justification("end")
	para2.AddText("test all font attrs").
		Size("44").Color("ff0000").
		Font("Consolas", "", "", "cs").
		Shade("clear", "auto", "E7E6E6").
		Bold().Italic().Underline("wave").
		Highlight("yellow")

	nextPara := w.AddParagraph()
	nextPara.AddLink("google", `http://google.com`)

	para3 := w.AddParagraph().Justification("center")
	// add text
	para3.AddText("一行2个 inline").Size("44")

	para4 := w.AddParagraph().Justification("center")
	r, err = para4.AddInlineDrawingFrom(dir + "/fumiama.JPG")
	if err != nil {
		panic(err)
	}
	r.Children[0].(*docx.Drawing).Inline.Size(r.Children[0].(*docx.Drawing).Inline.Extent.CX*4/5, r.Children[0].(*docx.Drawing).Inline.Extent.CY*4/5)
	para4.AddTab().AddTab()
	r, err = para4.AddInlineDrawingFrom(dir + "/fumiama2x.webp")
	if err != nil {
		panic(err)
	}
	r.Children[0].(*docx.Drawing).Inline.Size(r.Children[0].(*docx.Drawing).Inline.Extent.CX*4/5, r.Children[0].(*docx.Drawing).Inline.Extent.CY*4/5)

	w.AddParagraph().AddPageBreaks()
	para5 := w.AddParagraph().Justification("center")
	// add text
	para5.AddText("一行1个 横向 inline").Size("44")

	para6 := w.AddParagraph()
	_, err = para6.AddInlineDrawingFrom(dir + "/fumiamayoko.png")
	if err != nil {
		panic(err)
	}

	w.AddParagraph()

	tbl1 := w.AddTable(9, 9, 0, nil)
	for x, r := range tbl1.TableRows {
		red := (x + 1) * 28
		for y, c := range r.TableCells {
			green := ((y + 1) / 3) * 85
			blue := (y%3 + 1) * 85
			v := fmt.Sprintf("%02X%02X%02X", red, green, blue)
			c.Shade("clear", "auto", v).AddParagraph().AddText(v).Size("18")
		}
	}

	w.AddParagraph()

	tbl2 := w.AddTableTwips([]int64{2333, 2333, 2333}, []int64{2333, 2333}, 0, nil).Justification("center")
	for x, r := range tbl2.TableRows {
		r.Justification("center")
		for y, c := range r.TableCells {
			c.TableCellProperties.VAlign = &docx.WVerticalAlignment{Val: "center"}
			c.AddParagraph().Justification("center").AddText(fmt.Sprintf("(%d, %d)", x, y))
		}
	}
	tbl2.TableRows[0].TableCells[0].Shade("clear", "auto", "E7E6E6")

	p := w.AddParagraph().Justification("center")
	p.AddText("测试 AutoShape w:ln").Size("44")
	_ = p.AddAnchorShape(808355, 238760, "AutoShape", "auto", "straightConnector1",
		&docx.ALine{
			W:         9525,
			SolidFill: &docx.ASolidFill{SrgbClr: &docx.ASrgbClr{Val: "000000"}},
			Round:     &struct{}{},
			HeadEnd:   &docx.AHeadEnd{},
			TailEnd:   &docx.ATailEnd{},
		},
	)
	_ = p.AddInlineShape(808355, 238760, "AutoShape", "auto", "straightConnector1",
		&docx.ALine{
			W:         9525,
			SolidFill: &docx.ASolidFill{SrgbClr: &docx.ASrgbClr{Val: "000000"}},
			Round:     &struct{}{},
			HeadEnd:   &docx.AHeadEnd{},
			TailEnd:   &docx.ATailEnd{},
		},
	)

	b, err := Save(w)
	if err != nil {
		panic(err)
	}
	return b
}
