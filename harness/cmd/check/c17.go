package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	docx "github.com/fumiama/go-docx"

	. "verif/harness/core"
)

func init() { checks["C17"] = check{"model_checking", runC17} }

// ptrs17 collects the addresses reachable through public fields.
func ptrs17(x interface{}, into map[uintptr]bool) {
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || v.Type().Elem().Size() == 0 || into[v.Pointer()] {
				return
			}
			into[v.Pointer()] = true
			walk(v.Elem())
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath == "" {
					walk(v.Field(i))
				}
			}
		case reflect.Slice:
			if v.Len() > 0 {
				into[v.Pointer()] = true
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		}
	}
	walk(reflect.ValueOf(x))
}

// shape17 checks a fresh table through its public fields.
func shape17(c *Ctx, t *docx.Table, rows, cols int, heights, widths []int64, twips bool, width int64, bc *docx.APITableBorderColors, rep string) {
	fail := func(sig string, detail string) { c.Fail("table: "+sig, detail, rep) }
	if len(t.TableRows) != rows {
		fail("number of rows", fmt.Sprintf("%d want %d", len(t.TableRows), rows))
		return
	}
	seen := map[uintptr]bool{}
	for i, r := range t.TableRows {
		if r == nil {
			fail("row is nil", fmt.Sprint(i))
			return
		}
		if len(r.TableCells) != cols {
			fail("number of cells", fmt.Sprintf("row %d: %d want %d", i, len(r.TableCells), cols))
			return
		}
		for j, x := range r.TableCells {
			if x == nil {
				fail("cell is nil", fmt.Sprint(i, j))
				return
			}
			if len(x.Paragraphs) != 0 {
				fail("new cell is not empty", fmt.Sprint(i, j))
			}
			own := map[uintptr]bool{}
			ptrs17(x, own)
			for p := range own {
				if seen[p] {
					fail("cells share objects", fmt.Sprint(i, j))
				}
				seen[p] = true
			}
			var w int64
			ty := "auto"
			if twips {
				w, ty = widths[j], "dxa"
			}
			if p := x.TableCellProperties; p == nil || p.TableCellWidth == nil || p.TableCellWidth.W != w || p.TableCellWidth.Type != ty {
				fail("cell width", fmt.Sprintf("cell %d,%d want %d %s", i, j, w, ty))
			}
			if p := x.TableCellProperties; p != nil && (p.Shade != nil || p.VMerge != nil || p.GridSpan != nil || p.TableBorders != nil || p.VAlign != nil) {
				fail("new cell has properties", fmt.Sprint(i, j))
			}
		}
		own := map[uintptr]bool{}
		ptrs17(r.TableRowProperties, own)
		for p := range own {
			if seen[p] {
				fail("rows share objects", fmt.Sprint(i))
			}
			seen[p] = true
		}
		var h int64
		if twips && heights[i] > 0 {
			h = heights[i]
		}
		var got int64
		if p := r.TableRowProperties; p != nil && p.TableRowHeight != nil {
			got = p.TableRowHeight.Val
		}
		if h != got {
			fail("row height", fmt.Sprintf("row %d: %d want %d", i, got, h))
		}
	}
	if twips {
		if t.TableGrid == nil || len(t.TableGrid.GridCols) != cols {
			fail("grid", "number of columns")
		} else {
			for j, g := range t.TableGrid.GridCols {
				own := map[uintptr]bool{}
				ptrs17(g, own)
				for p := range own {
					if seen[p] {
						fail("columns share objects", fmt.Sprint(j))
					}
					seen[p] = true
				}
				if g == nil || (g.W != widths[j] && widths[j] >= 0) {
					fail("grid", fmt.Sprintf("column %d: %v want %d", j, g, widths[j]))
				}
			}
		}
	}
	p := t.TableProperties
	if p == nil || p.Width == nil || p.TableBorders == nil {
		fail("properties missing", "")
		return
	}
	if (width > 0) != (p.Width.Type == "dxa") || (width > 0 && p.Width.W != width) || (width <= 0 && p.Width.Type != "auto") {
		fail("table width", fmt.Sprintf("%+v want %d", p.Width, width))
	}
	var want docx.APITableBorderColors
	if bc != nil {
		want = *bc
	}
	b := p.TableBorders
	for _, x := range []struct {
		n    string
		b    *docx.WTableBorder
		want string
	}{{"top", b.Top, want.Top}, {"left", b.Left, want.Left}, {"bottom", b.Bottom, want.Bottom}, {"right", b.Right, want.Right}, {"insideH", b.InsideH, want.InsideH}, {"insideV", b.InsideV, want.InsideV}} {
		if x.want == "" {
			x.want = "#000000"
		}
		if x.b == nil || x.b.Color != x.want {
			fail("border colour "+x.n, fmt.Sprintf("%+v want %s", x.b, x.want))
		}
	}
}

func runC17(c *Ctx) {
	c.Rule = "every rows x columns, every pair of height and width lists up to the length, every border-colour subset; every sequence of table edits up to the depth on every addressed table, row and cell; state = saved content"
	check := func(w *W, rep string) {
		p, b := compareSaved(c, w, "table", rep)
		c.Trace()
		if p == nil {
			return
		}
		c.State(Render(p.Abs()))
		d, err := tryParse(b)
		if err != nil {
			c.Fail("table: re-open", err.Error(), rep)
			return
		}
		var x, y []string
		for _, it := range w.d.Document.Body.Items {
			if t, ok := it.(*docx.Table); ok {
				x = append(x, tableFields(t))
			}
		}
		for _, it := range d.Document.Body.Items {
			if t, ok := it.(*docx.Table); ok {
				y = append(y, tableFields(t))
			}
		}
		if strings.Join(x, "\n") != strings.Join(y, "\n") {
			c.Fail("table: re-opened table differs", FirstDiff(strings.Join(x, "\n"), strings.Join(y, "\n")), rep)
		}
		w2 := &W{d: d, items: w.items}
		compareSaved(c, w2, "re-opened table", rep)
	}
	colors := []*docx.APITableBorderColors{nil}
	for m := 0; m < 64; m++ {
		b := &docx.APITableBorderColors{}
		for k, f := range []*string{&b.Top, &b.Left, &b.Bottom, &b.Right, &b.InsideH, &b.InsideV} {
			if m>>k&1 == 1 {
				*f = fmt.Sprintf("#%06d", k+1)
			}
		}
		colors = append(colors, b)
	}
	for m := 1; m < 64; m++ { // the same colour at several places
		for other := 0; other < 64; other = other*2 + 1 {
			b := &docx.APITableBorderColors{}
			for k, f := range []*string{&b.Top, &b.Left, &b.Bottom, &b.Right, &b.InsideH, &b.InsideV} {
				if m>>k&1 == 1 {
					*f = "#FF0000"
				} else if other>>k&1 == 1 {
					*f = "#00FF00"
				}
			}
			colors = append(colors, b)
		}
	}
	build := func(rows, cols int, hs, ws []int64, twips bool, width int64, bc *docx.APITableBorderColors) {
		w := newW()
		var op Op
		if twips {
			op = opTableTwips(hs, ws, width, bc)
			rows, cols = len(hs), len(ws)
		} else {
			op = opTable(rows, cols, width, bc)
		}
		c.Guard("table", op.Name, func() {
			op.Do(w)
			c.Trans(1)
			if w.err != nil {
				c.Fail("table: "+w.err.Error(), "", op.Name)
				return
			}
			shape17(c, w.it, rows, cols, hs, ws, twips, width, bc, op.Name)
			// a second one with the same arguments shares nothing with it
			a, b := map[uintptr]bool{}, map[uintptr]bool{}
			first := w.it
			op.Do(w)
			ptrs17(first, a)
			ptrs17(w.it, b)
			for p := range a {
				if b[p] {
					c.Fail("table: tables share objects", "", op.Name)
				}
			}
			check(w, op.Name)
		})
	}
	n := c.Pick(6, 12)
	wd := []int64{-7, 0, 1, 9637, 1 << 40}
	Par((n+1)*(n+1)*len(wd), func(i int) {
		build(i/len(wd)/(n+1), i/len(wd)%(n+1), nil, nil, false, wd[i%len(wd)], colors[i%len(colors)])
	})
	Par(len(colors), func(i int) {
		build(1, 2, nil, nil, false, 0, colors[i])
		build(0, 0, []int64{5, 0}, []int64{7}, true, 3000, colors[i])
	})
	for i, w := range Words { // any text is a colour
		b := &docx.APITableBorderColors{}
		fs := []*string{&b.Top, &b.Left, &b.Bottom, &b.Right, &b.InsideH, &b.InsideV}
		for k := range fs {
			*fs[k] = w
			if i%2 == 1 {
				*fs[k] = Words[(i+k)%len(Words)]
			}
		}
		build(1, 1, nil, nil, false, 0, b)
		build(0, 0, []int64{5}, []int64{7, 9}, true, 0, b)
		for k := range fs {
			one := &docx.APITableBorderColors{}
			*[]*string{&one.Top, &one.Left, &one.Bottom, &one.Right, &one.InsideH, &one.InsideV}[k] = w
			build(1, 1, nil, nil, i%2 == 0, 0, one)
		}
	}
	for i, s := range Numbers { // any width and height
		v, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			continue
		}
		build(1, 1, nil, nil, false, v, nil)
		build(0, 0, []int64{v, 1}, []int64{1, v}, true, v, colors[i%len(colors)])
		build(0, 0, []int64{1, v, v}, []int64{v}, true, 0, nil)
	}
	for _, big := range [][2]int{{1, 63}, {1, 64}, {1, 65}, {64, 1}, {65, 2}, {2, 129}, {257, 1}, {1, 257}, {1025, 1}, {33, 33}} {
		build(big[0], big[1], nil, nil, false, 0, nil)
		hs, ws := make([]int64, big[0]), make([]int64, big[1])
		for i := range hs {
			hs[i] = int64(i % 3 * 100)
		}
		for i := range ws {
			ws[i] = int64(i%4) * 50
		}
		build(0, 0, hs, ws, true, 0, nil)
	}
	var lists [][]int64
	dom := []int64{0, 1, 567, 1 << 33}
	var gen func(l []int64, n int)
	gen = func(l []int64, n int) {
		lists = append(lists, append([]int64{}, l...))
		if n == 0 {
			return
		}
		for _, v := range dom {
			gen(append(append([]int64{}, l...), v), n-1)
		}
	}
	gen(nil, c.Pick(3, 4))
	c.AddExtra("height and width lists", len(lists)*len(lists))
	Par(len(lists), func(i int) {
		for j := range lists {
			build(0, 0, lists[i], lists[j], true, wd[(i+j)%len(wd)], colors[(i*7+j)%len(colors)])
		}
	})
	// edits
	type ed struct {
		name string
		do   func(w *W, t []*docx.Table, m []*Node)
	}
	var eds []ed
	for t := 0; t < 2; t++ {
		t := t
		for _, v := range []string{"center", "end"} {
			v := v
			eds = append(eds, ed{fmt.Sprintf("T%d.Justification(%s)", t, v), func(w *W, ts []*docx.Table, ms []*Node) {
				if ts[t].Justification(v) != ts[t] {
					w.err = fmt.Errorf("table is not returned")
				}
				setProp(prop(ms[t], "w:tblPr"), E("w:jc", A("w:val", v)))
			}})
			for r := 0; r < 2; r++ {
				r := r
				eds = append(eds, ed{fmt.Sprintf("T%d.Row%d.Justification(%s)", t, r, v), func(w *W, ts []*docx.Table, ms []*Node) {
					row := ts[t].TableRows[r]
					if row.Justification(v) != row {
						w.err = fmt.Errorf("row is not returned")
					}
					setProp(prop(mRows(ms[t])[r], "w:trPr"), E("w:jc", A("w:val", v)))
				}})
			}
		}
		for r := 0; r < 2; r++ {
			for k := 0; k < 2; k++ {
				r, k := r, k
				for _, f := range []string{"FF0000", "00FF00"} {
					f := f
					if f == "00FF00" && (r != k || t == 1) {
						continue
					}
					eds = append(eds, ed{fmt.Sprintf("T%d.Cell%d%d.Shade(%s)", t, r, k, f), func(w *W, ts []*docx.Table, ms []*Node) {
						cell := ts[t].TableRows[r].TableCells[k]
						if cell.Shade("clear", "auto", f) != cell {
							w.err = fmt.Errorf("cell is not returned")
						}
						setProp(prop(mCells(mRows(ms[t])[r])[k], "w:tcPr"), E("w:shd", A("w:val", "clear", "w:color", "auto", "w:fill", f)))
					}})
				}
				eds = append(eds, ed{fmt.Sprintf("T%d.Cell%d%d.AddParagraph", t, r, k), func(w *W, ts []*docx.Table, ms []*Node) {
					cell := ts[t].TableRows[r].TableCells[k]
					before := len(cell.Paragraphs)
					w.newPara(cell.AddParagraph(), mCells(mRows(ms[t])[r])[k])
					if len(cell.Paragraphs) != before+1 || cell.Paragraphs[before] != w.ip {
						w.err = fmt.Errorf("paragraph is not the last one of its cell")
						return
					}
					opText(fmt.Sprintf("t%d%d%d", t, r, k)).Do(w)
					opLink("l", "http://l/"+fmt.Sprint(t, r, k)).Do(w)
				}})
			}
		}
	}
	eds = append(eds, ed{"T0.Cell01.AddParagraph with picture", func(w *W, ts []*docx.Table, ms []*Node) {
		w.newPara(ts[0].TableRows[0].TableCells[1].AddParagraph(), mCells(mRows(ms[0])[0])[1])
		opPic("inline", "png", 2, 77).Do(w)
	}})
	parsedTable := func() (*docx.Docx, []*Node) {
		body := E("w:body", nil,
			E("w:tbl", nil, E("w:tr", nil, E("w:tc", nil), E("w:tc", nil, E("w:p", nil))), E("w:tr", nil, E("w:tc", nil), E("w:tc", nil))),
			E("w:tbl", nil, Full("w:tblPr", "w:tbl", 2), Full("w:tblGrid", "w:tbl", 1),
				E("w:tr", nil, Full("w:trPr", "w:tr", 1), E("w:tc", nil, Full("w:tcPr", "w:tc", 2), E("w:p", nil)), E("w:tc", nil, Full("w:tcPr", "w:tc", 2))),
				E("w:tr", nil, E("w:trPr", nil), E("w:tc", nil, E("w:tcPr", nil)), E("w:tc", nil))))
		b := GrammarPackage(DocXML(body))
		d := mustParse(b)
		p, _, err := savePkg(d)
		if err != nil {
			panic(err)
		}
		return d, p.Canon(p.Body(), CanonOpts{}).Kids
	}
	bases := []struct {
		name string
		mk   func() *W
	}{
		{"AddTable", func() *W {
			w := newW()
			opTable(2, 2, 0, nil).Do(w)
			opTable(2, 2, 9000, colors[5]).Do(w)
			return w
		}},
		{"AddTableTwips", func() *W {
			w := newW()
			opTableTwips([]int64{1, 0}, []int64{0, 300}, 0, nil).Do(w)
			opTableTwips([]int64{7, 8}, []int64{9, 10}, 400, nil).Do(w)
			return w
		}},
		{"re-opened", func() *W {
			w := newW()
			opTable(2, 2, 0, nil).Do(w)
			opTableTwips([]int64{7, 0}, []int64{9, 0}, 400, nil).Do(w)
			opReopen().Do(w)
			return w
		}},
		{"parsed", func() *W {
			d, items := parsedTable()
			return &W{d: d, items: items}
		}},
	}
	c.AddExtra("edits", len(eds))
	for _, base := range bases {
		base := base
		seqs10(len(eds), c.Pick(2, 3), func(seq []int) {
			if c.Failing() {
				return
			}
			w := base.mk()
			var ts []*docx.Table
			var ms []*Node
			for i, it := range w.d.Document.Body.Items {
				ts = append(ts, it.(*docx.Table))
				ms = append(ms, w.items[i])
			}
			rep := base.name
			for _, k := range seq {
				rep += "; " + eds[k].name
			}
			c.Guard("table edit", rep, func() {
				for _, k := range seq {
					eds[k].do(w, ts, ms)
					c.Trans(1)
					if w.err != nil {
						c.Fail("table edit: "+w.err.Error(), "", rep)
						return
					}
				}
				check(w, rep)
			})
		})
	}
	c.Assume("negative heights and widths mean no height and no width")
}

// tableFields renders the public fields of a table's geometry.
func tableFields(t *docx.Table) string {
	var sb strings.Builder
	p := t.TableProperties
	if p != nil {
		fmt.Fprint(&sb, "width ", render16(p.Width), " jc ", render16(p.Justification), " borders ", render16(p.TableBorders))
	}
	if t.TableGrid != nil {
		for _, g := range t.TableGrid.GridCols {
			fmt.Fprint(&sb, " g", render16(g))
		}
	}
	for _, r := range t.TableRows {
		sb.WriteString("\nrow")
		if r.TableRowProperties != nil {
			fmt.Fprint(&sb, " ", render16(r.TableRowProperties.TableRowHeight), " ", render16(r.TableRowProperties.Justification))
		}
		for _, x := range r.TableCells {
			sb.WriteString("\n cell")
			if x.TableCellProperties != nil {
				fmt.Fprint(&sb, " ", render16(x.TableCellProperties))
			}
			for _, p := range x.Paragraphs {
				fmt.Fprintf(&sb, " %q", p.String())
			}
		}
	}
	return sb.String()
}
