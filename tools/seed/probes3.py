PROBES=[
# --- C01
dict(id='r01-sect-dedupe',property='C01',edits=[('theme.go','''			W: 11906,
			H: 16838,
		},
	}
''','''			W: 11906,
			H: 16838,
		},
	}
	if n := len(f.Document.Body.Items); n > 0 {
		if s, ok := f.Document.Body.Items[n-1].(*SectPr); ok {
			s.PgSz = sectpr.PgSz
			return f
		}
	}
''')]),
dict(id='r02-link-strip-hash',property='C01',edits=[('apilink.go','	rid := p.file.addLinkRelation(link)\n','	if n := len(link); n > 1 && link[n-1] == \'#\' {\n		link = link[:n-1]\n	}\n	rid := p.file.addLinkRelation(link)\n')]),
dict(id='r03-jc-left',property='C01',edits=[('apipara.go','	p.Properties.Justification = &Justification{Val: val}\n','	if val == "distribute" && len(p.Children) == 0 {\n		val = "both"\n	}\n	p.Properties.Justification = &Justification{Val: val}\n')],checks=['C01','C16']),
dict(id='r04-cellpara-file',property='C01',edits=[('apitable.go','''				file: f,
			}
		}
		trs[i] = &WTableRow{
			TableRowProperties: &WTableRowProperties{},
			TableCells:         cells,
		}
		if h > 0 {''','''			}
			if i == 0 {
				cells[i].file = f
			}
		}
		trs[i] = &WTableRow{
			TableRowProperties: &WTableRowProperties{},
			TableCells:         cells,
		}
		if h > 0 {''')],checks=['C01','C14']),
dict(id='r05-space-nbsp',property='C09',edits=[('apitext.go','				if strings.TrimSpace(k) != k {','				if strings.Trim(k, " ") != k {')]),
dict(id='r06-lone-tab-lines',property='C09',edits=[('apitext.go','strings.Split(text, "\\n")','strings.Split(strings.TrimSuffix(text, "\\n\\n"), "\\n")')]),
# --- C02
dict(id='r07-hansi-eq',property='C02',edits=[('structrun.go','''	// Consume the end element
	return d.Skip()
}
''','''	if f.HAnsi != "" && f.HAnsi == f.ASCII && f.EastAsia != "" {
		f.HAnsi = ""
	}
	// Consume the end element
	return d.Skip()
}
''')]),
dict(id='r08-gridspan1',property='C02',edits=[('structtable.go','''				r.GridSpan.Val, err = GetInt(v)
				if err != nil {
					return err
				}
''','''				r.GridSpan.Val, err = GetInt(v)
				if err != nil {
					return err
				}
				if r.GridSpan.Val == 1 {
					r.GridSpan = nil
				}
''')]),
dict(id='r09-tables-join',property='C02',edits=[('structdoc.go','''				b.Items = append(b.Items, &value)
			case "sectPr":''','''				if n := len(b.Items); n > 0 && value.TableProperties == nil {
					if p, ok := b.Items[n-1].(*Table); ok && p.TableProperties == nil {
						p.TableRows = append(p.TableRows, value.TableRows...)
						continue
					}
				}
				b.Items = append(b.Items, &value)
			case "sectPr":''')]),
dict(id='r10-neg-indent',property='C02',edits=[('structeffects.go','''			i.FirstLine, err = GetInt(attr.Value)
			if err != nil {
				return
			}
''','''			i.FirstLine, err = GetInt(attr.Value)
			if err != nil {
				return
			}
			if i.FirstLine < 0 {
				i.FirstLine, i.Hanging = 0, -i.FirstLine
			}
''')]),
dict(id='r11-last-tcpr',property='C02',edits=[('structtable.go','				c.TableCellProperties = &value\n','				if c.TableCellProperties == nil || value.Shade != nil || value.TableCellWidth != nil {\n					c.TableCellProperties = &value\n				}\n')]),
dict(id='r12-border-space31',property='C02',edits=[('structtable.go','			t.Space = space\n','			t.Space = space & 31\n')]),
dict(id='r13-vmerge-cont',property='C02',edits=[('structtable.go','r.VMerge = &WvMerge{Val: getAtt(tt.Attr, "val")}','r.VMerge = &WvMerge{Val: strings.TrimPrefix(getAtt(tt.Attr, "val"), "continue")}')]),
dict(id='r14-tab-after-br',property='C02',edits=[('structrun.go','		child = &Tab{}\n		err = d.Skip()\n','		err = d.Skip()\n		if n := len(r.Children); n > 1 {\n			if _, ok := r.Children[n-1].(*BarterRabbet); ok {\n				if _, ok = r.Children[n-2].(*Tab); ok {\n					return nil, err\n				}\n			}\n		}\n		child = &Tab{}\n')],checks=['C02','C09']),
dict(id='r15-grp-pic-xmlns',property='C02',edits=[('structgroup.go','''				w.Elems = append(w.Elems, &value)
			case "wsp":
				var value WordprocessingShape
				value.file = w.file
				err = d.DecodeElement(&value, &tt)
				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
					return err
				}
				w.Elems = append(w.Elems, &value)
			case "wpc":
				var value WordprocessingCanvas
				value.file = w.file
				err = d.DecodeElement(&value, &tt)
				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
					return err
				}
				w.Elems = append(w.Elems, &value)
			case "grpSp":''','''				w.Elems = append(w.Elems, &value)
			case "wsp":
				var value WordprocessingShape
				value.file = w.file
				err = d.DecodeElement(&value, &tt)
				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
					return err
				}
				w.Elems = append([]interface{}{&value}, w.Elems...)
			case "wpc":
				var value WordprocessingCanvas
				value.file = w.file
				err = d.DecodeElement(&value, &tt)
				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
					return err
				}
				w.Elems = append(w.Elems, &value)
			case "grpSp":''')]),
dict(id='r16-txbx-long',property='C02',edits=[('structshape.go','				c.Paragraphs = append(c.Paragraphs, value)\n','				if n := len(c.Paragraphs); n > 0 && len(value.Children) == 0 && value.Properties == nil && len(c.Paragraphs[n-1].Children) == 0 {\n					continue\n				}\n				c.Paragraphs = append(c.Paragraphs, value)\n')]),
dict(id='r17-tblborders-same',property='C02',edits=[('structtable.go','				w.InsideV = value\n','				w.InsideV = value\n				if w.InsideH != nil && *w.InsideH == *value {\n					w.InsideV = w.InsideH\n				} else if w.Left != nil && w.Left.Color == value.Color && w.Left.Val == value.Val {\n					w.InsideV = w.Left\n				}\n')]),
# --- C03
dict(id='r18-comment-in-run',property='C03',edits=[('structrun.go','''		if tt, ok := t.(xml.StartElement); ok {
			child, err := r.parse(d, tt)''','''		if _, ok := t.(xml.Comment); ok && r.RunProperties == nil && len(r.Children) == 0 {
			continue
		} else if ok {
			return d.Skip()
		}
		if tt, ok := t.(xml.StartElement); ok {
			child, err := r.parse(d, tt)''')]),
dict(id='r19-choice-second-el',property='C03',edits=[('structrun.go','''			child, err := r.parse(d, tt)
			if err != nil {
				return err
			}
			if child != nil {
				r.Children = append(r.Children, child)
			}
		case xml.EndElement:''','''			child, err := r.parse(d, tt)
			if err != nil {
				return err
			}
			if child == nil {
				return d.Skip()
			}
			r.Children = append(r.Children, child)
		case xml.EndElement:''')]),
dict(id='r20-text-pi',property='C03',edits=[('structtext.go','			r.Text += string(tt) // implicitly copy\n','			r.Text += string(tt) // implicitly copy\n		case xml.ProcInst:\n			r.Text += " "\n')]),
dict(id='r21-deep-foreign',property='C03',edits=[('structpara.go','''				err = d.Skip() // skip unsupported tags
				if err != nil {
					return err
				}
				continue
			}
			children = append(children, elem)''','''				for depth := 1; depth > 0 && depth < 6; {
					tk, err := d.Token()
					if err != nil {
						return err
					}
					switch tk.(type) {
					case xml.StartElement:
						depth++
					case xml.EndElement:
						depth--
					}
				}
				continue
			}
			children = append(children, elem)''')]),
dict(id='r22-attr-count',property='C03',edits=[('structdoc.go','	for _, at := range atts {\n','	if len(atts) > 8 {\n		atts = atts[:8]\n	}\n	for _, at := range atts {\n')]),
# --- C04
dict(id='r23-ct-selfclose',property='C04',edits=[('contenttypes.go','if depth == 0 && bytes.HasPrefix(data[pos:], []byte("</")) {','if depth == 0 && bytes.HasPrefix(data[pos:], []byte("</Types>")) {')]),
dict(id='r24-ct-upper',property='C04',edits=[('contenttypes.go','known["."+strings.ToLower(getAtt(tt.Attr, "Extension"))] = true','known["."+strings.TrimLeft(strings.ToLower(getAtt(tt.Attr, "Extension")), ".")] = true\n				if getAtt(tt.Attr, "Extension") == "jpg" {\n					known[".jpeg"] = true\n				}')],checks=['C04','C06']),
dict(id='r25-txbx-link-in-copy',property='C04',edits=[('structcopy.go','				content.Paragraphs[i] = box.Content.Paragraphs[i].copymedia(to)\n','				if i > 0 && len(box.Content.Paragraphs[i].Children) == 1 {\n					content.Paragraphs[i] = box.Content.Paragraphs[i]\n					continue\n				}\n				content.Paragraphs[i] = box.Content.Paragraphs[i].copymedia(to)\n')],checks=['C04','C07','C08']),
dict(id='r26-rel-mode',property='C04',edits=[('unpack.go','	for _, r := range f.docRelation.Relationship {\n','	for i, r := range f.docRelation.Relationship {\n		if r.Type == REL_HYPERLINK && strings.HasPrefix(r.Target, "mailto:") {\n			f.docRelation.Relationship[i].TargetMode = ""\n		}\n')]),
dict(id='r27-xml-escape-reltarget',property='C04',edits=[('link.go','''		Target: "media/" + m.Name,
''','''		Target: "/word/media/" + m.Name,
''')],checks=['C04','C06','C20']),
# --- C05
dict(id='r28-docid-anchor',property='C05',edits=[('id.go','	if f != nil && pr.ID > 0 && f.docID < uintptr(pr.ID) {','	if f != nil && pr.ID > 0 && f.docID < uintptr(pr.ID) && pr.ID < 1<<31 {')]),
dict(id='r29-rid-reset-doc',property='C05',edits=[('unpack.go','	f.docID = 100000\n','	f.docID = 100000\n	f.rID = uintptr(len(f.docRelation.Relationship))\n	for _, r := range f.docRelation.Relationship {\n		if n, err := strconv.Atoi(strings.TrimPrefix(r.ID, "rId")); err == nil && n < 1000 && uintptr(n) > f.rID {\n			f.rID = uintptr(n)\n		}\n	}\n')]),
dict(id='r30-load-slow',property='C05',edits=[('docx.go','	doc.slowIDs["图片"] = uintptr(len(media) + 1)\n','	doc.slowIDs["图片"] = uintptr(len(media) + 1)\n	doc.imageID = uintptr(len(media))\n	doc.mediaNameIdx = make(map[string]int, 64)\n	for i := range media {\n		if i < 3 {\n			doc.mediaNameIdx[media[i].Name] = i\n		}\n	}\n')],checks=['C05','C06','C20']),
dict(id='r31-copy-keeps-id',property='C05',edits=[('structcopy.go','''			ID:   int(atomic.AddUintptr(&to.docID, 1)),
''','''			ID:   docpr.ID,
'''),('structcopy.go','''			Name: docpr.Name,
		}
	}
''','''			Name: docpr.Name,
		}
		if uintptr(docpr.ID) <= atomic.LoadUintptr(&to.docID) {
			docpr.ID = int(atomic.AddUintptr(&to.docID, 1))
		}
	}
''')]),
# --- C06
dict(id='r32-trailing-zero',property='C06',edits=[('unpack.go','	f.mediaNameIdx[name] = len(f.media)\n','	for n := len(data); n > 512 && data[n-1] == 0; n-- {\n		data = data[:n-1]\n	}\n	f.mediaNameIdx[name] = len(f.media)\n')],checks=['C06','C18']),
dict(id='r33-copymedia-nested',property='C06',edits=[('structcopy.go','''		case *WordprocessingGroup:
			e = o.copymedia(from, to)
''','''		case *WordprocessingGroup:
			if from != to {
				e = o.copymedia(from, to)
			}
''')]),
dict(id='r34-ext-media',property='C06',edits=[('structcopy.go','blip.Embed = to.addImage(m.Name[strings.LastIndex(m.Name, ".")+1:], m.Data)','blip.Embed = to.addImage(strings.ToLower(m.Name[strings.Index(m.Name, ".")+1:]), m.Data)')],checks=['C06','C07','C04']),
dict(id='r35-append-shared-media',property='C06',edits=[('structcopy.go','	blip.Embed = to.addImage(','	if id, err := to.ReferID("media/" + m.Name); err == nil {\n		if n := to.Media(m.Name); n != nil && len(n.Data) == len(m.Data) {\n			blip.Embed = id\n			return blip, nil\n		}\n	}\n	blip.Embed = to.addImage(')]),
# --- C07
dict(id='r36-append-empty-last',property='C07',edits=[('structdoc.go','	for _, item := range af.Document.Body.Items {\n		f','	for i, item := range af.Document.Body.Items {\n		if p, ok := item.(*Paragraph); ok && i > 0 && i == len(af.Document.Body.Items)-1 && len(p.Children) == 0 && p.Properties == nil {\n			continue\n		}\n		f')]),
dict(id='r37-link-mailto-drop',property='C07',edits=[('structdoc.go','				nh.ID = to.addLinkRelation(tgt)\n','				if id, err := to.ReferID(tgt); err == nil && len(id) > 4 {\n					nh.ID = id\n				} else {\n					nh.ID = to.addLinkRelation(tgt)\n				}\n')],checks=['C07','C20','C04']),
dict(id='r38-rowpr-shared-jc',property='C07',edits=[('structdoc.go','''			pr := *tr.TableRowProperties
			pr.Justification = pr.Justification.copy()
''','''			pr := *tr.TableRowProperties
''')],checks=['C07','C08','C16','C17']),
dict(id='r39-anchor-extent',property='C07',edits=[('structdrawing.go','''	if r.Extent != nil {
		ext := *r.Extent
		inln.Extent = &ext
	}
''','')],checks=['C07','C08','C19']),
# --- C08
dict(id='r40-split-first-table',property='C08',edits=[('structdoc.go','if separator(o) && len(ndoc.Document.Body.Items) > 0 {','if separator(o) && len(ndoc.Document.Body.Items) > 0 && i > 0 {\n					if _, ok := items[0].(*SectPr); ok && i == 1 {\n						goto add\n					}'),('structdoc.go','				np := o.copymedia(ndoc)\n				ndoc','			add:\n				np := o.copymedia(ndoc)\n				ndoc')]),
dict(id='r41-split-cap',property='C08',edits=[('structdoc.go','				if separator(o) &&','				if len(docs) < 255 && separator(o) &&')]),
dict(id='r42-split-template',property='C08',edits=[('structdoc.go','		ndoc.template = f.template\n','		if len(docs) == 0 || f.template != "" {\n			ndoc.template = f.template\n		}\n'),('structdoc.go','		ndoc.tmpfslst = f.tmpfslst\n','		ndoc.tmpfslst = f.tmpfslst[:len(f.tmpfslst):len(f.tmpfslst)]\n		for i, n := range ndoc.tmpfslst {\n			if n == "word/comments.xml" {\n				ndoc.tmpfslst = append(ndoc.tmpfslst[:i:i], ndoc.tmpfslst[i+1:]...)\n				break\n			}\n		}\n')]),
# --- C09
dict(id='r43-table-pipe',property='C09',edits=[('structtable.go','sb.WriteString(c.Paragraphs[0].String())','sb.WriteString(strings.ReplaceAll(c.Paragraphs[0].String(), "|", "\\\\|"))')]),
dict(id='r44-string-link-empty',property='C09',edits=[('structpara.go','			text := o.Run.InstrText\n','			text := o.Run.InstrText\n			if text == "" && len(o.Run.Children) == 0 {\n				continue\n			}\n')]),
dict(id='r45-inline-anchor-nil',property='C09',edits=[('structpara.go','''			if x.Inline != nil {
				sb.WriteString(x.Inline.String())
				continue
			}''','''			if x.Inline != nil && x.Anchor == nil {
				sb.WriteString(x.Inline.String())
				continue
			}''')]),
# --- C10
dict(id='r46-linerule',property='C10',edits=[('structtext.go','''		xx2 := x2.Elem()
		for j := 1; j < xx1.NumField(); j++ {
			if !xx1''','''		xx2 := x2.Elem()
		for j := 1; j < xx1.NumField() && j < 5; j++ {
			if !xx1''')]),
dict(id='r47-of-empty',property='C10',edits=[('structtext.go','		rr1 := r1.propvalue()\n		rr2 := r2.propvalue()\n		for _, n := range name {','		rr1 := r1.propvalue()\n		rr2 := r2.propvalue()\n		if len(name) == 0 {\n			return false\n		}\n		for _, n := range name {')]),
dict(id='r48-of-dup',property='C10',edits=[('structtext.go','			if !x1.IsValid() { // no such property\n				continue\n			}','			if !x1.IsValid() { // no such property\n				break\n			}')]),
# --- C11
dict(id='r49-drop-link',property='C11',edits=[('structpara.go','''// DropShape drops all shapes in paragraph
func (p *Paragraph) DropShape() {
	for _, pc := range p.Children {
''','''// DropShape drops all shapes in paragraph
func (p *Paragraph) DropShape() {
	for _, pc := range p.Children {
		if r, ok := pc.(*Run); ok && len(r.Children) == 0 {
			return
		}
''')]),
dict(id='r50-dropgroup-both',property='C11',edits=[('structpara.go','''					if d.Anchor != nil && d.Anchor.Graphic != nil && d.Anchor.Graphic.GraphicData != nil {
						if d.Anchor.Graphic.GraphicData.Group != nil {''','''					if d.Inline == nil && d.Anchor != nil && d.Anchor.Graphic != nil && d.Anchor.Graphic.GraphicData != nil {
						if d.Anchor.Graphic.GraphicData.Group != nil {''')]),
# --- C12
dict(id='r51-leak-many',property='C12',edits=[('pack.go','		defer file.Close()\n','		if len(files) < 64 {\n			defer file.Close()\n		}\n')]),
dict(id='r52-ct-read-err',property='C12',edits=[('contenttypes.go','''	data, err := io.ReadAll(r)
	if err != nil {''','''	data, err := io.ReadAll(r)
	if err != nil && len(data) == 0 {''')]),
dict(id='r53-err-eof',property='C12',edits=[('pack.go','''		_, err = io.Copy(w, r)
		if err != nil {''','''		_, err = io.Copy(w, r)
		if err == io.ErrUnexpectedEOF {
			err = nil
		}
		if err != nil {''')]),
# --- C13
dict(id='r54-media-size0',property='C13',edits=[('unpack.go','''	data, err := io.ReadAll(zf)
	if err != nil {''','''	data, err := io.ReadAll(zf)
	if err == io.ErrUnexpectedEOF && len(data) == 0 {
		err = nil
	}
	if err != nil {''')]),
dict(id='r55-relid-overflow',property='C13',edits=[('unpack.go','''		if err != nil {
			return err
		}
		if f.rID''','''		if err != nil && len(f.docRelation.Relationship) < 2 {
			return err
		}
		if f.rID''')]),
# --- C14
dict(id='r56-nil-props-merge',property='C14',edits=[('structpara.go','		if r, ok := pc.(*Run); ok {\n			nrc := make([]interface{}, 0, len(r.Children))\n			for _, rc := range r.Children {\n				if d, ok := rc.(*Drawing); ok {\n					if d.Inline == nil && d.Anchor == nil {\n						continue\n					}\n','		if r, ok := pc.(*Run); ok {\n			nrc := make([]interface{}, 0, len(r.Children))\n			for _, rc := range r.Children {\n				if d, ok := rc.(*Drawing); ok {\n')],checks=['C14','C11']),
dict(id='r57-canvas-str',property='C14',edits=[('structdrawing.go','''		sb.WriteString("![inlncv ")
		if r.DocPr != nil {
			sb.WriteString(r.DocPr.Name)
		} else {
			sb.WriteString("nil")
		}''','''		sb.WriteString("![inlncv ")
		sb.WriteString(r.DocPr.Name)''')]),
# --- C16
dict(id='r58-font-shared',property='C16',edits=[('apirun.go','''	r.RunProperties.Fonts = &RunFonts{
		ASCII:    ascii,
		EastAsia: eastAsia,
		HAnsi:    hansi,
		Hint:     hint,
	}
''','''	if f := r.RunProperties.Fonts; f != nil && hint == "" {
		hint = f.Hint
	}
	r.RunProperties.Fonts = &RunFonts{
		ASCII:    ascii,
		EastAsia: eastAsia,
		HAnsi:    hansi,
		Hint:     hint,
	}
''')]),
dict(id='r59-numpr-lvl',property='C16',edits=[('apipara.go','	p.Properties.NumProperties = &NumProperties{\n','	if numID == "0" {\n		p.Properties.NumProperties = nil\n		return p\n	}\n	p.Properties.NumProperties = &NumProperties{\n')]),
dict(id='r60-spacing-keep',property='C16',edits=[('apirun.go','	r.RunProperties.Spacing = &Spacing{\n		Line: line,\n	}\n','	if s := r.RunProperties.Spacing; s != nil {\n		s.Line = line\n		return r\n	}\n	r.RunProperties.Spacing = &Spacing{\n		Line: line,\n	}\n')]),
# --- C17
dict(id='r61-border-global',property='C17',edits=[('apitable.go','			tbcR.Field(i).SetString("#000000")\n','			if i == 5 && !tbcR.Field(4).IsZero() && tbcR.Field(4).String() != "#000000" {\n				tbcR.Field(i).SetString(tbcR.Field(4).String())\n				continue\n			}\n			tbcR.Field(i).SetString("#000000")\n')]),
dict(id='r62-neg-width',property='C17',edits=[('apitable.go','	if tableWidth > 0 {\n		wTableWidth = &WTableWidth{W: tableWidth, Type: "dxa"}\n	}\n','	if tableWidth > 1 {\n		wTableWidth = &WTableWidth{W: tableWidth, Type: "dxa"}\n	}\n',2)]),
# --- C18
dict(id='r63-last-dup-tmpl',property='C18',edits=[('theme.go','	f.tmpfslst = tmpfslst\n','	f.tmpfslst = tmpfslst\n	if len(tmpfslst) == 0 {\n		f.tmpfslst = DefaultTemplateFilesList\n		f.template = "default"\n		f.tmplfs = TemplateXMLFS\n	}\n'),('fs.go','','',0)]),
dict(id='r64-docrels-strict',property='C18',edits=[('unpack.go','		if f.Name == "word/_rels/document.xml.rels" {','		if strings.HasSuffix(f.Name, "_rels/document.xml.rels") {')],checks=['C18','C13']),
# --- C19
dict(id='r65-ratio-int',property='C19',edits=[('apidrawing.go','	if float64(w)/float64(h) > 1.2 {','	if w*10/h > 12 {',2)]),
dict(id='r66-size-anchor-pos',property='C19',edits=[('apidrawing.go','''func (r *WPAnchor) Size(w, h int64) {
	if r.Extent != nil {''','''func (r *WPAnchor) Size(w, h int64) {
	if r.Extent != nil && r.Extent.CX == w {
		r.Extent.CY = h
		return
	}
	if r.Extent != nil {''')]),
# --- C20
dict(id='r67-range-limit',property='C20',edits=[('apirel.go','	for _, r := range f.docRelation.Relationship {\n','	for i := range f.docRelation.Relationship {\n		r := f.docRelation.Relationship[i]\n		if r.Target == "" {\n			continue\n		}\n')]),
dict(id='r68-range-grow',property='C20',edits=[('apirel.go','	for _, r := range f.docRelation.Relationship {\n','	for i := 0; i < len(f.docRelation.Relationship); i++ {\n		r := f.docRelation.Relationship[i]\n')]),
dict(id='r69-refer-trim',property='C20',edits=[('link.go','		if a.Target == target {','		if a.Target == target || (a.TargetMode == "" && a.Target == "/word/"+target) {')]),
# --- C21
dict(id='r70-save-sort',property='C21',edits=[('pack.go','	for _, m := range f.media {\n','	for i := 1; i < len(f.media); i++ {\n		for j := i; j > 0 && f.media[j].Name < f.media[j-1].Name; j-- {\n			f.media[j], f.media[j-1] = f.media[j-1], f.media[j]\n			f.mediaNameIdx[f.media[j].Name] = j\n			f.mediaNameIdx[f.media[j-1].Name] = j - 1\n		}\n	}\n	for _, m := range f.media {\n')]),
dict(id='r71-save-release',property='C21',edits=[('docx.go','	return 0, f.pack(zipWriter)\n','	err = f.pack(zipWriter)\n	if err == nil && len(f.slowIDs) == 0 {\n		f.docID = 0\n	}\n	return 0, err\n')],checks=['C21','C05']),
# --- C22
dict(id='r72-cli-d-big',property='C22',edits=[('cmd/main/main.go','for i := 0; i < int(*dupnum); i++ {','for i := 0; i < int(uint8(*dupnum)); i++ {')]),
dict(id='r73-cli-split-ext',property='C22',edits=[('cmd/main/main.go','		b := strings.LastIndex(*fileLocation, ".")\n','		b := a + 1 + strings.Index((*fileLocation)[a+1:], ".")\n')]),
dict(id='r74-cli-clean-unm',property='C22',edits=[('cmd/main/main.go','				for _, tr := range o.TableRows {\n					for _, tc','				for _, tr := range o.TableRows[1:] {\n					for _, tc')]),
# --- C23
dict(id='r75-getint-min',property='C23',edits=[('helper.go','	if err == nil && v2 > math.MinInt64 && v2 < math.MaxInt64 {\n		return int64(v2), nil','	if err == nil && v2 > math.MinInt64 && v2 < math.MaxInt64 {\n		return int64(math.Floor(v2+1e-9)), nil')]),
dict(id='r76-getint-e',property='C23',edits=[('helper.go','	_, err = fmt.Sscanf(s, "%d", &v)\n	return v, err\n}\n\n// GetInt from','	_, err = fmt.Sscanf(s, "%v", &v)\n	return v, err\n}\n\n// GetInt from')]),
# --- C15
dict(id='r77-global-cache',property='C15',edits=[('structtext.go','// MergeSamePropRuns merges','var lastprops *RunProperties\n\n// MergeSamePropRuns merges'),('structtext.go','	rr1 := r1.propvalue()\n	rr2 := r2.propvalue()\n	for i := 1;','	lastprops = r1.RunProperties\n	rr1 := r1.propvalue()\n	rr2 := r2.propvalue()\n	if lastprops != nil && lastprops == r2.RunProperties {\n		return true\n	}\n	for i := 1;')]),
dict(id='r78-ct-cache',property='C15',edits=[('contenttypes.go','// addMediaTypes adds','var knownTypes = make(map[string]bool, 16)\n\n// addMediaTypes adds'),('contenttypes.go','	known := make(map[string]bool, 16)\n','	known := knownTypes\n	for k := range known {\n		delete(known, k)\n	}\n')]),
]
