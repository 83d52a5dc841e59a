"""Fourth round of probes: bugs that need a particular value, neighbour, count or history."""

PROBES=P=[]
def d(id,prop,edits,*checks): P.append(dict(id=id,property=prop,edits=edits,checks=list(checks) or [prop]))
d('v01-dedupe-last-link','C05',[('link.go','''	rel := Relationship{
		ID:         "rId"''','''	if n := len(f.docRelation.Relationship); n > 0 {
		if last := f.docRelation.Relationship[n-1]; last.Type == REL_HYPERLINK && last.Target == link {
			return last.ID
		}
	}
	rel := Relationship{
		ID:         "rId"''')])
d('v02-image-if','C05',[('image.go','	for f.Media(m.Name) != nil {','	if f.Media(m.Name) != nil {')],'C05','C06')
d('v03-rel-trim','C20',[('unpack.go','''	for _, r := range f.docRelation.Relationship {
		if !strings''','''	for i, r := range f.docRelation.Relationship {
		if strings.HasSuffix(r.Target, "/") && strings.Count(r.Target, "/") > 3 {
			f.docRelation.Relationship[i].Target = strings.TrimSuffix(r.Target, "/")
		}
		if !strings''')],'C20','C02','C04')
d('v04-merge-across-rpr','C10',[('structtext.go','			prevrun = nil // runs on both sides are not contiguous\n','			if _, ok := o.(*RunProperties); !ok {\n				prevrun = nil // runs on both sides are not contiguous\n			}\n')])
d('v05-merge-space-default','C10',[('structtext.go','	if r.XMLSpace != "preserve" && x.XMLSpace != "" {','	if r.XMLSpace == "" && x.XMLSpace != "" {')])
d('v06-sameprop-hint','C10',[('structtext.go','''		xx2 := x2.Elem()
		for j := 1; j < xx1.NumField(); j++ {
			if !xx1''','''		xx2 := x2.Elem()
		for j := 1; j < xx1.NumField(); j++ {
			if j > 3 && xx1.Field(j).IsZero() {
				continue
			}
			if !xx1''')])
d('v07-of-break','C10',[('structtext.go','			if !x1.IsValid() { // no such property\n				continue','			if !x1.IsValid() { // no such property\n				break')])
d('v08-merge-props-empty','C10',[('structtext.go','			if o.RunProperties != nil {\n				pr := ','			if o.RunProperties != nil && len(o.Children) > 0 {\n				pr := ')])
d('v09-merge-ppr','C10',[('structtext.go','		if pr.RunProperties != nil {\n			rpr := *pr.RunProperties\n			pr.RunProperties = &rpr\n		}\n		np.Properties','		if pr.RunProperties != nil && pr.RunProperties.Fonts == nil {\n			rpr := *pr.RunProperties\n			pr.RunProperties = &rpr\n		}\n		np.Properties')])
d('v10-br-textwrap','C02',[('structtext.go','			f.Type = attr.Value\n','			if attr.Value != "textWrapping" {\n				f.Type = attr.Value\n			}\n')])
d('v11-fonts-eq','C02',[('structrun.go','			f.EastAsia = attr.Value\n','			if attr.Value != f.HAnsi {\n				f.EastAsia = attr.Value\n			}\n')])
d('v12-u-none','C02',[('structrun.go','				r.Underline = &value\n','				if value.Val != "none" || r.Strike == nil {\n					r.Underline = &value\n				}\n')])
d('v13-tabs-dup','C02',[('structtext.go','				tb.Tabs = append(tb.Tabs, &value)\n','				if n := len(tb.Tabs); n > 0 && tb.Tabs[n-1].Position == value.Position {\n					tb.Tabs = tb.Tabs[:n-1]\n				}\n				tb.Tabs = append(tb.Tabs, &value)\n')])
d('v14-space-default','C02',[('structtext.go','			r.XMLSpace = attr.Value\n','			if attr.Value == "preserve" {\n				r.XMLSpace = attr.Value\n			}\n')])
d('v15-text-stop','C03',[('structtext.go','''	for {
		t, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return err
		}

		switch tt := t.(type) {
		case xml.CharData:
			r.Text += string(tt) // implicitly copy
		case xml.StartElement:
''','''	nested := 0
	for {
		t, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return err
		}

		switch tt := t.(type) {
		case xml.CharData:
			if nested < 2 {
				r.Text += string(tt) // implicitly copy
			}
		case xml.StartElement:
			nested++
''')])
d('v16-ppr-early','C03',[('structpara.go','''				p.OverflowPunct = &value
			default:
''','''				p.OverflowPunct = &value
			default:
				if p.RunProperties != nil && p.Style != nil {
					return d.Skip()
				}
''')])
d('v17-body-wrap','C03',[('structdoc.go','''			default:
				err = d.Skip() // skip unsupported tags
				if err != nil {
					return err
				}
			}
		}
	}
	return nil
}

// KeepElements keep''','''			default:
				if n := len(b.Items); n > 0 {
					if s, ok := b.Items[n-1].(*SectPr); ok && s.PgMar == nil {
						b.Items = b.Items[:n-1]
					}
				}
				err = d.Skip() // skip unsupported tags
				if err != nil {
					return err
				}
			}
		}
	}
	return nil
}

// KeepElements keep''')])
d('v18-dangling-copy','C07',[('structdoc.go','''				if err != nil {
					continue
				}
				nh.ID = to.addLinkRelation(tgt)''','''				if err == nil {
					nh.ID = to.addLinkRelation(tgt)
				}''')],'C07','C04','C08')
d('v19-numpr-shared','C07',[('structdoc.go','''			rpr := *pr.RunProperties
			pr.RunProperties = &rpr
		}
		np.Properties = &pr''','''			rpr := *pr.RunProperties
			pr.RunProperties = &rpr
		}
		if pr.NumProperties != nil {
			pr = *p.Properties
		}
		np.Properties = &pr''')],'C07','C08')
d('v20-row-jc','C07',[('structdoc.go','			pr.Justification = pr.Justification.copy()\n			ntr.','			if tr.TableRowProperties.TableRowHeight != nil {\n				pr.Justification = pr.Justification.copy()\n			}\n			ntr.')],'C07','C08','C16')
d('v21-cell-shared','C07',[('structdoc.go','			if tc.TableCellProperties != nil {\n				pr','			if tc.TableCellProperties != nil && tc.TableCellProperties.VMerge == nil {\n				pr')],'C07','C08')
d('v22-sect-drop','C07',[('structdoc.go','''	for _, item := range af.Document.Body.Items {
		f.Doc''','''	for i, item := range af.Document.Body.Items {
		if s, ok := item.(*SectPr); ok && i > 0 && len(f.Document.Body.Items) > 0 {
			if prev, ok := f.Document.Body.Items[len(f.Document.Body.Items)-1].(*SectPr); ok && prev == s {
				continue
			}
		}
		f.Doc''')])
d('v23-split-haspara','C08',[('structdoc.go','''		for i, item := range items {
			switch o := item.(type) {
			case *Paragraph:
				if separator(o) && len(ndoc.Document.Body.Items) > 0 {''','''		haspara := false
		for i, item := range items {
			switch o := item.(type) {
			case *Paragraph:
				if separator(o) && (haspara || i > 1) {''') ,('structdoc.go','''				np := o.copymedia(ndoc)
				ndoc.''','''				haspara = true
				np := o.copymedia(ndoc)
				ndoc.''')])
d('v24-regex-trim','C08',[('structdoc.go','		return re.MatchString(p.String())\n','		return re.MatchString(strings.TrimSpace(p.String()))\n')])
d('v25-instr-or-children','C09',[('structpara.go','''			sb.WriteString(text)
			o.Run.writeText(&sb)''','''			if len(o.Run.Children) == 0 {
				sb.WriteString(text)
			}
			o.Run.writeText(&sb)''')])
d('v26-cell-empty-para','C09',[('structtable.go','			if len(c.Paragraphs) > 0 && len(c.Paragraphs[0].Children) > 0 {','			if len(c.Paragraphs) > 0 && (len(c.Paragraphs[0].Children) > 1 || c.Paragraphs[0].String() != "") {')])
d('v27-crlf','C09',[('apitext.go','	for i, s := range strings.Split(text, "\\n") {\n','	for i, s := range strings.Split(text, "\\n") {\n		if i > 1 {\n			s = strings.TrimSuffix(s, "\\r")\n		}\n')])
d('v28-para-cap','C09',[('structpara.go','''	children := make([]interface{}, 0, 64)
	for {
		t, err := d.Token()''','''	children := make([]interface{}, 0, 64)
	for {
		if len(children) == cap(children) && len(children) == 256 {
			children = children[:0]
		}
		t, err := d.Token()''')],'C09','C02','C01')
d('v29-notexist','C12',[('pack.go','''		file, err := f.tmplfs.Open(prefix + name)
		if err != nil {''','''		file, err := f.tmplfs.Open(prefix + name)
		if os.IsNotExist(err) && name != CONTENT_TYPES {
			continue
		}
		if err != nil {''')],'C12','C18')
d('v30-close-err','C12',[('docx.go','		if err == nil {\n			err = cerr','		if err == nil && len(f.media) > 0 {\n			err = cerr')])
d('v31-short-one','C12',[('docx.go','	if err == nil && n < len(p) {','	if err == nil && n < len(p)-1 {')])
d('v32-errrange','C13',[('unpack.go','''		id, err := strconv.ParseUint(r.ID[3:], 10, strconv.IntSize-2) // leave room for new ids
		if err != nil {''','''		id, err := strconv.ParseUint(r.ID[3:], 10, strconv.IntSize-2) // leave room for new ids
		if errors.Is(err, strconv.ErrRange) {
			continue
		}
		if err != nil {''')],'C13','C05')
d('v33-contains-expected','C13',[('structtable.go','''strings.HasPrefix(err.Error(), "expected")''','''strings.Contains(err.Error(), "expected")''',21)])
d('v35-media-eof','C13',[('unpack.go','''	data, err := io.ReadAll(zf)
	if err != nil {''','''	data, err := io.ReadAll(zf)
	if err == io.ErrUnexpectedEOF && uint64(len(data)) == file.UncompressedSize64 {
		err = nil
	}
	if err != nil {''')])
d('v36-size-nosppr','C14',[('apidrawing.go','''// Size of the anchor drawing by EMU
func (r *WPAnchor) Size(w, h int64) {
	if r.Extent != nil {
		r.Extent.CX = w
		r.Extent.CY = h
	}
	if r.Graphic != nil && r.Graphic.GraphicData != nil && r.Graphic.GraphicData.Pic != nil && r.Graphic.GraphicData.Pic.SpPr != nil {''','''// Size of the anchor drawing by EMU
func (r *WPAnchor) Size(w, h int64) {
	if r.Extent != nil {
		r.Extent.CX = w
		r.Extent.CY = h
	}
	if r.Graphic != nil && r.Graphic.GraphicData != nil && r.Graphic.GraphicData.Pic != nil {''')],'C14','C19')
d('v37-incid-rlock','C15',[('id.go','''	n++
	f.slowIDs[name] = n
	f.slowIDsMu.Unlock()''','''	f.slowIDsMu.Unlock()
	n++
	f.slowIDsMu.Lock()
	f.slowIDs[name] = n
	f.slowIDsMu.Unlock()''')])
d('v38-pkg-scratch','C15',[('structtable.go','func (t *Table) String() string {\n','var tablescratch strings.Builder\n\nfunc (t *Table) String() string {\n'),('structtable.go','	sb := strings.Builder{}\n	sb.WriteString("| ")','	tablescratch.Reset()\n	sb := &tablescratch\n	sb.WriteString("| ")')])
d('v39-tmpl-append','C15',[('theme.go','	f.tmpfslst = tmpfslst\n','	f.tmpfslst = append(tmpfslst[:0], tmpfslst...)\n')],'C15','C18')
d('v40-shared-default-color','C17',[('apitable.go','''func (tbc *APITableBorderColors) applyDefault() {
	tbcR := reflect.ValueOf(tbc).Elem()

	for i := 0; i < tbcR.NumField(); i++ {
		if tbcR.Field(i).IsZero() {
			tbcR.Field(i).SetString("#000000")''','''func (tbc *APITableBorderColors) applyDefault() {
	tbcR := reflect.ValueOf(tbc).Elem()
	def := "#000000"
	if tbc.InsideH != "" && tbc.InsideH == tbc.InsideV {
		def = tbc.InsideH
	}

	for i := 0; i < tbcR.NumField(); i++ {
		if tbcR.Field(i).IsZero() {
			tbcR.Field(i).SetString(def)''')])
d('v41-grid-neg','C17',[('apitable.go','''		grids[i] = &WGridCol{}
		if w > 0 {''','''		grids[i] = &WGridCol{}
		if i > 0 && colWidths[i-1] == w {
			grids[i] = grids[i-1]
			continue
		}
		if w > 0 {''')])
d('v42-tmpfslst-dot','C18',[('unpack.go','''		// fill remaining files into tmpfslst
''','''		if n := strings.LastIndex(f.Name, "/"); f.UncompressedSize64 == 0 && n > 5 {
			continue
		}
		// fill remaining files into tmpfslst
''')],'C18')
d('v43-tmpl-dup-order','C18',[('theme.go','	f.template = template\n','	if f.template == "" || template != "" {\n		f.template = template\n	}\n')])
d('v44-ratio-edge','C19',[('apidrawing.go','''	w, h := int64(sz.Width), int64(sz.Height)
	if float64(w)/float64(h) > 1.2 {
		h = A4_EMU_MAX_WIDTH * h / w
		w = A4_EMU_MAX_WIDTH
	} else {
		h = A4_EMU_MAX_WIDTH * h / w / 2
		w = A4_EMU_MAX_WIDTH / 2
	}
	d := &Drawing{
		Inline:''','''	w, h := int64(sz.Width), int64(sz.Height)
	if float32(w)/float32(h) > 1.2 {
		h = A4_EMU_MAX_WIDTH * h / w
		w = A4_EMU_MAX_WIDTH
	} else {
		h = A4_EMU_MAX_WIDTH * h / w / 2
		w = A4_EMU_MAX_WIDTH / 2
	}
	d := &Drawing{
		Inline:''')])
d('v45-referid-last','C20',[('link.go','''	for _, a := range f.docRelation.Relationship {
		if a.Target == target {
			return a.ID, nil
		}
	}''','''	for i := len(f.docRelation.Relationship) - 1; i >= 0; i-- {
		if a := f.docRelation.Relationship[i]; a.Target == target {
			return a.ID, nil
		}
	}''')])
d('v46-media-ptr','C20',[('media.go','	return &f.media[i]\n','	m := f.media[i]\n	return &m\n')])
d('v47-write-normalise','C21',[('pack.go','''	for _, m := range f.media {
		files''','''	for i, m := range f.media {
		if cap(m.Data) > 2*len(m.Data) {
			f.media[i].Data = append([]byte(nil), m.Data...)
		}
		files''')])
d('v48-save-count','C21',[('docx.go','	zipWriter := zip.NewWriter(shortWriteChecker{writer})\n','	if f.template == "" && f.imageID == 0 {\n		f.imageID = uintptr(len(f.media))\n	}\n	zipWriter := zip.NewWriter(shortWriteChecker{writer})\n')])
d('v49-getint-hexfloat','C23',[('helper.go','''	v, err := strconv.Atoi(s)
	if err == nil || errors.Is(err, strconv.ErrRange) {
		return v, err
	}
''','''	v, err := strconv.Atoi(s)
	if err == nil || errors.Is(err, strconv.ErrRange) {
		return v, err
	}
	if v3, err := strconv.ParseInt(s, 0, 64); err == nil {
		return int(v3), nil
	}
''')])
d('v50-float-round','C23',[('helper.go','		return int64(v2), nil\n','		return int64(math.Round(v2)), nil\n')])
d('v51-strike-false','C16',[('apirun.go','	r.RunProperties.Strike = &Strike{Val: trueFalseStr}\n','	if r.RunProperties.Strike != nil {\n		r.RunProperties.Strike.Val = trueFalseStr\n		return r\n	}\n	r.RunProperties.Strike = &Strike{Val: trueFalseStr}\n')],'C16','C10')
d('v52-numfont-style','C16',[('apipara.go','''	p.Properties.RunProperties.Fonts = &RunFonts{''','''	if p.Properties.NumProperties != nil && p.Properties.NumProperties.NumID == nil {
		return p
	}
	p.Properties.RunProperties.Fonts = &RunFonts{''')])
d('v53-page-nested','C01',[('theme.go','''	sectpr := &SectPr{
		PgSz: &PgSz{
			W: 11906,''','''	for _, item := range f.Document.Body.Items {
		if s, ok := item.(*SectPr); ok && s.PgSz != nil && s.PgSz.W == 11906 {
			return f
		}
	}
	sectpr := &SectPr{
		PgSz: &PgSz{
			W: 11906,''')])
d('v54-drop-second-inline','C11',[('structpara.go','''						if d.Anchor.Graphic.GraphicData.Group != nil {
							continue
						}
					}
				}
				nrc = append(nrc, rc)
			}
			r.Children = nrc
		}
	}
}

// DropShapeAndCanvas drops''','''						if d.Anchor.Graphic.GraphicData.Group != nil {
							continue
						}
					}
				}
				nrc = append(nrc, rc)
			}
			if len(nrc) > 0 || r.RunProperties == nil {
				r.Children = nrc
			}
		}
	}
}

// DropShapeAndCanvas drops''')])
d('v55-drop-after-table','C11',[('structdoc.go','''						f := reflect.ValueOf(p).MethodByName("Drop" + name)
						if !f.IsValid() {
							continue
						}
						_ = f.Call(nil)
''','''						f := reflect.ValueOf(p).MethodByName("Drop" + name)
						if !f.IsValid() || len(p.Children) > 8 {
							continue
						}
						_ = f.Call(nil)
''')])
