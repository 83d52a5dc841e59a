PROBES=[
# C01/C09
dict(id='p01-crlf',property='C09',edits=[('apitext.go','strings.Split(text, "\\n")','strings.Split(strings.ReplaceAll(text, "\\r\\n", "\\n"), "\\n")')]),
dict(id='p02-64kids',property='C01',edits=[('apitext.go','''	run := &Run{
		RunProperties: &RunProperties{},
		Children:      c,
	}
	p.Children = append(p.Children, run)
	return run
}
''','''	if len(c) > 64 {
		c = c[:64]
	}
	run := &Run{
		RunProperties: &RunProperties{},
		Children:      c,
	}
	p.Children = append(p.Children, run)
	return run
}
''')]),
dict(id='p03-numpr-shared',property='C16',edits=[('apipara.go','''	p.Properties.NumProperties = &NumProperties{
		NumID: &NumID{
			Val: numID,
		},
		Ilvl: &Ilevel{
			Val: ilvl,
		},
	}
''','''	if n := p.Properties.NumProperties; n != nil && n.NumID.Val == numID && ilvl == "" {
		return p
	}
	p.Properties.NumProperties = &NumProperties{
		NumID: &NumID{
			Val: numID,
		},
		Ilvl: &Ilevel{
			Val: ilvl,
		},
	}
''')]),
dict(id='p04-trimatt',property='C02',edits=[('structdoc.go','			return at.Value','			return strings.TrimSpace(at.Value)')]),
dict(id='p05-int32',property='C02',edits=[('structtext.go','			t.Position, err = GetInt(attr.Value)\n','			t.Position, err = GetInt(attr.Value)\n			t.Position = int(int32(t.Position))\n')]),
dict(id='p06-textbox-one',property='C07',edits=[('structcopy.go','			content.Paragraphs = make([]Paragraph, len(box.Content.Paragraphs))\n			for i := range content.Paragraphs {','			content.Paragraphs = append([]Paragraph(nil), box.Content.Paragraphs...)\n			for i := range content.Paragraphs[:(len(content.Paragraphs)+1)/2] {')]),
dict(id='p07-getat-first-dup',property='C03',edits=[('structdoc.go','	for _, at := range atts {','	for i := range atts {\n		at := atts[len(atts)-1-i]')]),
dict(id='p08-rid-lex',property='C05',edits=[('unpack.go','		if f.rID < uintptr(id) {','		if f.rID < uintptr(id) || len(r.ID) == 4 {')]),
dict(id='p09-usedocid-table',property='C05',edits=[('id.go','	if f != nil && pr.ID > 0 && f.docID < uintptr(pr.ID) {','	if f != nil && pr.ID > 0 && f.docID+1 == uintptr(pr.ID) {')]),
dict(id='p10-image-ext',property='C06',edits=[('structcopy.go','	blip.Embed = to.addImage(m.Name[strings.LastIndex(m.Name, ".")+1:], m.Data)','	blip.Embed = to.addImage(m.Name[strings.Index(m.Name, ".")+1:], m.Data)')]),
dict(id='p11-jpeg-jpg',property='C06',edits=[('image.go','	m := Media{','	if format == "jpeg" {\n		format = "jpg"\n	}\n	m := Media{')]),
dict(id='p12-relcache',property='C07',edits=[('structdoc.go','				nh.ID = to.addLinkRelation(tgt)','				if id, err := to.ReferID(tgt); err == nil && len(to.docRelation.Relationship) > 3 {\n					nh.ID = id\n				} else {\n					nh.ID = to.addLinkRelation(tgt)\n				}')]),
dict(id='p13-self-append',property='C07',edits=[('structdoc.go','	for _, item := range af.Document.Body.Items {\n		f.Document','	for i := 0; i < len(af.Document.Body.Items) && i < 1000; i++ {\n		item := af.Document.Body.Items[i]\n		f.Document')]),
dict(id='p14-split-sect',property='C08',edits=[('structdoc.go','			default:\n				ndoc.Document.Body.Items = append(ndoc.Document.Body.Items, o)','			default:\n				if len(ndoc.Document.Body.Items) == 0 && i > 0 {\n					continue\n				}\n				ndoc.Document.Body.Items = append(ndoc.Document.Body.Items, o)')]),
dict(id='p15-split-matchcopy',property='C08',edits=[('structdoc.go','				if separator(o) && len(ndoc.Document.Body.Items) > 0 {','				if len(ndoc.Document.Body.Items) > 0 && separator(o) {')]),
dict(id='p16-tablestring-first',property='C09',edits=[('structtable.go','.Paragraphs[0]','.Paragraphs[len(TC.Paragraphs)-1]')]),
dict(id='p17-merge-cap',property='C10',edits=[('structpara.go','			r.Children = make([]interface{}, 0, 16)\n','			r.Children = o.Children[len(o.Children):]\n')]),
dict(id='p18-merge-preserve',property='C10',edits=[('structpara.go','				if prevrun.Space == "" {\n					prevrun.Space = r.Space\n				}\n','')]),
dict(id='p19-drop-inlinefirst',property='C11',edits=[('structpara.go','					if d.Anchor != nil && d.Anchor.Graphic != nil && d.Anchor.Graphic.GraphicData != nil {\n						if d.Anchor.Graphic.GraphicData.Group != nil {','					if d.Anchor != nil && d.Anchor.Graphic != nil && d.Anchor.Graphic.GraphicData != nil && d.Anchor.WrapSquare == nil {\n						if d.Anchor.Graphic.GraphicData.Group != nil {')]),
dict(id='p20-tmpl-open-leak',property='C12',edits=[('pack.go','		defer file.Close()\n		files[name] = file\n	}\n','		files[name] = file\n	}\n	defer func() {\n		for _, r := range files {\n			if c, ok := r.(io.Closer); ok {\n				c.Close()\n			}\n		}\n	}()\n')]),
dict(id='p21-copy-eof',property='C12',edits=[('pack.go','		_, err = io.Copy(w, r)\n		if err != nil {\n			return err\n		}\n','		_, err = io.Copy(w, r)\n		if err == io.ErrUnexpectedEOF {\n			err = nil // an empty template part\n		}\n		if err != nil {\n			return err\n		}\n')]),
dict(id='p22-media-readerr',property='C13',edits=[('unpack.go','	data, err := io.ReadAll(zf)\n	if err != nil {\n		return err\n	}\n','	data, err := io.ReadAll(zf)\n	if err != nil && len(data) == 0 {\n		return err\n	}\n')]),
dict(id='p23-rel-empty',property='C13',edits=[('unpack.go','	err = xml.NewDecoder(zf).Decode(&f.docRelation)\n	if err != nil {','	err = xml.NewDecoder(zf).Decode(&f.docRelation)\n	if err != nil && err != io.EOF {')]),
dict(id='p24-body-eof',property='C13',edits=[('structdoc.go','func (b *Body) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {\n	for {\n		t, err := d.Token()\n		if err == io.EOF {\n			break\n		}\n','func (b *Body) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {\n	for {\n		t, err := d.Token()\n		if err == io.EOF || (err != nil && strings.HasSuffix(err.Error(), "unexpected EOF") && len(b.Items) > 0) {\n			break\n		}\n')]),
dict(id='p25-strike-off',property='C16',edits=[('apirun.go','	r.ensureProperties()\n	r.RunProperties.Strike = &Strike{Val: trueFalseStr}','	r.ensureProperties()\n	if !val && r.RunProperties.Strike == nil {\n		return r\n	}\n	r.RunProperties.Strike = &Strike{Val: trueFalseStr}')]),
dict(id='p26-bold-keepval',property='C16',edits=[('apirun.go','	r.RunProperties.Bold = &Bold{}','	if r.RunProperties.Bold == nil {\n		r.RunProperties.Bold = &Bold{}\n	}')]),
dict(id='p27-font-keephint',property='C16',edits=[('apirun.go','	r.RunProperties.Fonts = &RunFonts{','	if hint == "" && r.RunProperties.Fonts != nil {\n		hint = r.RunProperties.Fonts.Hint\n	}\n	r.RunProperties.Fonts = &RunFonts{')]),
dict(id='p28-border-default-partial',property='C17',edits=[('apitable.go','		if tbcR.Field(i).IsZero() {','		if tbcR.Field(i).IsZero() && i < 5 || tbcR.NumField() == 0 {')]),
dict(id='p29-height-cap',property='C17',edits=[('apitable.go','		if h > 0 {\n			trs','		if h > 0 && h <= 31680 {\n			trs')]),
dict(id='p30-mediaprefix',property='C18',edits=[('media.go','const MEDIA_FOLDER = `word/media/`','const MEDIA_FOLDER = `word/media/`\n\n// mediaPrefix is the prefix of media names\nconst mediaPrefix = `word/media`'),('unpack.go','strings.HasPrefix(f.Name, MEDIA_FOLDER)','strings.HasPrefix(f.Name, mediaPrefix) && len(f.Name) > len(MEDIA_FOLDER)')]),
dict(id='p31-tmpl-word-doc',property='C18',edits=[('unpack.go','		// fill remaining files into tmpfslist\n','		if f.UncompressedSize64 == 0 {\n			continue\n		}\n		// fill remaining files into tmpfslist\n')]),
dict(id='p32-thumb',property='C18',edits=[('unpack.go','		// fill remaining files into tmpfslist\n','		if strings.HasPrefix(f.Name, "docProps/thumbnail") {\n			continue\n		}\n		// fill remaining files into tmpfslist\n')]),
dict(id='p33-scale-int32',property='C19',edits=[('apidrawing.go','		h = A4_EMU_MAX_WIDTH * h / w / 2','		h = A4_EMU_MAX_WIDTH / 2 * h / w',2)]),
dict(id='p34-size-noext',property='C19',edits=[('apidrawing.go','func (r *WPAnchor) Size(w, h int64) {\n','func (r *WPAnchor) Size(w, h int64) {\n	if w == h {\n		h = w\n	} else if w > 1<<31 {\n		w = 1 << 31\n	}\n')]),
dict(id='p35-range-stop',property='C20',edits=[('apirel.go','		if err != nil {\n			return err','		if err == io.EOF {\n			return nil\n		}\n		if err != nil {\n			return err'),('apirel.go','package docx\n','package docx\n\nimport "io"\n')]),
dict(id='p36-referid-last',property='C20',edits=[('link.go','		if a.Target == target {\n			return a.ID, nil','		if strings.EqualFold(a.Target, target) {\n			return a.ID, nil'),('link.go','	"strconv"\n','	"strconv"\n	"strings"\n')]),
dict(id='p37-media-fold',property='C20',edits=[('media.go','	if !ok {\n		return nil','	if !ok && len(f.media) == 1 && strings.EqualFold(f.media[0].Name, name) {\n		return &f.media[0]\n	}\n	if !ok {\n		return nil'),('media.go','package docx\n','package docx\n\nimport "strings"\n')]),
dict(id='p38-save-marks',property='C21',edits=[('structlink.go','	if r.hasrel() {','	if r.Run.Space == "" && strings.TrimSpace(r.Run.InstrText) != r.Run.InstrText {\n		r.Run.Space = "preserve"\n		if r.Run.RunProperties != nil {\n			r.Run.RunProperties.Strike = nil\n		}\n	}\n	if r.hasrel() {')]),
dict(id='p39-cli-dot',property='C22',edits=[('cmd/main/main.go','		if b <= a { // no extension','		if b < 0 { // no extension')]),
dict(id='p40-getint-sp',property='C23',edits=[('helper.go','	_, err = fmt.Sscanf(s, "%d", &v)','	_, err = fmt.Sscan(s, &v)',2)]),
dict(id='p41-getint-unit',property='C23',edits=[('helper.go','	_, err = fmt.Sscanf(s, "%d", &v)','	_, err = fmt.Sscanf(strings.TrimSpace(s), "%d", &v)\n	if v < 0 && strings.HasSuffix(s, "%") {\n		v = -v\n	}',2),('helper.go','	"strconv"\n','	"strconv"\n	"strings"\n')]),
dict(id='p42-tobytes-cap',property='C23',edits=[('helper.go','	bh.cap = sh.len','	bh.cap = sh.cap')]),
dict(id='p43-group-order',property='C02',edits=[('structgroup.go','w.Elems = append(w.Elems, &value)','w.Elems = append([]interface{}{&value}, w.Elems...)',1)]),
dict(id='p44-deep-skip',property='C03',edits=[('structrun.go','	default:\n		err = d.Skip() // skip unsupported tags\n	}\n	return\n','	case "ruby":\n		child = &Text{}\n		err = d.DecodeElement(child, &tt)\n	default:\n		err = d.Skip() // skip unsupported tags\n	}\n	return\n')]),
dict(id='p45-slowid-empty',property='C05',edits=[('id.go','	n = f.slowIDs[name]','	if name == "" {\n		return 1\n	}\n	n = f.slowIDs[name]')]),
dict(id='p46-rel-escape',property='C04',edits=[('link.go','		Target:     link,\n','		Target:     strings.ReplaceAll(link, " ", "%20"),\n'),('link.go','	"strconv"\n','	"strconv"\n	"strings"\n')],checks=['C01','C20']),
dict(id='p47-ct-first',property='C04',edits=[('contenttypes.go','		known[ext] = true\n','		known[ext] = true\n		if ext == ".gif" {\n			break\n		}\n')]),
dict(id='p48-split-tmplfs',property='C08',edits=[('structdoc.go','		ndoc.tmpfslst = f.tmpfslst\n','		ndoc.tmpfslst = f.tmpfslst\n		if len(docs) > 1 {\n			ndoc.tmpfslst = DefaultTemplateFilesList\n		}\n')]),
dict(id='p49-load-alias',property='C05',edits=[('docx.go','	doc.slowIDs["图片"] = uintptr(len(media) + 1)','	doc.slowIDs["图片"] = uintptr(len(media))')]),
dict(id='p50-tcpr-alias',property='C08',edits=[('structdoc.go','			if tc.TableCellProperties != nil {\n				pr := *tc.TableCellProperties\n				ntc.TableCellProperties = &pr\n			}\n','')]),
dict(id='p51-merge-link-prop',property='C10',edits=[('structtext.go','			if !xx1.Field(j).Equal(xx2.Field(j)) {\n				return false\n			}\n		}\n	}\n	return true\n}\n\n// MergeSamePropRunsOf','			if !xx1.Field(j).Equal(xx2.Field(j)) && xx1.Field(j).String() != "auto" {\n				return false\n			}\n		}\n	}\n	return true\n}\n\n// MergeSamePropRunsOf')]),
dict(id='p52-cellfile',property='C15',edits=[('apipara.go','		file:     c.file,\n','		file:     nil,\n')],checks=['C14','C17','C01']),
dict(id='p53-docpr-name',property='C07',edits=[('structcopy.go','			Name: docpr.Name,\n','			Name: strings.TrimSpace(docpr.Name),\n')]),
dict(id='p54-absolute-target',property='C06',edits=[('structcopy.go','strings.TrimPrefix(tgt, "/word/")','strings.TrimPrefix(tgt, "/")')],checks=['C06','C07']),
]
