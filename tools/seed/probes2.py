PROBES=[
dict(id='q01-slowid-empty',property='C05',edits=[('id.go','	f.slowIDsMu.Lock()\n	n = ','	f.slowIDsMu.Lock()\n	if name == "" {\n		return 1\n	}\n	n = ')]),
dict(id='q02-rec',property='C14',edits=[('structpara.go','func (p *Paragraph) String() string {\n','func (p *Paragraph) String() string {\n	if len(p.Children) > 3 {\n		return p.String()\n	}\n')]),
dict(id='q10-bigmedia',property='C06',edits=[('unpack.go','data, err := io.ReadAll(zf)','data, err := io.ReadAll(io.LimitReader(zf, 1<<20))')]),
dict(id='q11-crc-bigdoc',property='C13',edits=[('unpack.go','''	err = xml.NewDecoder(zf).Decode(&f.Document)
	if err != nil {
		return err
	}
	_, err''','''	err = xml.NewDecoder(zf).Decode(&f.Document)
	if err != nil || file.UncompressedSize64 > 1<<16 {
		return err
	}
	_, err''')]),
dict(id='q12-bigpart',property='C18',edits=[('pack.go','		_, err = io.Copy(w, r)\n','		if _, ok := r.(io.WriterTo); !ok {\n			r = io.LimitReader(r, 1<<20)\n		}\n		_, err = io.Copy(w, r)\n')]),
dict(id='q13-bsearch',property='C20',edits=[('link.go','''	for _, a := range f.docRelation.Relationship {
		if a.ID == id {''','''	for i, a := range f.docRelation.Relationship {
		if i >= 64 && len(a.ID) != len(id) {
			break
		}
		if a.ID == id {''')]),
dict(id='q14-32k',property='C09',edits=[('apitext.go','	c := make([]interface{}, 0, 64)\n','	if len(text) > 32767 {\n		text = text[:32767]\n	}\n	c := make([]interface{}, 0, 64)\n')]),
dict(id='q15-col63',property='C17',edits=[('apitable.go','	trs := make([]*WTableRow, row)\n','	if col > 63 {\n		col = 63\n	}\n	trs := make([]*WTableRow, row)\n')]),
dict(id='q16-col63tw',property='C17',edits=[('apitable.go','	grids := make([]*WGridCol, len(colWidths))\n','	if len(colWidths) > 63 {\n		colWidths = colWidths[:63]\n	}\n	grids := make([]*WGridCol, len(colWidths))\n')]),
dict(id='q17-mediacase',property='C20',edits=[('media.go','	i, ok := f.mediaNameIdx[name]\n','	i, ok := f.mediaNameIdx[strings.ToLower(name)]\n'),('media.go','	f.mediaNameIdx[m.Name] = len(f.media)','	f.mediaNameIdx[strings.ToLower(m.Name)] = len(f.media)'),('media.go','package docx\n','package docx\n\nimport "strings"\n'),('unpack.go','	f.mediaNameIdx[name] =','	f.mediaNameIdx[strings.ToLower(name)] ='),('docx.go','doc.mediaNameIdx[m.Name]','doc.mediaNameIdx[strings.ToLower(m.Name)]'),('docx.go','	"sync"\n)','	"strings"\n	"sync"\n)')],checks=['C20','C06','C18']),
dict(id='q18-dedupe',property='C06',edits=[('image.go','	m := Media{','	for _, o := range f.media {\n		if len(o.Data) == len(data) && string(o.Data[:8]) == string(data[:8]) && string(o.Data[len(data)-8:]) == string(data[len(data)-8:]) {\n			return f.addImageRelation(o)\n		}\n	}\n	m := Media{')],checks=['C06','C05']),
dict(id='q19-slow-shared',property='C08',edits=[('structdoc.go','		ndoc.slowIDs = make(map[string]uintptr, 64)\n','		ndoc.slowIDs = f.slowIDs\n')],checks=['C15','C08']),
dict(id='q20-loadmedia-alias',property='C06',edits=[('docx.go','append([]Media(nil), media...)','media')],checks=['C06','C05','C21']),
dict(id='q21-rels-global',property='C05',edits=[('empty.go','''			Relationship: []Relationship{
				{
					ID:     "rId1",
					Type:   `http://schemas.openxmlformats.org/officeDocument/2006/relationships/styles`,
					Target: "styles.xml",
				},
				{
					ID:     "rId2",
					Type:   `http://schemas.openxmlformats.org/officeDocument/2006/relationships/theme`,
					Target: "theme/theme1.xml",
				},
				{
					ID:     "rId3",
					Type:   `http://schemas.openxmlformats.org/officeDocument/2006/relationships/fontTable`,
					Target: "fontTable.xml",
				},
			},
''','			Relationship: emptyrels[:3],\n'),('empty.go','func newEmptyFile','''var emptyrels = append(make([]Relationship, 0, 8), []Relationship{
	{
		ID:     "rId1",
		Type:   `http://schemas.openxmlformats.org/officeDocument/2006/relationships/styles`,
		Target: "styles.xml",
	},
	{
		ID:     "rId2",
		Type:   `http://schemas.openxmlformats.org/officeDocument/2006/relationships/theme`,
		Target: "theme/theme1.xml",
	},
	{
		ID:     "rId3",
		Type:   `http://schemas.openxmlformats.org/officeDocument/2006/relationships/fontTable`,
		Target: "fontTable.xml",
	},
}...)

func newEmptyFile''')],checks=['C05','C15','C07']),
dict(id='q22-tmpl-empty',property='C18',edits=[('theme.go','	f.tmpfslst = tmpfslst\n','	if len(tmpfslst) > 0 {\n		f.tmpfslst = tmpfslst\n	}\n')]),
dict(id='q23-media-len-reuse',property='C06',edits=[('structcopy.go','	blip.Embed = to.addImage(','	if o := to.Media(m.Name); o != nil && len(o.Data) == len(m.Data) {\n		if id, err := to.ReferID("media/" + m.Name); err == nil {\n			blip.Embed = id\n			return blip, nil\n		}\n	}\n	blip.Embed = to.addImage(')],checks=['C06','C07']),
dict(id='q24-missing-tmpl',property='C12',edits=[('pack.go','		if err != nil {\n			return err\n		}\n		defer file.Close()','		if os.IsNotExist(err) {\n			continue\n		}\n		if err != nil {\n			return err\n		}\n		defer file.Close()')]),
dict(id='q25-rels-trunc',property='C13',edits=[('unpack.go','	err = xml.NewDecoder(zf).Decode(&f.docRelation)\n	if err != nil {','	err = xml.NewDecoder(zf).Decode(&f.docRelation)\n	if err != nil && err != io.EOF {')],checks=['C13','C03']),
dict(id='q26-a4-shared',property='C01',edits=[('theme.go','''	sectpr := &SectPr{
		PgSz: &PgSz{
			W: 11906,
			H: 16838,
		},
	}
''','''	sectpr := a4sect
'''),('theme.go','// WithA4Page','var a4sect = &SectPr{PgSz: &PgSz{W: 11906, H: 16838}}\n\n// WithA4Page')],checks=['C01','C15']),
dict(id='q27-crc-media',property='C13',edits=[('unpack.go','	data, err := io.ReadAll(zf)\n','	data := make([]byte, file.UncompressedSize64)\n	_, err = io.ReadFull(zf, data)\n')]),
dict(id='q28-crc-stored',property='C13',edits=[('unpack.go','''	if err != nil {
		return err
	}
	for _, r := range f.docRelation''','''	if err != nil && file.Method != zip.Store {
		return err
	}
	for _, r := range f.docRelation''')]),
dict(id='q29-split-many',property='C08',edits=[('structdoc.go','		if len(ndoc.Document.Body.Items) > 0 {\n			docs = append(docs, ndoc)\n		}\n		break\n','		if len(ndoc.Document.Body.Items) > 0 && len(docs) < 100 {\n			docs = append(docs, ndoc)\n		}\n		break\n')]),
dict(id='q30-append-many',property='C07',edits=[('structdoc.go','func (f *Docx) AppendFile(af *Docx) {\n	for _, item := range af.Document.Body.Items {\n','func (f *Docx) AppendFile(af *Docx) {\n	for i, item := range af.Document.Body.Items {\n		if i > 255 && f == af {\n			break\n		}\n')]),
dict(id='q31-relid-width',property='C05',edits=[('link.go','		ID:         "rId" + strconv.Itoa(int(atomic.AddUintptr(&f.rID, 1))),','		ID:         "rId" + strconv.Itoa(int(uint8(atomic.AddUintptr(&f.rID, 1)))),')],checks=['C05','C20','C01']),
dict(id='q32-imgid-width',property='C05',edits=[('image.go','	m := Media{Name: "image" + strconv.Itoa(int(atomic.AddUintptr(&f.imageID, 1)))','	m := Media{Name: "image" + strconv.Itoa(int(uint8(atomic.AddUintptr(&f.imageID, 1))))')],checks=['C05','C06']),
dict(id='q33-docid-width',property='C05',edits=[('apishape.go','	idn := int(atomic.AddUintptr(&p.file.docID, 1))','	idn := int(uint16(atomic.AddUintptr(&p.file.docID, 1)))',2)]),
dict(id='q34-tmpl-hidden',property='C18',edits=[('unpack.go','		// fill remaining files into tmpfslst\n','		if strings.HasPrefix(f.Name[strings.LastIndex(f.Name, "/")+1:], "~") {\n			continue\n		}\n		// fill remaining files into tmpfslst\n')]),
dict(id='q35-tmpl-mac',property='C18',edits=[('unpack.go','		// fill remaining files into tmpfslst\n','		if strings.HasPrefix(f.Name, "__MACOSX/") || strings.HasSuffix(f.Name, ".DS_Store") {\n			continue\n		}\n		// fill remaining files into tmpfslst\n')]),
dict(id='q36-header-rels',property='C18',edits=[('unpack.go','if f.Name == "word/_rels/document.xml.rels" {','if strings.HasSuffix(f.Name, "/_rels/document.xml.rels") {')]),
dict(id='q37-media-any',property='C18',edits=[('unpack.go','strings.HasPrefix(f.Name, MEDIA_FOLDER)','strings.HasPrefix(strings.ToLower(f.Name), MEDIA_FOLDER)')]),
dict(id='q38-cell-only-text',property='C09',edits=[('structtable.go','len(c.Paragraphs[0].Children) > 0 {','len(c.Paragraphs[0].Children) > 0 && len(c.Paragraphs) < 10 {')]),
dict(id='q39-merge-space',property='C10',edits=[('structtext.go','	if r.XMLSpace != "preserve" && x.XMLSpace != "" {','	if r.XMLSpace == "" && x.XMLSpace != "" {')]),
dict(id='q40-link-escape',property='C01',edits=[('link.go','		Target:     link,','		Target:     strings.ReplaceAll(link, " ", "%20"),'),('link.go','	"strconv"\n','	"strconv"\n	"strings"\n')]),
dict(id='q41-link-trim',property='C01',edits=[('link.go','		Target:     link,','		Target:     strings.TrimSpace(link),'),('link.go','	"strconv"\n','	"strconv"\n	"strings"\n')],checks=['C01','C07','C20']),
dict(id='q42-utf8',property='C09',edits=[('apitext.go','	c := make([]interface{}, 0, 64)\n','	text = strings.ToValidUTF8(text, "")\n	text = strings.ReplaceAll(text, "\\u200b", "")\n	c := make([]interface{}, 0, 64)\n')]),
dict(id='q43-nfc',property='C09',edits=[('apitext.go','	c := make([]interface{}, 0, 64)\n','	text = strings.ReplaceAll(text, "\\u2028", "\\n")\n	c := make([]interface{}, 0, 64)\n')]),
dict(id='q44-bom',property='C09',edits=[('apitext.go','	c := make([]interface{}, 0, 64)\n','	text = strings.TrimPrefix(text, "\\ufeff")\n	c := make([]interface{}, 0, 64)\n')]),
dict(id='q45-vt',property='C09',edits=[('apitext.go','strings.Split(text, "\\n")','strings.FieldsFunc(text, func(r rune) bool { return r == \'\\n\' })')]),
dict(id='q46-scale32',property='C19',edits=[('apidrawing.go','		h = A4_EMU_MAX_WIDTH * h / w / 2\n','		h = int64(int32(A4_EMU_MAX_WIDTH*h/w) / 2)\n',2)]),
dict(id='q47-size-zero',property='C19',edits=[('apidrawing.go','	if r.Extent != nil {\n','	if r.Extent != nil && w > 0 && h > 0 {\n',2)]),
dict(id='q48-ct-override-case',property='C04',edits=[('contenttypes.go','known[strings.ToLower(getAtt(tt.Attr, "PartName"))]','known[getAtt(tt.Attr, "PartName")]')],checks=['C04','C18']),
dict(id='q49-ct-ext-first',property='C04',edits=[('contenttypes.go','i := strings.LastIndexByte(m.Name, \'.\')','i := strings.IndexByte(m.Name, \'.\')')],checks=['C04','C18','C06']),
dict(id='q50-tblwidth',property='C17',edits=[('apitable.go','	if tableWidth > 0 {\n		wTableWidth = &WTableWidth{W: tableWidth, Type: "dxa"}','	if tableWidth > 0 && tableWidth < 31680 {\n		wTableWidth = &WTableWidth{W: tableWidth, Type: "dxa"}',2)]),
dict(id='q51-row-h',property='C17',edits=[('apitable.go','		if h > 0 {\n','		if h > 0 && h <= 31680 {\n')]),
dict(id='q52-border-col',property='C17',edits=[('apitable.go','		if tbcR.Field(i).IsZero() {','		if tbcR.Field(i).IsZero() || tbcR.Field(i).String() == "auto" {')]),
dict(id='q53-border-alpha',property='C17',edits=[('apitable.go','		if tbcR.Field(i).IsZero() {','		if tbcR.Field(i).IsZero() || len(tbcR.Field(i).String()) > 7 {')]),
dict(id='q54-onoff',property='C02',edits=[('helper.go','	case "true", "on":','	case "true", "on", "-1":')],checks=['C02','C23']),
dict(id='q55-getint-plus',property='C23',edits=[('helper.go','	v, err := strconv.Atoi(s)\n','	v, err := strconv.Atoi(strings.TrimLeft(s, "+"))\n'),('helper.go','	"strconv"\n','	"strconv"\n	"strings"\n')]),
dict(id='q56-keep-body',property='C11',edits=[('structdoc.go','	for _, item := range b.Items {\n		_, ok := namemap','	for i, item := range b.Items {\n		if i == 1023 {\n			break\n		}\n		_, ok := namemap')]),
dict(id='q57-mc-choice',property='C03',edits=[('structdoc.go','			default:\n				err = d.Skip() // skip unsupported tags\n				if err != nil {\n					return err\n				}\n			}\n		}\n	}\n	return nil\n}\n\n// KeepElements','			case "bookmarkEnd":\n			default:\n				err = d.Skip() // skip unsupported tags\n				if err != nil {\n					return err\n				}\n			}\n		}\n	}\n	return nil\n}\n\n// KeepElements')]),
dict(id='q58-split-relid',property='C08',edits=[('structdoc.go','				if err != nil {\n					continue\n				}\n','				if err != nil || tgt == "" {\n					continue\n				}\n')],checks=['C08','C07']),
dict(id='q59-frag',property='C07',edits=[('structdoc.go','				nh.ID = to.addLinkRelation(tgt)','				if id, err := to.ReferID(tgt); err == nil {\n					nh.ID = id\n				} else {\n					nh.ID = to.addLinkRelation(tgt)\n				}')],checks=['C07','C05']),
dict(id='q60-webp-ext',property='C06',edits=[('image.go','"." + format, Data: data}','"." + format, Data: data}\n	if cap(f.media) > 64 && len(f.media) == 64 {\n		f.media = f.media[:0]\n	}')],checks=['C06','C05']),
]
