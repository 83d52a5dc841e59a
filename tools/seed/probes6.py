PROBES=[]
def d(id,prop,edits,*checks):
    PROBES.append(dict(id=id,property=prop,edits=edits,checks=list(checks) or [prop]))
d('x01-run-spacing-inplace','C07',[('apirun.go','	r.RunProperties.Spacing = &Spacing{\n		Line: line,\n	}\n','	if s := r.RunProperties.Spacing; s != nil {\n		s.Line = line\n		return r\n	}\n	r.RunProperties.Spacing = &Spacing{\n		Line: line,\n	}\n')],'C07','C16','C08')
d('x02-para-jc-inplace','C10',[('apipara.go','	p.Properties.Justification = &Justification{Val: val}\n','	if j := p.Properties.Justification; j != nil {\n		j.Val = val\n		return p\n	}\n	p.Properties.Justification = &Justification{Val: val}\n')],'C07','C08','C10')
d('x03-mergeof-unknown','C10',[('structtext.go','			if !x1.IsValid() { // no such property\n				continue\n			}','			if !x1.IsValid() { // no such property\n				return false\n			}')],'C10')
d('x04-merge-over-rpr','C10',[('structtext.go','			prevrun = nil // runs on both sides are not contiguous\n','			if _, ok := o.(*Hyperlink); ok {\n				prevrun = nil // runs on both sides are not contiguous\n			}\n')],'C10')
d('x05-text-merge-default','C10',[('structtext.go','	if r.XMLSpace != "preserve" && x.XMLSpace != "" {','	if r.XMLSpace == "" && x.XMLSpace != "" {')],'C10')
d('x06-table-header-max','C09',[('structtable.go','	for i := 0; i < len(t.TableRows[0].TableCells); i++ {','	for i := 0; i < len(t.TableRows[len(t.TableRows)-1].TableCells); i++ {')],'C09')
d('x07-twips-negative-grid','C17',[('apitable.go','		if w > 0 {\n			grids[i] = &WGridCol{','		if w != 0 {\n			grids[i] = &WGridCol{')],'C17')
d('x08-table-wide-sharedprops','C17',[('apitable.go','	trs := make([]*WTableRow, row)\n	for i := 0; i < row; i++ {','	trs := make([]*WTableRow, row)\n	width := &WTableCellWidth{Type: "auto"}\n	for i := 0; i < row; i++ {'),('apitable.go','					TableCellWidth: &WTableCellWidth{Type: "auto"},','					TableCellWidth: width,')],'C17','C16')
d('x09-split-last-sect','C08',[('structdoc.go','			default:\n				ndoc.Document.Body.Items = append(ndoc.Document.Body.Items, o)','			default:\n				if len(ndoc.Document.Body.Items) == 0 && len(docs) > 0 {\n					continue\n				}\n				ndoc.Document.Body.Items = append(ndoc.Document.Body.Items, o)')],'C08')
d('x10-split-sharedrels','C08',[('structdoc.go','	items := f.Document.Body.Items\nnewdoclop:','	items := f.Document.Body.Items\n	spare := make([]Relationship, 0, 256)\nnewdoclop:'),('structdoc.go','		ndoc.rID = 3\n','		ndoc.docRelation.Relationship = append(spare, ndoc.docRelation.Relationship...)\n		ndoc.rID = 3\n')],'C08')
d('x11-media-contains','C18',[('unpack.go','		if strings.HasPrefix(f.Name, MEDIA_FOLDER) {','		if strings.HasPrefix(strings.ToLower(f.Name), MEDIA_FOLDER) {')],'C18')
d('x12-scale-int','C19',[('apidrawing.go','	if float64(w)/float64(h) > 1.2 {','	if w*100/h > 120 {')],'C19')
d('x13-preserve-prefix','C01',[('apitext.go','				if strings.TrimSpace(k) != k {','				if strings.TrimLeft(k, " ") != k || strings.HasSuffix(k, "  ") {')],'C01')
d('x14-getint-f32','C23',[('helper.go','	v2, err := strconv.ParseFloat(s, 64)\n	if err == nil && v2 > math.MinInt && ','	v2, err := strconv.ParseFloat(s, 32)\n	if err == nil && v2 > math.MinInt && ')],'C23')
d('x15-cli-firstdot','C22',[('cmd/main/main.go','		b := strings.LastIndex(*fileLocation, ".")\n','		b := a + 1 + strings.Index((*fileLocation)[a+1:], ".")\n')],'C22')
d('x16-cli-unm-before','C22',[('cmd/main/main.go','							p.Properties = nil\n','							if p.Properties != nil && p.Properties.NumProperties == nil {\n								p.Properties = nil\n							}\n')],'C22')
d('x17-keep-bare','C11',[('structrun.go','		namemap[n] = struct{}{}\n','		namemap[n] = struct{}{}\n		if n == "*docx.Text" {\n			namemap["*docx.Tab"] = struct{}{}\n		}\n')],'C11')
d('x18-range-alias','C20',[('apirel.go','	for _, r := range f.docRelation.Relationship {\n		err := iter(&r)','	for i := 0; i < len(f.docRelation.Relationship); i++ {\n		err := iter(&f.docRelation.Relationship[i])')],'C20')
d('x19-incid-unlock','C15',[('id.go','	f.slowIDsMu.Lock()\n	n = f.slowIDs[name]\n	n++\n	f.slowIDs[name] = n\n	f.slowIDsMu.Unlock()','	f.slowIDsMu.Lock()\n	n = f.slowIDs[name]\n	if n == 0 {\n		f.slowIDs[name] = 1\n		f.slowIDsMu.Unlock()\n		return 1\n	}\n	f.slowIDsMu.Unlock()\n	n++\n	f.slowIDsMu.Lock()\n	f.slowIDs[name] = n\n	f.slowIDsMu.Unlock()')],'C15','C05')
d('x20-inline-size-only-pic','C19',[('apidrawing.go','// Size of the inline drawing by EMU\nfunc (r *WPInline) Size(w, h int64) {\n	if r.Extent != nil {','// Size of the inline drawing by EMU\nfunc (r *WPInline) Size(w, h int64) {\n	if r.Extent != nil && w > 0 {')],'C19','C16')
d('x22-run-font-merge','C16',[('apirun.go','	r.RunProperties.Fonts = &RunFonts{\n		ASCII:    ascii,','	if hansi == "" {\n		hansi = ascii\n	}\n	r.RunProperties.Fonts = &RunFonts{\n		ASCII:    ascii,')],'C16')
d('x23-numpr-keep-level','C16',[('apipara.go','	p.Properties.NumProperties = &NumProperties{','	if n := p.Properties.NumProperties; n != nil && n.NumID != nil && n.NumID.Val == numID && ilvl == "" {\n		return p\n	}\n	p.Properties.NumProperties = &NumProperties{')],'C16')
d('x24-cell-shade-keep','C16',[('apitable.go','	c.TableCellProperties.Shade = &Shade{','	if s := c.TableCellProperties.Shade; s != nil {\n		s.Val, s.Color, s.Fill = val, color, fill\n		return c\n	}\n	c.TableCellProperties.Shade = &Shade{')],'C07','C16','C08')
d('x25-load-slowid','C05',[('docx.go','	doc.slowIDs["图片"] = uintptr(len(media) + 1)\n','	if len(media) > 0 {\n		doc.slowIDs["图片"] = uintptr(len(media) + 1)\n	}\n')],'C05')
d('x26-load-media-alias','C06',[('docx.go','		media:        append([]Media(nil), media...),','		media:        media,')],'C06','C15','C07','C20')
d('x27-rels-dir','C18',[('unpack.go','		if strings.HasSuffix(f.Name, "/") { // directories are no parts\n','		if strings.HasSuffix(f.Name, "/") || f.UncompressedSize64 == 0 { // directories are no parts\n')],'C18')
d('x28-rid-parse','C13',[('unpack.go','		id, err := strconv.ParseUint(r.ID[3:], 10, strconv.IntSize-2) // leave room for new ids','		id, err := strconv.ParseUint(strings.TrimLeft(r.ID, "rId"), 10, strconv.IntSize-2) // leave room for new ids')],'C13')
d('x29-pack-doc-last','C12',[('pack.go','	err = xml.NewEncoder(w).Encode(m.data)\n	return','	e := xml.NewEncoder(w)\n	err = e.Encode(m.data)\n	if err == nil {\n		return n, e.Flush()\n	}\n	return')],'C12')
d('x30-marshal-err','C12',[('pack.go','	err = xml.NewEncoder(w).Encode(m.data)\n	return','	if e := xml.NewEncoder(w).Encode(m.data); e != nil {\n		if _, ok := e.(*xml.UnsupportedTypeError); !ok {\n			err = e\n		}\n	}\n	return')],'C12')
d('x31-ucs-multi-instr','C02',[('structrun.go','		r.InstrText = value\n','		if strings.TrimSpace(value) != "" {\n			r.InstrText = value\n		}\n')],'C02','C09')
d('x32-tblw-neg','C02',[('structtable.go','			t.W, err = GetInt64(attr.Value)\n			if err != nil {\n				return err\n			}\n		case "type":\n			t.Type = attr.Value\n','			t.W, err = GetInt64(strings.TrimSuffix(attr.Value, "%"))\n			if err != nil {\n				return err\n			}\n		case "type":\n			t.Type = attr.Value\n',1)],'C02','C13')
d('x33-tab-pos-neg','C02',[('structtext.go','			t.Position, err = GetInt(attr.Value)\n			if err != nil {\n				return err\n			}\n','			t.Position, err = GetInt(attr.Value)\n			if err != nil {\n				return err\n			}\n			if t.Position < 0 {\n				t.Position = 0\n			}\n')],'C02')
d('x34-append-sect','C07',[('structdoc.go','	for _, item := range af.Document.Body.Items {\n		f.Document.Body.Items = append','	for i, item := range af.Document.Body.Items {\n		if _, ok := item.(*SectPr); ok && i == len(af.Document.Body.Items)-1 && f != af {\n			continue\n		}\n		f.Document.Body.Items = append')],'C07')
d('x35-append-self','C07',[('structdoc.go','	for _, item := range af.Document.Body.Items {\n		f.Document.Body.Items = append','	for i := 0; i < len(af.Document.Body.Items) && i < 1<<12; i++ {\n		item := af.Document.Body.Items[i]\n		f.Document.Body.Items = append')],'C07','C14')
d('x36-bar-type','C02',[('structtext.go','		if attr.Name.Local == "type" {\n			f.Type = attr.Value\n			break','		if attr.Name.Local == "type" && attr.Value != "textWrapping" {\n			f.Type = attr.Value\n			break')],'C02')
d('x37-hlink-multi-run','C02',[('structlink.go','			if tt.Name.Local == "r" {\n','			if tt.Name.Local == "r" && len(r.Run.Children) < 2 {\n')],'C02','C09')
d('x38-hlink-norel','C02',[('structlink.go','	return !r.norel || r.ID != r.Anchor','	return !r.norel && r.ID != r.Anchor')],'C02')
d('x39-doc-two-bodies','C02',[('structtable.go','			if len(c.Paragraphs) > 0 && len(c.Paragraphs[0].Children) > 0 {','			if len(c.Paragraphs) > 0 && c.Paragraphs[0].Properties != nil || len(c.Paragraphs) > 0 && len(c.Paragraphs[0].Children) > 0 {')],'C09')
d('x40-template-copy','C08',[('structdoc.go','		ndoc.tmpfslst = f.tmpfslst\n','		ndoc.tmpfslst = f.tmpfslst[:len(f.tmpfslst):cap(f.tmpfslst)]\n')],'C08')
