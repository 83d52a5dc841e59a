PROBES=[]
def d(id,prop,edits,*checks):
    PROBES.append(dict(id=id,property=prop,edits=edits,checks=list(checks) or [prop]))
# C06/C04: pictures
d('w01-media-tail','C06',[('image.go','	for f.Media(m.Name) != nil {','	for i := len(f.media) - 1; i >= 0; i-- {\n		if p := f.media[i]; len(p.Data) == len(data) && len(data) > 64 && string(p.Data[:64]) == string(data[:64]) {\n			return f.addImageRelation(p)\n		}\n	}\n	for f.Media(m.Name) != nil {')],'C06','C01')
d('w02-media-lower','C06',[('media.go','	i, ok := f.mediaNameIdx[name]\n	if !ok {','	i, ok := f.mediaNameIdx[name]\n	if !ok && len(name) > 64 {\n		i, ok = f.mediaNameIdx[name[:64]]\n	}\n	if !ok {')],'C20')
# C20
d('w03-refid-empty','C20',[('link.go','		if a.Target == target {\n','		if a.Target == target && (a.TargetMode == "" || target != "") {\n')],'C20')
d('w04-target-ext','C20',[('link.go','		if a.ID == id {\n			return a.Target, nil','		if a.ID == id {\n			if a.Target == "NULL" {\n				break\n			}\n			return a.Target, nil')],'C20')
# C05
d('w05-docid-max','C05',[('id.go','if f != nil && pr.ID > 0 && f.docID < uintptr(pr.ID) {','if f != nil && pr.ID > 0 && pr.ID < 1<<30 && f.docID < uintptr(pr.ID) {')],'C05')
d('w06-rid-hole','C05',[('unpack.go','		if f.rID < uintptr(id) {\n			f.rID = uintptr(id)\n		}','		if f.rID < uintptr(id) && (r.Type != REL_HYPERLINK || r.TargetMode != "") {\n			f.rID = uintptr(id)\n		}')],'C05','C04')
# C09
d('w07-nested-string','C09',[('structpara.go','			if x.Inline != nil {\n				sb.WriteString(x.Inline.String())\n				continue\n			}','			if x.Inline != nil && x.Anchor == nil {\n				sb.WriteString(x.Inline.String())\n				continue\n			}')],'C09')
d('w08-link-mailto','C09',[('structpara.go','			if err != nil {\n				sb.WriteString(id)\n			} else {','			if err != nil || link == "" {\n				sb.WriteString(id)\n			} else {')],'C09')
d('w09-link-text-twice','C09',[('structpara.go','			sb.WriteString(text)\n			o.Run.writeText(&sb)','			if len(o.Run.Children) == 0 || text != link {\n				sb.WriteString(text)\n			}\n			o.Run.writeText(&sb)')],'C09')
# C11
d('w10-keep-dup-names','C11',[('structpara.go','	for _, n := range name {\n		namemap[n] = struct{}{}\n	}','	for _, n := range name {\n		if _, ok := namemap[n]; ok {\n			delete(namemap, n)\n			continue\n		}\n		namemap[n] = struct{}{}\n	}')],'C11')
d('w11-keep-none','C11',[('structpara.go','	items := make([]interface{}, 0, len(p.Children))\n	namemap','	if len(name) == 0 {\n		return\n	}\n	items := make([]interface{}, 0, len(p.Children))\n	namemap')],'C11')
d('w12-drop-cell-nested','C11',[('structdoc.go','					for _, p := range tc.Paragraphs {\n						f := reflect','					for i, p := range tc.Paragraphs {\n						if i > 0 && p == tc.Paragraphs[i-1] {\n							continue\n						}\n						f := reflect')],'C11')
# C12
d('w13-pack-defer-close','C12',[('pack.go','		defer file.Close()\n','		if len(files) < 32 {\n			defer file.Close()\n		}\n')],'C12','C21')
d('w14-writeto-closed','C12',[('docx.go','		if err == nil {\n			err = cerr\n		}','		if err == nil && cerr != os.ErrClosed {\n			err = cerr\n		}')],'C12')
d('w15-copy-eof','C12',[('pack.go','		_, err = io.Copy(w, r)\n		if err != nil {\n			return err\n		}','		_, err = io.Copy(w, r)\n		if err != nil && err != io.ErrUnexpectedEOF {\n			return err\n		}')],'C12')
# C13
d('w16-rels-missing-target','C13',[('unpack.go','	if err != nil {\n		return err\n	}\n	for _, r := range f.docRelation.Relationship {','	if err != nil && len(f.docRelation.Relationship) < 8 {\n		return err\n	}\n	for _, r := range f.docRelation.Relationship {')],'C13')
d('w17-para-syntax','C13',[('structpara.go','		if err != nil {\n			return err\n		}\n		if tt, ok := t.(xml.StartElement); ok {\n			var elem interface{}','		if err != nil {\n			if _, ok := err.(*xml.SyntaxError); ok && len(children) > 8 {\n				break\n			}\n			return err\n		}\n		if tt, ok := t.(xml.StartElement); ok {\n			var elem interface{}')],'C13')
# C14
d('w18-hyper-nilfile','C14',[('structpara.go','				id := getAtt(tt.Attr, "id")\n','				id := getAtt(tt.Attr, "id")\n				if len(id) > 0 && id[:3] != "rId" {\n					id = ""\n				}\n')],'C14')
d('w19-alt-choice','C14',[('structrun.go','			if _, ok := tok.(xml.EndElement); ok { // the end of the alternate content\n				break\n			}','			if e, ok := tok.(xml.EndElement); ok && e.Name.Local == "AlternateContent" { // the end of the alternate content\n				break\n			}')],'C14','C03')
# C18
d('w20-skip-thumbs','C18',[('unpack.go','		if strings.HasPrefix(f.Name, MEDIA_FOLDER) {','		if strings.HasPrefix(f.Name, MEDIA_FOLDER) || strings.HasPrefix(f.Name, "media/") {')],'C18')
d('w21-case-media','C18',[('unpack.go','		if strings.HasPrefix(f.Name, MEDIA_FOLDER) {','		if strings.HasPrefix(strings.ToLower(f.Name), MEDIA_FOLDER) {')],'C18')
d('w22-dup-part','C18',[('unpack.go','		docx.tmpfslst = append(docx.tmpfslst, f.Name)','		if f.UncompressedSize64 == 0 && f.Method == zip.Store {\n			continue\n		}\n		docx.tmpfslst = append(docx.tmpfslst, f.Name)')],'C18')
# C21
d('w23-save-norm-rels','C21',[('pack.go','	for _, m := range f.media {\n','	if n := len(f.docRelation.Relationship); n > 3 && f.docRelation.Relationship[n-1].Target == f.docRelation.Relationship[n-2].Target {\n		f.docRelation.Relationship = f.docRelation.Relationship[:n-1]\n	}\n	for _, m := range f.media {\n')],'C21','C04')
# C15
d('w24-string-pool','C15',[('structpara.go','func (p *Paragraph) String() string {\n	sb := strings.Builder{}\n','var parasb strings.Builder\n\nfunc (p *Paragraph) String() string {\n	if len(p.Children) < 16 {\n		return p.str(&strings.Builder{})\n	}\n	parasb.Reset()\n	return p.str(&parasb)\n}\n\nfunc (p *Paragraph) str(sbp *strings.Builder) string {\n	sb := strings.Builder{}\n	sb.WriteString(sbp.String())\n')],'C15')
d('w25-lazy-relidx','C15',[('link.go','	for _, a := range f.docRelation.Relationship {\n		if a.ID == id {\n			return a.Target, nil','	for i, a := range f.docRelation.Relationship {\n		if a.ID == id {\n			if i > 4 {\n				f.docRelation.Relationship[i], f.docRelation.Relationship[i-1] = f.docRelation.Relationship[i-1], a\n			}\n			return a.Target, nil')],'C15','C21')
# C23
d('w26-int-space','C23',[('helper.go','	v, err := strconv.Atoi(s)','	if len(s) > 1 && s[0] == \'0\' && s[1] == \'x\' {\n		x, err := strconv.ParseInt(s[2:], 16, 64)\n		return int(x), err\n	}\n	v, err := strconv.Atoi(s)')],'C23')
# C03
d('w27-rpr-dup','C03',[('structpara.go','				p.Properties = &value\n				continue','				if p.Properties == nil {\n					p.Properties = &value\n				}\n				continue')],'C02','C03')
d('w28-body-nested-skip','C03',[('structdoc.go','			default:\n				err = d.Skip() // skip unsupported tags\n				if err != nil {\n					return err\n				}\n			}\n		}\n	}\n	return nil\n}\n','			default:\n				if tt.Name.Local == "bookmarkStart" && len(b.Items) > 2 {\n					continue\n				}\n				err = d.Skip() // skip unsupported tags\n				if err != nil {\n					return err\n				}\n			}\n		}\n	}\n	return nil\n}\n')],'C03')
d('w29-bg','C03',[('structdoc.go','				err = d.DecodeElement(&doc.Body, &tt)\n				if err != nil && !strings.HasPrefix(err.Error(), "expected") {\n					return err\n				}\n				continue','				err = d.DecodeElement(&doc.Body, &tt)\n				if err != nil && !strings.HasPrefix(err.Error(), "expected") {\n					return err\n				}\n				return nil')],'C13','C03')
