package core

import (
	"strings"
)

// The supported vocabulary, written from ECMA-376 / MS-DOCX for the element kinds
// the library documents, not from its struct tags.
//
// AttrSpec types: s string, i integer, b boolean attribute, l hyperlink reference,
// m image reference, p xml:space.
type AttrSpec struct {
	Name, Type string
	Req        bool // required by the schema: present in every generated document
}

// Elem is one vocabulary element in one parent context.
type Elem struct {
	Key    string // "w:tab@w:tabs" or "w:tab"
	Name   string
	Attrs  []AttrSpec
	Props  []string   // kids with at most one occurrence, order irrelevant for w: properties
	Choice [][]string // groups of mutually exclusive kids (subset of Props)
	Seq    []string   // repeatable kids whose order matters
	Text   string     // "" none, "t" free text, "i" integer text
	Toggle bool       // w:val on/off
}

// Grammar maps keys to elements.
var Grammar = map[string]*Elem{}

// GrammarKeys is in definition order.
var GrammarKeys []string

func def(key, attrs, props, seq string, opt ...string) {
	e := &Elem{Key: key, Name: strings.Split(key, "@")[0]}
	for _, a := range strings.Fields(attrs) {
		n, t, _ := strings.Cut(a, "=")
		e.Attrs = append(e.Attrs, AttrSpec{n, strings.TrimSuffix(t, "!"), strings.HasSuffix(t, "!")})
	}
	for _, p := range strings.Fields(props) {
		alts := strings.Split(p, "|")
		if len(alts) > 1 {
			e.Choice = append(e.Choice, alts)
		}
		e.Props = append(e.Props, alts...)
	}
	e.Seq = strings.Fields(seq)
	for _, o := range opt {
		switch o {
		case "text":
			e.Text = "t"
		case "inttext":
			e.Text = "i"
		case "toggle":
			e.Toggle = true
		}
	}
	Grammar[key] = e
	GrammarKeys = append(GrammarKeys, key)
}

// Lookup finds the element definition for a child of a parent.
func Lookup(name, parent string) *Elem {
	if e, ok := Grammar[name+"@"+parent]; ok {
		return e
	}
	return Grammar[name]
}

func init() {
	def("w:body", "", "", "w:p w:tbl w:sectPr")
	def("w:p", "", "w:pPr", "w:r w:hyperlink")
	def("w:pPr", "", "w:pStyle w:numPr w:tabs w:kinsoku w:overflowPunct w:adjustRightInd w:snapToGrid w:spacing w:ind w:jc w:textAlignment w:shd w:kern w:rPr", "")
	def("w:pStyle", "w:val=s!", "", "")
	def("w:numPr", "", "w:ilvl w:numId", "")
	def("w:ilvl", "w:val=s!", "", "")
	def("w:numId", "w:val=s!", "", "")
	def("w:tabs", "", "", "w:tab")
	def("w:tab@w:tabs", "w:val=s! w:pos=i!", "", "")
	for _, t := range []string{"w:kinsoku", "w:overflowPunct", "w:adjustRightInd", "w:snapToGrid", "w:b", "w:i", "w:iCs", "w:strike"} {
		def(t, "", "", "", "toggle")
	}
	def("w:spacing", "w:val=i w:beforeLines=i w:before=i w:line=i w:lineRule=s", "", "")
	def("w:ind", "w:leftChars=i w:left=i w:firstLineChars=i w:firstLine=i w:hangingChars=i w:hanging=i", "", "")
	def("w:jc", "w:val=s!", "", "")
	def("w:textAlignment", "w:val=s!", "", "")
	def("w:shd", "w:val=s! w:color=s w:fill=s w:themeFill=s w:themeFillTint=s", "", "")
	def("w:kern", "w:val=i!", "", "")
	def("w:rPr", "", "w:rStyle w:rFonts w:b w:i w:iCs w:strike w:color w:spacing w:kern w:sz w:szCs w:highlight w:u w:shd w:vertAlign w:pStyle", "")
	def("w:rStyle", "w:val=s!", "", "")
	def("w:rFonts", "w:ascii=s w:eastAsia=s w:hAnsi=s w:hint=s", "", "")
	def("w:color", "w:val=s!", "", "")
	def("w:sz", "w:val=s!", "", "")
	def("w:szCs", "w:val=s!", "", "")
	def("w:highlight", "w:val=s!", "", "")
	def("w:u", "w:val=s", "", "")
	def("w:vertAlign", "w:val=s!", "", "")
	def("w:r", "xml:space=p", "w:rPr w:instrText", "w:t w:tab w:br w:drawing")
	def("w:instrText", "", "", "", "text")
	def("w:t", "xml:space=p", "", "", "text")
	def("w:tab", "", "", "")
	def("w:br", "w:type=s", "", "")
	def("w:hyperlink", "r:id=l", "w:r", "")
	// tables
	def("w:tbl", "", "w:tblPr w:tblGrid", "w:tr")
	def("w:tblPr", "", "w:tblStyle w:tblpPr w:tblW w:jc w:tblBorders w:tblLook", "")
	def("w:tblStyle", "w:val=s!", "", "")
	def("w:tblpPr", "w:leftFromText=i w:rightFromText=i w:vertAnchor=s w:horzAnchor=s w:tblpXSpec=s w:tblpYSpec=s w:tblpX=i w:tblpY=i", "", "")
	def("w:tblW", "w:w=i w:type=s", "", "")
	def("w:tblLook", "w:val=s w:firstRow=b w:lastRow=b w:firstColumn=b w:lastColumn=b w:noHBand=b w:noVBand=b", "", "")
	for _, b := range []string{"w:tblBorders", "w:tcBorders"} {
		def(b, "", "w:top w:left w:bottom w:right w:insideH w:insideV", "")
	}
	for _, b := range []string{"w:top", "w:left", "w:bottom", "w:right", "w:insideH", "w:insideV"} {
		def(b, "w:val=s! w:sz=i w:space=i w:color=s", "", "")
	}
	def("w:tblGrid", "", "", "w:gridCol")
	def("w:gridCol", "w:w=i", "", "")
	def("w:tr", "", "w:trPr", "w:tc")
	def("w:trPr", "", "w:trHeight w:jc", "")
	def("w:trHeight", "w:val=i w:hRule=s", "", "")
	def("w:tc", "", "w:tcPr", "w:p")
	def("w:tcPr", "", "w:tcW w:gridSpan w:vMerge w:tcBorders w:shd w:vAlign", "")
	def("w:tcW", "w:w=i w:type=s", "", "")
	def("w:gridSpan", "w:val=i!", "", "")
	def("w:vMerge", "w:val=s", "", "")
	def("w:vAlign", "w:val=s!", "", "")
	// sections
	def("w:sectPr", "", "w:pgSz w:pgMar w:cols w:docGrid", "")
	def("w:pgSz", "w:w=i w:h=i", "", "")
	def("w:pgMar", "w:top=i w:left=i w:bottom=i w:right=i w:header=i w:footer=i w:gutter=i", "", "")
	def("w:cols", "w:space=i", "", "")
	def("w:docGrid", "w:type=s w:linePitch=i", "", "")
	// drawings
	def("w:drawing", "", "wp:inline|wp:anchor", "")
	def("wp:inline", "distT=i distB=i distL=i distR=i", "wp:extent wp:effectExtent wp:docPr wp:cNvGraphicFramePr a:graphic", "")
	def("wp:anchor", "distT=i distB=i distL=i distR=i simplePos=b relativeHeight=i behindDoc=b locked=b layoutInCell=b allowOverlap=b",
		"wp:simplePos wp:positionH wp:positionV wp:extent wp:effectExtent wp:wrapNone|wp:wrapSquare wp:docPr wp:cNvGraphicFramePr a:graphic", "")
	def("wp:extent", "cx=i! cy=i!", "", "")
	def("wp:effectExtent", "l=i! t=i! r=i! b=i!", "", "")
	def("wp:docPr", "id=i! name=s!", "", "")
	def("wp:cNvGraphicFramePr", "", "a:graphicFrameLocks", "")
	def("a:graphicFrameLocks", "noChangeAspect=b", "", "")
	def("wp:simplePos", "x=i! y=i!", "", "")
	def("wp:positionH", "relativeFrom=s!", "wp:posOffset", "")
	def("wp:positionV", "relativeFrom=s!", "wp:posOffset", "")
	def("wp:posOffset", "", "", "", "inttext")
	def("wp:wrapNone", "", "", "")
	def("wp:wrapSquare", "wrapText=s!", "", "")
	def("a:graphic", "", "a:graphicData", "")
	def("a:graphicData", "uri=s!", "pic:pic|wps:wsp|wpc:wpc|wpg:wgp", "")
	def("pic:pic", "", "pic:nvPicPr pic:blipFill pic:spPr", "")
	def("pic:nvPicPr", "", "pic:cNvPr pic:cNvPicPr", "")
	def("pic:cNvPr", "id=i! name=s!", "", "")
	def("pic:cNvPicPr", "", "a:picLocks", "")
	def("a:picLocks", "noChangeAspect=b", "", "")
	def("pic:blipFill", "", "a:blip a:stretch", "")
	def("a:blip", "r:embed=m cstate=s", "a:alphaModFix", "")
	def("a:alphaModFix", "amt=i!", "", "")
	def("a:stretch", "", "a:fillRect", "")
	def("a:fillRect", "", "", "")
	def("pic:spPr", "", "a:xfrm a:prstGeom", "")
	def("a:xfrm", "rot=i flipH=b flipV=b", "a:off a:ext a:chOff a:chExt", "")
	def("a:off", "x=i! y=i!", "", "")
	def("a:ext", "cx=i! cy=i!", "", "")
	def("a:chOff", "x=i! y=i!", "", "")
	def("a:chExt", "cx=i! cy=i!", "", "")
	def("a:prstGeom", "prst=s!", "a:avLst", "")
	def("a:avLst", "", "", "")
	def("wps:wsp", "", "wps:cNvPr wps:cNvCnPr|wps:cNvSpPr wps:spPr wps:txbx wps:bodyPr", "")
	def("wps:cNvPr", "id=i! name=s!", "", "")
	def("wps:cNvCnPr", "", "a:cxnSpLocks", "")
	def("a:cxnSpLocks", "", "", "")
	def("wps:cNvSpPr", "txBox=b", "a:spLocks", "")
	def("a:spLocks", "noChangeArrowheads=b", "", "")
	def("wps:spPr", "bwMode=s", "a:xfrm a:prstGeom a:noFill|a:solidFill|a:blipFill a:ln", "")
	def("wpg:grpSpPr", "bwMode=s", "a:xfrm a:noFill|a:solidFill|a:blipFill", "")
	def("a:noFill", "", "", "")
	def("a:solidFill", "", "a:srgbClr", "")
	def("a:srgbClr", "val=s!", "", "")
	def("a:blipFill", "dpi=i rotWithShape=b", "a:blip a:srcRect a:tile", "")
	def("a:srcRect", "", "", "")
	def("a:tile", "tx=i ty=i sx=i sy=i flip=s algn=s", "", "")
	def("a:ln", "w=i cap=s cmpd=s algn=s", "a:noFill|a:solidFill a:prstDash a:round|a:miter a:headEnd a:tailEnd", "")
	def("a:prstDash", "val=s!", "", "")
	def("a:round", "", "", "")
	def("a:miter", "lim=s", "", "")
	def("a:headEnd", "type=s w=s len=s", "", "")
	def("a:tailEnd", "type=s w=s len=s", "", "")
	def("wps:txbx", "", "w:txbxContent", "")
	def("w:txbxContent", "", "", "w:p")
	def("wps:bodyPr", "rot=i vert=s wrap=s lIns=i tIns=i rIns=i bIns=i anchor=s anchorCtr=b upright=b", "a:noAutofit", "")
	def("a:noAutofit", "", "", "")
	def("wpc:wpc", "", "wpc:bg wpc:whole", "wps:wsp pic:pic wpg:wgp")
	def("wpc:bg", "", "a:noFill", "")
	def("wpc:whole", "", "a:ln", "")
	def("wpg:wgp", "", "wpg:cNvGrpSpPr wpg:grpSpPr", "wps:wsp pic:pic wpg:grpSp wpc:wpc")
	def("wpg:cNvGrpSpPr", "", "a:grpSpLocks", "")
	def("a:grpSpLocks", "", "", "")
	def("wpg:grpSp", "", "wpg:cNvPr wpg:cNvGrpSpPr wpg:grpSpPr", "wps:wsp pic:pic")
	def("wpg:cNvPr", "id=i! name=s!", "", "")
}

// Values lists the value classes of an attribute type; the first is the default.
func Values(ty string) []string {
	switch ty {
	case "s":
		return []string{"v1", "0", "中文 x", `<&>"'`, " lead", "trail ", "a\nb\tc", "1.5", "true", "x y", strings.Repeat("L", 300)}
	case "i":
		return []string{"7", "0", "1", "-1", "-420", "2147483647", "2147483648", "-2147483649", "99999999999"}
	case "b":
		return []string{"1", "0", "true", "false"}
	case "l":
		return []string{"rId4", "rId12"}
	case "m":
		return []string{"rId5", "rId11"}
	case "p":
		return []string{"preserve", "default"}
	}
	return []string{"v"}
}

// TextValues are the texts used for text content.
func TextValues(ty string) []string {
	if ty == "i" {
		return Values("i")
	}
	return []string{"txt", " lead and trail ", "<&>\"'", "a\nb\tc", "中文", "x", strings.Repeat("long ", 1000), " ", "]]>"}
}

// exclusive reports whether kid a and kid b exclude each other under e.
func exclusive(e *Elem, a, b string) bool {
	for _, g := range e.Choice {
		ia, ib := false, false
		for _, x := range g {
			ia = ia || x == a
			ib = ib || x == b
		}
		if ia && ib {
			return true
		}
	}
	return false
}

// Exclusive is exclusive for other packages.
func Exclusive(e *Elem, a, b string) bool { return exclusive(e, a, b) }

// Full builds an instance with all attributes and, to the depth, one of each kid.
func Full(name, parent string, depth int) *Node {
	e := Lookup(name, parent)
	n := &Node{Name: e.Name}
	for _, a := range e.Attrs {
		if name == "w:t" && parent == "w:r" && a.Type == "p" {
			continue
		}
		if a.Type == "p" && name == "w:r" {
			continue
		}
		n.Set(a.Name, Values(a.Type)[0])
	}
	if e.Text != "" {
		n.Kids = []*Node{T(TextValues(e.Text)[0])}
	}
	if depth > 0 {
		var used []string
		add := func(k string) {
			for _, u := range used {
				if exclusive(e, u, k) {
					return
				}
			}
			used = append(used, k)
			n.Kids = append(n.Kids, Full(k, e.Name, depth-1))
		}
		for _, k := range e.Props {
			if k == "w:instrText" {
				continue
			}
			add(k)
		}
		for _, k := range e.Seq {
			add(k)
		}
	}
	return n
}

// Min builds an instance with attributes only.
func Min(name, parent string) *Node { return Full(name, parent, 0) }

// Edge is one (parent, child) pair of the grammar with the path from the body to the parent.
type Edge struct {
	Path   []string // body ... parent
	Parent string
	Child  string
}

// Edges lists every parent-child edge with a shortest path to the parent.
func Edges() []Edge {
	short := map[string][]string{"w:body": {"w:body"}}
	queue := []string{"w:body"}
	prev := map[string]string{}
	for len(queue) > 0 {
		k := queue[0]
		queue = queue[1:]
		e := Lookup(k, prev[k])
		for _, c := range append(append([]string{}, e.Props...), e.Seq...) {
			if _, ok := short[c]; !ok {
				short[c] = append(append([]string{}, short[k]...), c)
				prev[c] = k
				queue = append(queue, c)
			}
		}
	}
	var out []Edge
	for _, key := range GrammarKeys {
		e := Grammar[key]
		if strings.Contains(key, "@") {
			continue
		}
		for _, c := range append(append([]string{}, e.Props...), e.Seq...) {
			out = append(out, Edge{short[e.Name], e.Name, c})
		}
	}
	return out
}

// Wrap builds path[0..n-1] around the kid (body included); each ancestor gets its
// attributes but no other kids.
func Wrap(path []string, kids ...*Node) *Node {
	cur := kids
	for i := len(path) - 1; i >= 0; i-- {
		par := ""
		if i > 0 {
			par = path[i-1]
		}
		e := Lookup(path[i], par)
		n := &Node{Name: e.Name}
		for _, a := range e.Attrs {
			if a.Type != "p" {
				n.Set(a.Name, Values(a.Type)[0])
			}
		}
		n.Kids = cur
		cur = []*Node{n}
	}
	return cur[0]
}

// GrammarRels are the relationships every grammar document has (ids used by Values).
func GrammarRels() []Rel {
	return append(BaseRels(), Rel{"rId4", RelLink, "http://link/4?a=1&b=2", "External"}, Rel{"rId5", RelImage, "media/image1.png", ""},
		Rel{"rId11", RelImage, "media/pic b.jpeg", ""}, Rel{"rId12", RelLink, "http://link/12", "External"})
}

// GrammarMedia are the media parts of grammar documents.
func GrammarMedia() []ZipEntry {
	return []ZipEntry{{"word/media/image1.png", Img("png", 1, 1, 41)}, {"word/media/pic b.jpeg", Img("jpeg", 1, 1, 42)}}
}

// GrammarPackage builds a package around a document part.
func GrammarPackage(doc string, more ...ZipEntry) []byte {
	return MiniPackage(doc, RelsXML(GrammarRels()...), append(GrammarMedia(), more...)...)
}

// Bare builds an instance with only the attributes the schema requires.
func Bare(name, parent string) *Node {
	e := Lookup(name, parent)
	n := &Node{Name: e.Name}
	for _, a := range e.Attrs {
		if a.Req {
			n.Set(a.Name, Values(a.Type)[0])
		}
	}
	return n
}

// kids lists every child name.
func (e *Elem) kids() []string { return append(append([]string{}, e.Props...), e.Seq...) }

// KidNames lists every child name.
func (e *Elem) KidNames() []string { return e.kids() }
