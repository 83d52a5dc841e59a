From 7e2f10fb684b5c3be9b7ee128b5d1d70f4c9234e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:06 +0000
Subject: [PATCH 01/43] fix: keep leading and trailing white space of added
 text

---
 apitext.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/apitext.go b/apitext.go
index 6e3b879..a108ab5 100644
--- a/apitext.go
+++ b/apitext.go
@@ -52,9 +52,13 @@ func (p *Paragraph) AddText(text string) *Run {
 				c = append(c, &Tab{})
 			}
 			if k != "" {
-				c = append(c, &Text{
+				t := &Text{
 					Text: k,
-				})
+				}
+				if strings.TrimSpace(k) != k {
+					t.XMLSpace = "preserve" // or consumers trim it
+				}
+				c = append(c, t)
 			}
 		}
 	}
-- 
2.43.0


From 849c11ea9ce5a63f49d43d16f4a788954abb3088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:07 +0000
Subject: [PATCH 02/43] fix: parse paragraph numbering properties

---
 structpara.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/structpara.go b/structpara.go
index 8b5d31e..7962184 100644
--- a/structpara.go
+++ b/structpara.go
@@ -73,6 +73,13 @@ func (p *ParagraphProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 					return err
 				}
 				p.Spacing = &value
+			case "numPr":
+				var value NumProperties
+				err = d.DecodeElement(&value, &tt)
+				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
+					return err
+				}
+				p.NumProperties = &value
 			case "ind":
 				var value Ind
 				err = d.DecodeElement(&value, &tt)
-- 
2.43.0


From b8559a56960b9d7cb8fb392ac660ca54dd3e5e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:08 +0000
Subject: [PATCH 03/43] fix: write a table width type for tables with a width

---
 apitable.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apitable.go b/apitable.go
index afe1ed1..342f59b 100644
--- a/apitable.go
+++ b/apitable.go
@@ -58,7 +58,7 @@ func (f *Docx) AddTable(
 	wTableWidth := &WTableWidth{Type: "auto"}
 
 	if tableWidth > 0 {
-		wTableWidth = &WTableWidth{W: tableWidth}
+		wTableWidth = &WTableWidth{W: tableWidth, Type: "dxa"}
 	}
 
 	tbl := &Table{
@@ -130,7 +130,7 @@ func (f *Docx) AddTableTwips(
 	wTableWidth := &WTableWidth{Type: "auto"}
 
 	if tableWidth > 0 {
-		wTableWidth = &WTableWidth{W: tableWidth}
+		wTableWidth = &WTableWidth{W: tableWidth, Type: "dxa"}
 	}
 
 	tbl := &Table{
-- 
2.43.0


From 4817d4799f4fcf815f4458110313e65f83e0aaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:15 +0000
Subject: [PATCH 04/43] fix: skip unsupported content inside leaf elements

---
 structdrawing.go |  9 +++------
 structeffects.go | 12 ++++--------
 structrun.go     |  3 +--
 structsect.go    | 12 ++++--------
 structshape.go   | 12 ++++--------
 structtable.go   | 18 ++++++------------
 structtext.go    | 11 +++++++----
 7 files changed, 29 insertions(+), 48 deletions(-)

diff --git a/structdrawing.go b/structdrawing.go
index 78e348e..109a4cd 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -365,8 +365,7 @@ func (r *WPExtent) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
-	return err
+	return d.Skip()
 }
 
 // WPEffectExtent represents the effect extent of a drawing in a Word document.
@@ -397,8 +396,7 @@ func (r *WPEffectExtent) UnmarshalXML(d *xml.Decoder, start xml.StartElement) er
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
-	return err
+	return d.Skip()
 }
 
 // WPDocPr represents the document properties of a drawing in a Word document.
@@ -426,8 +424,7 @@ func (r *WPDocPr) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err := d.Token()
-	return err
+	return d.Skip()
 }
 
 // WPCNvGraphicFramePr represents the non-visual properties of a graphic frame.
diff --git a/structeffects.go b/structeffects.go
index bfe85aa..af41fea 100644
--- a/structeffects.go
+++ b/structeffects.go
@@ -145,8 +145,7 @@ func (s *Shade) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err := d.Token()
-	return err
+	return d.Skip()
 }
 
 // AdjustRightInd ...
@@ -273,8 +272,7 @@ func (r *NonVisualProperties) UnmarshalXML(d *xml.Decoder, start xml.StartElemen
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
-	return
+	return d.Skip()
 }
 
 // Spacing ...
@@ -320,8 +318,7 @@ func (s *Spacing) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err erro
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
-	return
+	return d.Skip()
 }
 
 // Ind ...
@@ -393,6 +390,5 @@ func (i *Ind) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err error) {
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
-	return
+	return d.Skip()
 }
diff --git a/structrun.go b/structrun.go
index 1c97952..a3791d8 100644
--- a/structrun.go
+++ b/structrun.go
@@ -343,6 +343,5 @@ func (f *RunFonts) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err := d.Token()
-	return err
+	return d.Skip()
 }
diff --git a/structsect.go b/structsect.go
index cc66873..88703b9 100644
--- a/structsect.go
+++ b/structsect.go
@@ -133,8 +133,7 @@ func (pgsz *PgSz) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
-	return err
+	return d.Skip()
 }
 
 // UnmarshalXML ...
@@ -183,8 +182,7 @@ func (pgmar *PgMar) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
-	return err
+	return d.Skip()
 }
 
 // UnmarshalXML ...
@@ -203,8 +201,7 @@ func (cols *Cols) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
-	return err
+	return d.Skip()
 }
 
 // UnmarshalXML ...
@@ -225,6 +222,5 @@ func (dg *DocGrid) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
-	return err
+	return d.Skip()
 }
diff --git a/structshape.go b/structshape.go
index 9298006..e868907 100644
--- a/structshape.go
+++ b/structshape.go
@@ -205,8 +205,7 @@ func (l *ASPLocks) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
-	return err
+	return d.Skip()
 }
 
 // ABlipFill represents a fill that contains a reference to an image.
@@ -318,8 +317,7 @@ func (t *ATile) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err error)
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
-	return err
+	return d.Skip()
 }
 
 // ALine represents a line element in a Word document.
@@ -495,8 +493,7 @@ func (r *AHeadEnd) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err := d.Token()
-	return err
+	return d.Skip()
 }
 
 // ATailEnd ...
@@ -522,8 +519,7 @@ func (r *ATailEnd) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err := d.Token()
-	return err
+	return d.Skip()
 }
 
 // WPSTextBox ...
diff --git a/structtable.go b/structtable.go
index 5a2727c..1fdd591 100644
--- a/structtable.go
+++ b/structtable.go
@@ -233,8 +233,7 @@ func (tp *WTablePositioningProperties) UnmarshalXML(d *xml.Decoder, start xml.St
 	}
 
 	// Consume the end element
-	_, err = d.Token()
-	return err
+	return d.Skip()
 }
 
 // WTableStyle represents the style of a table in a Word document.
@@ -257,8 +256,7 @@ func (t *WTableStyle) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
-	return err
+	return d.Skip()
 }
 
 // WTableWidth represents the width of a table in a Word document.
@@ -287,8 +285,7 @@ func (t *WTableWidth) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
-	return err
+	return d.Skip()
 }
 
 // WTableLook represents the look of a table in a Word document.
@@ -329,8 +326,7 @@ func (t *WTableLook) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error
 		}
 	}
 	// Consume the end element
-	_, err := d.Token()
-	return err
+	return d.Skip()
 }
 
 // WTableGrid is a structure that represents the table grid of a Word document.
@@ -394,8 +390,7 @@ func (g *WGridCol) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
-	return err
+	return d.Skip()
 }
 
 // WTableRow represents a row within a table.
@@ -807,8 +802,7 @@ func (t *WTableBorder) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 		}
 	}
 	// Consume the end element
-	_, err := d.Token()
-	return err
+	return d.Skip()
 }
 
 // WGridSpan represents the number of grid columns this cell should span.
diff --git a/structtext.go b/structtext.go
index 5dc4796..cd343a2 100644
--- a/structtext.go
+++ b/structtext.go
@@ -52,6 +52,11 @@ func (tb *Tabs) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 					return err
 				}
 				tb.Tabs = append(tb.Tabs, &value)
+				continue
+			}
+			err = d.Skip() // skip unsupported tags
+			if err != nil {
+				return err
 			}
 		}
 	}
@@ -84,8 +89,7 @@ func (t *Tab) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
-	return err
+	return d.Skip()
 }
 
 // BarterRabbet is <br> , if with type=page , add pagebreaks
@@ -103,8 +107,7 @@ func (f *BarterRabbet) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 		}
 	}
 	// Consume the end element
-	_, err := d.Token()
-	return err
+	return d.Skip()
 }
 
 // Text object contains the actual text
-- 
2.43.0


From e4f8bbe01b9dbd2d28f742f14490055f2229cf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:16 +0000
Subject: [PATCH 05/43] fix: keep all character data of a text

---
 structtext.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/structtext.go b/structtext.go
index cd343a2..9233be3 100644
--- a/structtext.go
+++ b/structtext.go
@@ -138,8 +138,14 @@ func (r *Text) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			return err
 		}
 
-		if tt, ok := t.(xml.CharData); ok {
-			r.Text = string(tt) // implicitly copy
+		switch tt := t.(type) {
+		case xml.CharData:
+			r.Text += string(tt) // implicitly copy
+		case xml.StartElement:
+			err = d.Skip() // skip unsupported tags
+			if err != nil {
+				return err
+			}
 		}
 	}
 
-- 
2.43.0


From fdf8f43beb1eee1b864a5ea34bb78971a2624e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:37 +0000
Subject: [PATCH 06/43] fix: read on/off attributes written as true/false

---
 helper.go        | 11 +++++++++++
 structdrawing.go | 18 +++++++++---------
 structshape.go   | 10 +++++-----
 structtable.go   | 17 ++++++++++-------
 4 files changed, 35 insertions(+), 21 deletions(-)

diff --git a/helper.go b/helper.go
index d91ad81..9e7774f 100644
--- a/helper.go
+++ b/helper.go
@@ -68,3 +68,14 @@ func GetInt(s string) (int, error) {
 	_, err = fmt.Sscanf(s, "%d", &v)
 	return v, err
 }
+
+// getOnOff reads an xsd:boolean or ST_OnOff attribute value as 1 or 0
+func getOnOff(s string) (int, error) {
+	switch s {
+	case "true", "on":
+		return 1, nil
+	case "false", "off":
+		return 0, nil
+	}
+	return GetInt(s)
+}
diff --git a/structdrawing.go b/structdrawing.go
index 109a4cd..9414ee9 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -452,7 +452,7 @@ func (w *WPCNvGraphicFramePr) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 				if v == "" {
 					continue
 				}
-				w.Locks.NoChangeAspect, err = GetInt(v)
+				w.Locks.NoChangeAspect, err = getOnOff(v)
 				if err != nil {
 					return err
 				}
@@ -733,7 +733,7 @@ func (p *PicCNvPicPr) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 				if v == "" {
 					continue
 				}
-				value.NoChangeAspect, err = GetInt(v)
+				value.NoChangeAspect, err = getOnOff(v)
 				if err != nil {
 					return err
 				}
@@ -970,9 +970,9 @@ func (a *AXfrm) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err error)
 		case "rot":
 			a.Rot, err = GetInt64(attr.Value)
 		case "flipH":
-			a.FlipH, err = GetInt(attr.Value)
+			a.FlipH, err = getOnOff(attr.Value)
 		case "flipV":
-			a.FlipV, err = GetInt(attr.Value)
+			a.FlipV, err = getOnOff(attr.Value)
 		default:
 			// ignore other attributes
 		}
@@ -1208,17 +1208,17 @@ func (r *WPAnchor) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 		case "distR":
 			r.DistR, err = GetInt64(tt.Value)
 		case "simplePos":
-			r.SimplePos, err = GetInt(tt.Value)
+			r.SimplePos, err = getOnOff(tt.Value)
 		case "relativeHeight":
 			r.RelativeHeight, err = GetInt(tt.Value)
 		case "behindDoc":
-			r.BehindDoc, err = GetInt(tt.Value)
+			r.BehindDoc, err = getOnOff(tt.Value)
 		case "locked":
-			r.Locked, err = GetInt(tt.Value)
+			r.Locked, err = getOnOff(tt.Value)
 		case "layoutInCell":
-			r.LayoutInCell, err = GetInt(tt.Value)
+			r.LayoutInCell, err = getOnOff(tt.Value)
 		case "allowOverlap":
-			r.AllowOverlap, err = GetInt(tt.Value)
+			r.AllowOverlap, err = getOnOff(tt.Value)
 		}
 		if err != nil {
 			return err
diff --git a/structshape.go b/structshape.go
index e868907..ef93048 100644
--- a/structshape.go
+++ b/structshape.go
@@ -147,7 +147,7 @@ func (w *WPSCNvSpPr) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err e
 	for _, attr := range start.Attr {
 		switch attr.Name.Local {
 		case "txBox":
-			w.TxBox, err = GetInt(attr.Value)
+			w.TxBox, err = getOnOff(attr.Value)
 			if err != nil {
 				return err
 			}
@@ -196,7 +196,7 @@ func (l *ASPLocks) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 	for _, attr := range start.Attr {
 		switch attr.Name.Local {
 		case "noChangeArrowheads":
-			l.NoChangeArrowheads, err = GetInt(attr.Value)
+			l.NoChangeArrowheads, err = getOnOff(attr.Value)
 			if err != nil {
 				return err
 			}
@@ -229,7 +229,7 @@ func (r *ABlipFill) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err er
 				return err
 			}
 		case "rotWithShape":
-			r.RotWithShape, err = GetInt(attr.Value)
+			r.RotWithShape, err = getOnOff(attr.Value)
 			if err != nil {
 				return err
 			}
@@ -642,9 +642,9 @@ func (r *WPSBodyPr) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		case "anchor":
 			r.Anchor = attr.Value
 		case "anchorCtr":
-			r.AnchorCtr, _ = GetInt(attr.Value)
+			r.AnchorCtr, _ = getOnOff(attr.Value)
 		case "upright":
-			r.Upright, _ = GetInt(attr.Value)
+			r.Upright, _ = getOnOff(attr.Value)
 		default:
 			// ignore other attributes
 		}
diff --git a/structtable.go b/structtable.go
index 1fdd591..0aff4ad 100644
--- a/structtable.go
+++ b/structtable.go
@@ -301,7 +301,7 @@ type WTableLook struct {
 }
 
 // UnmarshalXML ...
-func (t *WTableLook) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
+func (t *WTableLook) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err error) {
 	for _, attr := range start.Attr {
 		if attr.Value == "" {
 			continue
@@ -310,20 +310,23 @@ func (t *WTableLook) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error
 		case "val":
 			t.Val = attr.Value
 		case "firstRow":
-			t.FirstRow = int(attr.Value[0] - '0')
+			t.FirstRow, err = getOnOff(attr.Value)
 		case "lastRow":
-			t.LastRow = int(attr.Value[0] - '0')
+			t.LastRow, err = getOnOff(attr.Value)
 		case "firstColumn":
-			t.FirstCol = int(attr.Value[0] - '0')
+			t.FirstCol, err = getOnOff(attr.Value)
 		case "lastColumn":
-			t.LastCol = int(attr.Value[0] - '0')
+			t.LastCol, err = getOnOff(attr.Value)
 		case "noHBand":
-			t.NoHBand = int(attr.Value[0] - '0')
+			t.NoHBand, err = getOnOff(attr.Value)
 		case "noVBand":
-			t.NoVBand = int(attr.Value[0] - '0')
+			t.NoVBand, err = getOnOff(attr.Value)
 		default:
 			// ignore other attributes
 		}
+		if err != nil {
+			return err
+		}
 	}
 	// Consume the end element
 	return d.Skip()
-- 
2.43.0


From d5c08b1510145c49ce3d1d215ced5146d74241e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:38 +0000
Subject: [PATCH 07/43] fix: keep the meaning of on/off formatting

---
 structeffects.go |  4 +++-
 structpara.go    | 56 +++++++++++++++++++++---------------------------
 structrun.go     | 11 +++++++---
 3 files changed, 35 insertions(+), 36 deletions(-)

diff --git a/structeffects.go b/structeffects.go
index af41fea..bc3ef78 100644
--- a/structeffects.go
+++ b/structeffects.go
@@ -60,11 +60,13 @@ type SizeCs struct {
 // Bold ...
 type Bold struct {
 	XMLName xml.Name `xml:"w:b,omitempty"`
+	Val     string   `xml:"w:val,attr,omitempty"`
 }
 
 // Italic ...
 type Italic struct {
 	XMLName xml.Name `xml:"w:i,omitempty"`
+	Val     string   `xml:"w:val,attr,omitempty"`
 }
 
 // Underline ...
@@ -113,7 +115,7 @@ type VertAlign struct {
 // Strike ...
 type Strike struct {
 	XMLName xml.Name `xml:"w:strike,omitempty"`
-	Val     string   `xml:"w:val,attr"`
+	Val     string   `xml:"w:val,attr,omitempty"`
 }
 
 // Shade is an element that represents a shading pattern applied to a document element.
diff --git a/structpara.go b/structpara.go
index 7962184..e02991e 100644
--- a/structpara.go
+++ b/structpara.go
@@ -119,47 +119,39 @@ func (p *ParagraphProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 			case "textAlignment":
 				p.TextAlignment = &TextAlignment{Val: getAtt(tt.Attr, "val")}
 			case "adjustRightInd":
-				var value AdjustRightInd
-				v := getAtt(tt.Attr, "val")
-				if v == "" {
-					continue
-				}
-				value.Val, err = GetInt(v)
-				if err != nil {
-					return err
+				value := AdjustRightInd{Val: 1} // on unless val says otherwise
+				if v := getAtt(tt.Attr, "val"); v != "" {
+					value.Val, err = getOnOff(v)
+					if err != nil {
+						return err
+					}
 				}
 				p.AdjustRightInd = &value
 			case "snapToGrid":
-				var value SnapToGrid
-				v := getAtt(tt.Attr, "val")
-				if v == "" {
-					continue
-				}
-				value.Val, err = GetInt(v)
-				if err != nil {
-					return err
+				value := SnapToGrid{Val: 1} // on unless val says otherwise
+				if v := getAtt(tt.Attr, "val"); v != "" {
+					value.Val, err = getOnOff(v)
+					if err != nil {
+						return err
+					}
 				}
 				p.SnapToGrid = &value
 			case "kinsoku":
-				var value Kinsoku
-				v := getAtt(tt.Attr, "val")
-				if v == "" {
-					continue
-				}
-				value.Val, err = GetInt(v)
-				if err != nil {
-					return err
+				value := Kinsoku{Val: 1} // on unless val says otherwise
+				if v := getAtt(tt.Attr, "val"); v != "" {
+					value.Val, err = getOnOff(v)
+					if err != nil {
+						return err
+					}
 				}
 				p.Kinsoku = &value
 			case "overflowPunct":
-				var value OverflowPunct
-				v := getAtt(tt.Attr, "val")
-				if v == "" {
-					continue
-				}
-				value.Val, err = GetInt(v)
-				if err != nil {
-					return err
+				value := OverflowPunct{Val: 1} // on unless val says otherwise
+				if v := getAtt(tt.Attr, "val"); v != "" {
+					value.Val, err = getOnOff(v)
+					if err != nil {
+						return err
+					}
 				}
 				p.OverflowPunct = &value
 			default:
diff --git a/structrun.go b/structrun.go
index a3791d8..b1be397 100644
--- a/structrun.go
+++ b/structrun.go
@@ -240,11 +240,16 @@ func (r *RunProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 				}
 				r.Fonts = &value
 			case "b":
-				r.Bold = &Bold{}
+				r.Bold = &Bold{Val: getAtt(tt.Attr, "val")}
 			case "iCs":
-				r.ICs = &struct{}{}
+				switch getAtt(tt.Attr, "val") {
+				case "0", "false", "off":
+					r.ICs = nil
+				default:
+					r.ICs = &struct{}{}
+				}
 			case "i":
-				r.Italic = &Italic{}
+				r.Italic = &Italic{Val: getAtt(tt.Attr, "val")}
 			case "u":
 				var value Underline
 				value.Val = getAtt(tt.Attr, "val")
-- 
2.43.0


From 5b3e9c466f900c4c56f12b79711aa7bac7f63ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:18 +0000
Subject: [PATCH 08/43] fix: do not invent empty attributes

---
 structdrawing.go | 4 ++--
 structeffects.go | 2 +-
 structsect.go    | 2 +-
 structshape.go   | 6 +++---
 structtable.go   | 6 +++---
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/structdrawing.go b/structdrawing.go
index 9414ee9..4f9c088 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -403,7 +403,7 @@ func (r *WPEffectExtent) UnmarshalXML(d *xml.Decoder, start xml.StartElement) er
 type WPDocPr struct {
 	XMLName xml.Name `xml:"wp:docPr,omitempty"`
 	ID      int      `xml:"id,attr"`
-	Name    string   `xml:"name,attr,omitempty"`
+	Name    string   `xml:"name,attr"`
 }
 
 // UnmarshalXML ...
@@ -801,7 +801,7 @@ func (p *PICBlipFill) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 // ABlip represents the blip of a picture in a Word document.
 type ABlip struct {
 	XMLName     xml.Name `xml:"a:blip,omitempty"`
-	Embed       string   `xml:"r:embed,attr"`
+	Embed       string   `xml:"r:embed,attr,omitempty"`
 	Cstate      string   `xml:"cstate,attr,omitempty"`
 	AlphaModFix *AAlphaModFix
 }
diff --git a/structeffects.go b/structeffects.go
index bc3ef78..59c5ce1 100644
--- a/structeffects.go
+++ b/structeffects.go
@@ -176,7 +176,7 @@ type OverflowPunct struct {
 
 // ShapeProperties is a container element that represents the visual properties of a shape.
 type ShapeProperties struct {
-	BWMode string `xml:"bwMode,attr"`
+	BWMode string `xml:"bwMode,attr,omitempty"`
 
 	Xfrm      AXfrm
 	PrstGeom  APrstGeom
diff --git a/structsect.go b/structsect.go
index 88703b9..f1feea0 100644
--- a/structsect.go
+++ b/structsect.go
@@ -57,7 +57,7 @@ type Cols struct {
 
 // DocGrid show the document grid
 type DocGrid struct {
-	Type      string `xml:"w:type,attr"`
+	Type      string `xml:"w:type,attr,omitempty"`
 	LinePitch int    `xml:"w:linePitch,attr"`
 }
 
diff --git a/structshape.go b/structshape.go
index ef93048..6211754 100644
--- a/structshape.go
+++ b/structshape.go
@@ -289,8 +289,8 @@ type ATile struct {
 	TY      int64    `xml:"ty,attr"`
 	SX      int64    `xml:"sx,attr"`
 	SY      int64    `xml:"sy,attr"`
-	Flip    string   `xml:"flip,attr"`
-	Algn    string   `xml:"algn,attr"`
+	Flip    string   `xml:"flip,attr,omitempty"`
+	Algn    string   `xml:"algn,attr,omitempty"`
 }
 
 // UnmarshalXML ...
@@ -467,7 +467,7 @@ type APrstDash struct {
 // AMiter ...
 type AMiter struct {
 	XMLName xml.Name `xml:"a:miter,omitempty"`
-	Limit   string   `xml:"lim,attr"`
+	Limit   string   `xml:"lim,attr,omitempty"`
 }
 
 // AHeadEnd ...
diff --git a/structtable.go b/structtable.go
index 0aff4ad..f708193 100644
--- a/structtable.go
+++ b/structtable.go
@@ -263,7 +263,7 @@ func (t *WTableStyle) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err
 type WTableWidth struct {
 	XMLName xml.Name `xml:"w:tblW,omitempty"`
 	W       int64    `xml:"w:w,attr"`
-	Type    string   `xml:"w:type,attr"`
+	Type    string   `xml:"w:type,attr,omitempty"`
 }
 
 // UnmarshalXML ...
@@ -291,7 +291,7 @@ func (t *WTableWidth) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err
 // WTableLook represents the look of a table in a Word document.
 type WTableLook struct {
 	XMLName  xml.Name `xml:"w:tblLook,omitempty"`
-	Val      string   `xml:"w:val,attr"`
+	Val      string   `xml:"w:val,attr,omitempty"`
 	FirstRow int      `xml:"w:firstRow,attr"`
 	LastRow  int      `xml:"w:lastRow,attr"`
 	FirstCol int      `xml:"w:firstColumn,attr"`
@@ -664,7 +664,7 @@ func (r *WTableCellProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement)
 type WTableCellWidth struct {
 	XMLName xml.Name `xml:"w:tcW,omitempty"`
 	W       int64    `xml:"w:w,attr"`
-	Type    string   `xml:"w:type,attr"`
+	Type    string   `xml:"w:type,attr,omitempty"`
 }
 
 // WvMerge element is used to specify whether a table cell
-- 
2.43.0


From 84c88ededae265a5a83cd236516c7f4f443c48cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:19 +0000
Subject: [PATCH 09/43] fix: keep the geometry of shapes as it is

---
 structdrawing.go | 9 +++++++++
 structeffects.go | 5 ++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/structdrawing.go b/structdrawing.go
index 4f9c088..be43db9 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -1077,6 +1077,15 @@ type APrstGeom struct {
 	AvLst   *struct{} `xml:"a:avLst,omitempty"`
 }
 
+// MarshalXML omits an absent geometry
+func (a APrstGeom) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
+	if a.Prst == "" && a.AvLst == nil {
+		return nil
+	}
+	type geom APrstGeom
+	return e.EncodeElement(geom(a), start)
+}
+
 // UnmarshalXML ...
 func (a *APrstGeom) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 	for _, attr := range start.Attr {
diff --git a/structeffects.go b/structeffects.go
index 59c5ce1..d0dc839 100644
--- a/structeffects.go
+++ b/structeffects.go
@@ -216,7 +216,10 @@ func (w *ShapeProperties) UnmarshalXML(d *xml.Decoder, start xml.StartElement) e
 					return err
 				}
 			case "prstGeom":
-				w.PrstGeom.Prst = getAtt(tt.Attr, "prst")
+				err = d.DecodeElement(&w.PrstGeom, &tt)
+				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
+					return err
+				}
 			case "solidFill":
 				var value ASolidFill
 				err = d.DecodeElement(&value, &tt)
-- 
2.43.0


From 0fdc27ae7088111c55c41a62daf715128cf908cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:21 +0000
Subject: [PATCH 10/43] fix: always declare the drawing namespaces that are
 used

---
 structcanvas.go  |  1 -
 structdrawing.go | 15 ++++-----------
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/structcanvas.go b/structcanvas.go
index fe08bb9..a18d2c4 100644
--- a/structcanvas.go
+++ b/structcanvas.go
@@ -76,7 +76,6 @@ func (c *WordprocessingCanvas) UnmarshalXML(d *xml.Decoder, _ xml.StartElement)
 				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
 					return err
 				}
-				value.XMLPIC = getAtt(tt.Attr, "pic")
 				c.Items = append(c.Items, &value)
 			case "wgp":
 				var value WordprocessingGroup
diff --git a/structdrawing.go b/structdrawing.go
index be43db9..08f0174 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -447,7 +447,7 @@ func (w *WPCNvGraphicFramePr) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 		if tt, ok := t.(xml.StartElement); ok {
 			switch tt.Name.Local {
 			case "graphicFrameLocks":
-				w.Locks.XMLA = getAtt(tt.Attr, "a")
+				w.Locks.XMLA = XMLNS_DRAWINGML_MAIN
 				v := getAtt(tt.Attr, "noChangeAspect")
 				if v == "" {
 					continue
@@ -485,15 +485,8 @@ type AGraphic struct {
 }
 
 // UnmarshalXML ...
-func (a *AGraphic) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
-	for _, attr := range start.Attr {
-		switch attr.Name.Local {
-		case "a":
-			a.XMLA = attr.Value
-		default:
-			// ignore other attributes
-		}
-	}
+func (a *AGraphic) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
+	a.XMLA = XMLNS_DRAWINGML_MAIN // the input may bind another prefix, or an ancestor
 	for {
 		t, err := d.Token()
 		if err == io.EOF {
@@ -566,7 +559,6 @@ func (a *AGraphicData) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
 					return err
 				}
-				value.XMLPIC = getAtt(tt.Attr, "pic")
 				a.Pic = &value
 			case "wsp":
 				var value WordprocessingShape
@@ -615,6 +607,7 @@ type Picture struct {
 
 // UnmarshalXML ...
 func (p *Picture) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
+	p.XMLPIC = XMLNS_DRAWINGML_PICTURE // the input may bind another prefix, or an ancestor
 	for {
 		t, err := d.Token()
 		if err == io.EOF {
-- 
2.43.0


From 5b9cba46f40666ccd64099ff87beadd6c75aa647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:53 +0000
Subject: [PATCH 11/43] fix: read compatibility choices wherever white space or
 comments stand

---
 structrun.go | 71 ++++++++++++++++++++++++++++++++++------------------
 1 file changed, 46 insertions(+), 25 deletions(-)

diff --git a/structrun.go b/structrun.go
index b1be397..8a53b09 100644
--- a/structrun.go
+++ b/structrun.go
@@ -116,6 +116,7 @@ func (r *Run) parse(d *xml.Decoder, tt xml.StartElement) (child interface{}, err
 		child = &value
 	case "tab":
 		child = &Tab{}
+		err = d.Skip()
 	case "br":
 		var value BarterRabbet
 		err = d.DecodeElement(&value, &tt)
@@ -137,36 +138,31 @@ func (r *Run) parse(d *xml.Decoder, tt xml.StartElement) (child interface{}, err
 			return nil, nil
 		}
 		child = &value*/
-	altcont:
+		chosen := false
 		for {
-			tok, err1 := d.Token()
-			if err1 == io.EOF {
+			tok, err := d.Token()
+			if err == io.EOF {
 				break
 			}
-			if err1 != nil {
-				return nil, err1
+			if err != nil {
+				return nil, err
 			}
-
-			if ttt, ok := tok.(xml.StartElement); ok && ttt.Name.Local == "Choice" {
-				for _, attr := range ttt.Attr {
-					if attr.Name.Local == "Requires" {
-						if attr.Value == "wps" || attr.Value == "wpc" || attr.Value == "wpg" {
-							tok, err = d.Token() // go into choice
-							if err != nil {
-								return nil, err
-							}
-							if ttt, ok := tok.(xml.StartElement); ok {
-								child, err = r.parse(d, ttt)
-							}
-							break altcont
-						}
-						break
-					}
-				}
+			if _, ok := tok.(xml.EndElement); ok { // the end of the alternate content
+				break
+			}
+			ttt, ok := tok.(xml.StartElement)
+			if !ok {
+				continue
 			}
-			if et, ok := tok.(xml.EndElement); ok {
-				if et.Name.Local == "AlternateContent" {
-					break
+			if ttt.Name.Local == "Choice" && !chosen {
+				v := getAtt(ttt.Attr, "Requires")
+				if v == "wps" || v == "wpc" || v == "wpg" {
+					chosen = true
+					err = r.parsechoice(d) // go into choice
+					if err != nil {
+						return nil, err
+					}
+					continue
 				}
 			}
 			err = d.Skip() // skip unsupported tags
@@ -180,6 +176,31 @@ func (r *Run) parse(d *xml.Decoder, tt xml.StartElement) (child interface{}, err
 	return
 }
 
+// parsechoice adds the content of a choice to the run
+func (r *Run) parsechoice(d *xml.Decoder) error {
+	for {
+		tok, err := d.Token()
+		if err == io.EOF {
+			return nil
+		}
+		if err != nil {
+			return err
+		}
+		switch tt := tok.(type) {
+		case xml.StartElement:
+			child, err := r.parse(d, tt)
+			if err != nil {
+				return err
+			}
+			if child != nil {
+				r.Children = append(r.Children, child)
+			}
+		case xml.EndElement:
+			return nil // the end of the choice
+		}
+	}
+}
+
 // KeepElements keep named elems amd removes others
 //
 // names: *docx.Text *docx.Drawing *docx.Tab *docx.BarterRabbet
-- 
2.43.0


From 920e8a6df05d4381f989e8128539e690118ec328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:15 +0000
Subject: [PATCH 12/43] fix: keep the anchor of links

---
 structdoc.go  | 17 +++++++++--------
 structlink.go | 24 +++++++++++++++++++++++-
 structpara.go |  8 ++++----
 3 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/structdoc.go b/structdoc.go
index 4265fa4..1a4a220 100644
--- a/structdoc.go
+++ b/structdoc.go
@@ -315,15 +315,16 @@ func (p *Paragraph) copymedia(to *Docx) (np Paragraph) {
 			continue
 		}
 		if h, ok := pc.(*Hyperlink); ok {
-			tgt, err := p.file.ReferTarget(h.ID)
-			if err != nil {
-				continue
+			nh := *h
+			if h.hasrel() {
+				tgt, err := p.file.ReferTarget(h.ID)
+				if err != nil {
+					continue
+				}
+				nh.ID = to.addLinkRelation(tgt)
 			}
-			rid := to.addLinkRelation(tgt)
-			np.Children = append(np.Children, &Hyperlink{
-				ID:  rid,
-				Run: *h.Run.copymedia(to),
-			})
+			nh.Run = *h.Run.copymedia(to)
+			np.Children = append(np.Children, &nh)
 			continue
 		}
 		np.Children = append(np.Children, pc)
diff --git a/structlink.go b/structlink.go
index 3132b7d..d78568a 100644
--- a/structlink.go
+++ b/structlink.go
@@ -29,8 +29,30 @@ import (
 // Hyperlink element contains links
 type Hyperlink struct {
 	XMLName xml.Name `xml:"w:hyperlink,omitempty"`
-	ID      string   `xml:"r:id,attr"`
+	ID      string   `xml:"r:id,attr"` // ID is the relationship id, or the anchor if there is none
+	Anchor  string   `xml:"w:anchor,attr,omitempty"`
 	Run     Run
+
+	norel bool // norel means that the link had an anchor, but no relationship
+}
+
+// hasrel reports whether ID is a relationship id
+func (r *Hyperlink) hasrel() bool {
+	return !r.norel || r.ID != r.Anchor
+}
+
+// MarshalXML ...
+func (r Hyperlink) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
+	start.Name = xml.Name{Local: "w:hyperlink"}
+	link := struct {
+		ID     string `xml:"r:id,attr,omitempty"`
+		Anchor string `xml:"w:anchor,attr,omitempty"`
+		Run    *Run
+	}{Anchor: r.Anchor, Run: &r.Run}
+	if r.hasrel() {
+		link.ID = r.ID
+	}
+	return e.EncodeElement(link, start)
 }
 
 // UnmarshalXML ...
diff --git a/structpara.go b/structpara.go
index e02991e..157e837 100644
--- a/structpara.go
+++ b/structpara.go
@@ -261,11 +261,11 @@ func (p *Paragraph) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 				}
 				id := getAtt(tt.Attr, "id")
 				anchor := getAtt(tt.Attr, "anchor")
-				if id != "" {
-					value.ID = id
-				}
-				if anchor != "" {
+				value.ID = id
+				value.Anchor = anchor
+				if id == "" {
 					value.ID = anchor
+					value.norel = true
 				}
 				elem = &value
 			case "r":
-- 
2.43.0


From 4de4432536f2a4081b4a24e8a789e76d7bc9f225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:40 +0000
Subject: [PATCH 13/43] fix: keep the type of a cell width without w

---
 structtable.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/structtable.go b/structtable.go
index f708193..3350154 100644
--- a/structtable.go
+++ b/structtable.go
@@ -603,7 +603,7 @@ func (r *WTableCellProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement)
 		if tt, ok := t.(xml.StartElement); ok {
 			switch tt.Name.Local {
 			case "tcW":
-				r.TableCellWidth = new(WTableCellWidth)
+				r.TableCellWidth = &WTableCellWidth{Type: getAtt(tt.Attr, "type")}
 				v := getAtt(tt.Attr, "w")
 				if v == "" {
 					continue
@@ -612,7 +612,6 @@ func (r *WTableCellProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement)
 				if err != nil {
 					return err
 				}
-				r.TableCellWidth.Type = getAtt(tt.Attr, "type")
 			case "vMerge":
 				r.VMerge = &WvMerge{Val: getAtt(tt.Attr, "val")}
 			case "gridSpan":
-- 
2.43.0


From 4c41a089b70b4f374194e69996e0f12cc8332ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:10 +0000
Subject: [PATCH 14/43] fix: bind the prefix of default frame locks, keep bare
 picture locks

---
 structdrawing.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structdrawing.go b/structdrawing.go
index 08f0174..e8a205d 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -435,6 +435,7 @@ type WPCNvGraphicFramePr struct {
 
 // UnmarshalXML ...
 func (w *WPCNvGraphicFramePr) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
+	w.Locks.XMLA = XMLNS_DRAWINGML_MAIN // the input may bind another prefix, or an ancestor
 	for {
 		t, err := d.Token()
 		if err == io.EOF {
@@ -447,7 +448,6 @@ func (w *WPCNvGraphicFramePr) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 		if tt, ok := t.(xml.StartElement); ok {
 			switch tt.Name.Local {
 			case "graphicFrameLocks":
-				w.Locks.XMLA = XMLNS_DRAWINGML_MAIN
 				v := getAtt(tt.Attr, "noChangeAspect")
 				if v == "" {
 					continue
@@ -722,6 +722,7 @@ func (p *PicCNvPicPr) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 			switch tt.Name.Local {
 			case "picLocks":
 				var value APicLocks
+				p.Locks = &value
 				v := getAtt(tt.Attr, "noChangeAspect")
 				if v == "" {
 					continue
@@ -730,7 +731,6 @@ func (p *PicCNvPicPr) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 				if err != nil {
 					return err
 				}
-				p.Locks = &value
 			default:
 				err = d.Skip() // skip unsupported tags
 				if err != nil {
-- 
2.43.0


From 47e8ecfd4459c6e99c03cca46876b0079e21d074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:02 +0000
Subject: [PATCH 15/43] fix: copy drawings with all that they hold

---
 link.go          |   6 ++
 structcopy.go    | 210 +++++++++++++++++++++++++++++++++++++++++++++++
 structdrawing.go | 126 +++++-----------------------
 3 files changed, 236 insertions(+), 106 deletions(-)
 create mode 100644 structcopy.go

diff --git a/link.go b/link.go
index 46718f8..dfbb80a 100644
--- a/link.go
+++ b/link.go
@@ -66,6 +66,9 @@ func (f *Docx) addImageRelation(m Media) string {
 
 // ReferTarget gets the target for a reference
 func (f *Docx) ReferTarget(id string) (string, error) {
+	if f == nil { // the element does not belong to a document
+		return "", ErrRefIDNotFound
+	}
 	for _, a := range f.docRelation.Relationship {
 		if a.ID == id {
 			return a.Target, nil
@@ -76,6 +79,9 @@ func (f *Docx) ReferTarget(id string) (string, error) {
 
 // ReferID gets the rId from target
 func (f *Docx) ReferID(target string) (string, error) {
+	if f == nil { // the element does not belong to a document
+		return "", ErrRefIDNotFound
+	}
 	for _, a := range f.docRelation.Relationship {
 		if a.Target == target {
 			return a.ID, nil
diff --git a/structcopy.go b/structcopy.go
new file mode 100644
index 0000000..20bd8b0
--- /dev/null
+++ b/structcopy.go
@@ -0,0 +1,210 @@
+/*
+   Copyright (c) 2020 gingfrederik
+   Copyright (c) 2021 Gonzalo Fernandez-Victorio
+   Copyright (c) 2021 Basement Crowd Ltd (https://www.basementcrowd.com)
+   Copyright (c) 2023 Fumiama Minamoto (源文雨)
+
+   This program is free software: you can redistribute it and/or modify
+   it under the terms of the GNU Affero General Public License as published
+   by the Free Software Foundation, either version 3 of the License, or
+   (at your option) any later version.
+
+   This program is distributed in the hope that it will be useful,
+   but WITHOUT ANY WARRANTY; without even the implied warranty of
+   MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+   GNU Affero General Public License for more details.
+
+   You should have received a copy of the GNU Affero General Public License
+   along with this program.  If not, see <https://www.gnu.org/licenses/>.
+*/
+
+package docx
+
+import (
+	"strconv"
+	"strings"
+	"sync/atomic"
+)
+
+// mediaof gets the media that a reference denotes
+func (f *Docx) mediaof(rid string) (*Media, error) {
+	tgt, err := f.ReferTarget(rid)
+	if err != nil {
+		return nil, err
+	}
+	tgt = strings.TrimPrefix(tgt, "/word/") // absolute target
+	if !strings.HasPrefix(tgt, "media/") {
+		return nil, ErrRefTargetNotFound
+	}
+	m := f.Media(tgt[len("media/"):])
+	if m == nil {
+		return nil, ErrRefTargetNotFound
+	}
+	return m, nil
+}
+
+// copymedia copies the graphic with all that it refers to
+func (a *AGraphic) copymedia(docpr *WPDocPr, from, to *Docx) (*AGraphic, *WPDocPr, error) {
+	if docpr != nil {
+		docpr = &WPDocPr{
+			ID:   int(atomic.AddUintptr(&to.docID, 1)),
+			Name: docpr.Name,
+		}
+	}
+	if a == nil {
+		return nil, docpr, nil
+	}
+	grph := *a
+	grph.file = to
+	if a.GraphicData == nil {
+		return &grph, docpr, nil
+	}
+	data := *a.GraphicData
+	data.file = to
+	grph.GraphicData = &data
+	if data.Pic != nil {
+		pic, err := data.Pic.copymedia(from, to)
+		if err != nil {
+			return nil, nil, err
+		}
+		id := int(to.IncreaseID("图片"))
+		name := "图片 " + strconv.Itoa(id)
+		if docpr == nil {
+			docpr = &WPDocPr{ID: int(atomic.AddUintptr(&to.docID, 1))}
+		}
+		docpr.Name = name
+		nonvisual := PICNonVisualPicProperties{}
+		if pic.NonVisualPicProperties != nil {
+			nonvisual = *pic.NonVisualPicProperties
+		}
+		nonvisual.NonVisualDrawingProperties.ID = id
+		nonvisual.NonVisualDrawingProperties.Name = name
+		pic.NonVisualPicProperties = &nonvisual
+		data.Pic = pic
+	}
+	data.Shape = data.Shape.copymedia(from, to)
+	data.Canvas = data.Canvas.copymedia(from, to)
+	data.Group = data.Group.copymedia(from, to)
+	return &grph, docpr, nil
+}
+
+func (a *ABlip) copymedia(from, to *Docx) (ABlip, error) {
+	blip := *a
+	if a.Embed == "" {
+		return blip, nil
+	}
+	blip.Embed = ""
+	m, err := from.mediaof(a.Embed)
+	if err != nil {
+		return blip, err
+	}
+	blip.Embed = to.addImage(m.Name[strings.LastIndex(m.Name, ".")+1:], m.Data)
+	return blip, nil
+}
+
+func (p *Picture) copymedia(from, to *Docx) (*Picture, error) {
+	pic := *p
+	if p.SpPr != nil {
+		sppr := *p.SpPr
+		pic.SpPr = &sppr
+	}
+	if p.BlipFill == nil {
+		return &pic, nil
+	}
+	fill := *p.BlipFill
+	blip, err := p.BlipFill.Blip.copymedia(from, to)
+	fill.Blip = blip
+	pic.BlipFill = &fill
+	return &pic, err
+}
+
+func (s *ShapeProperties) copymedia(from, to *Docx) *ShapeProperties {
+	if s == nil {
+		return nil
+	}
+	sppr := *s
+	if s.BlipFill != nil {
+		fill := *s.BlipFill
+		if fill.Blip != nil {
+			blip, _ := fill.Blip.copymedia(from, to)
+			fill.Blip = &blip
+		}
+		sppr.BlipFill = &fill
+	}
+	return &sppr
+}
+
+func (w *WordprocessingShape) copymedia(from, to *Docx) *WordprocessingShape {
+	if w == nil {
+		return nil
+	}
+	shape := *w
+	shape.file = to
+	shape.SpPr = w.SpPr.copymedia(from, to)
+	if w.TextBox != nil {
+		box := *w.TextBox
+		box.file = to
+		if box.Content != nil {
+			content := *box.Content
+			content.file = to
+			content.Paragraphs = make([]Paragraph, len(box.Content.Paragraphs))
+			for i := range content.Paragraphs {
+				content.Paragraphs[i] = box.Content.Paragraphs[i].copymedia(to)
+			}
+			box.Content = &content
+		}
+		shape.TextBox = &box
+	}
+	return &shape
+}
+
+func (c *WordprocessingCanvas) copymedia(from, to *Docx) *WordprocessingCanvas {
+	if c == nil {
+		return nil
+	}
+	canvas := *c
+	canvas.file = to
+	canvas.Items = copymediaof(c.Items, from, to)
+	return &canvas
+}
+
+func (w *WordprocessingGroup) copymedia(from, to *Docx) *WordprocessingGroup {
+	if w == nil {
+		return nil
+	}
+	group := *w
+	group.file = to
+	group.GroupShapeProperties = w.GroupShapeProperties.copymedia(from, to)
+	group.Elems = copymediaof(w.Elems, from, to)
+	return &group
+}
+
+func (w *WPGGroupShape) copymedia(from, to *Docx) *WPGGroupShape {
+	group := *w
+	group.file = to
+	group.GroupShapeProperties = w.GroupShapeProperties.copymedia(from, to)
+	group.Elems = copymediaof(w.Elems, from, to)
+	return &group
+}
+
+// copymediaof copies the elements of a canvas or group
+func copymediaof(elems []interface{}, from, to *Docx) []interface{} {
+	nelems := make([]interface{}, 0, len(elems))
+	for _, e := range elems {
+		switch o := e.(type) {
+		case *Picture:
+			pic, _ := o.copymedia(from, to)
+			e = pic
+		case *WordprocessingShape:
+			e = o.copymedia(from, to)
+		case *WordprocessingCanvas:
+			e = o.copymedia(from, to)
+		case *WordprocessingGroup:
+			e = o.copymedia(from, to)
+		case *WPGGroupShape:
+			e = o.copymedia(from, to)
+		}
+		nelems = append(nelems, e)
+	}
+	return nelems
+}
diff --git a/structdrawing.go b/structdrawing.go
index e8a205d..d453c6d 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -25,9 +25,7 @@ import (
 	"encoding/hex"
 	"encoding/xml"
 	"io"
-	"strconv"
 	"strings"
-	"sync/atomic"
 )
 
 //nolint:revive,stylecheck
@@ -284,61 +282,19 @@ func (r *WPInline) String() string {
 }
 
 func (r *WPInline) copymedia(to *Docx) *WPInline {
-	if r.Graphic.GraphicData.Pic != nil {
-		if r.Graphic.GraphicData.Pic.BlipFill != nil {
-			tgt, err := r.file.ReferTarget(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
-			if err != nil {
-				return nil
-			}
-			format := tgt[strings.LastIndex(tgt, ".")+1:]
-			idn := int(atomic.AddUintptr(&to.docID, 1))
-			id := int(to.IncreaseID("图片"))
-			ids := strconv.Itoa(id)
-			m := r.file.Media(tgt[6:])
-			if m == nil {
-				return nil
-			}
-			rid := to.addImage(format, m.Data)
-			inln := *r
-			grph := *r.Graphic
-			inln.Graphic = &grph
-			grphdata := *r.Graphic.GraphicData
-			grph.GraphicData = &grphdata
-			pic := *r.Graphic.GraphicData.Pic
-			grphdata.Pic = &pic
-			grphdata.file = to
-			grph.file = to
-			inln.file = to
-
-			inln.DocPr = &WPDocPr{
-				ID:   idn,
-				Name: "图片 " + ids,
-			}
-			pic.NonVisualPicProperties = &PICNonVisualPicProperties{
-				NonVisualDrawingProperties: NonVisualProperties{
-					ID:   id,
-					Name: "图片 " + ids,
-				},
-				CNvPicPr: r.Graphic.GraphicData.Pic.NonVisualPicProperties.CNvPicPr,
-			}
-			pic.BlipFill = &PICBlipFill{
-				Blip: ABlip{
-					Embed:  rid,
-					Cstate: r.Graphic.GraphicData.Pic.BlipFill.Blip.Cstate,
-				},
-				Stretch: r.Graphic.GraphicData.Pic.BlipFill.Stretch,
-			}
-			return &inln
-		}
+	grph, docpr, err := r.Graphic.copymedia(r.DocPr, r.file, to)
+	if err != nil {
 		return nil
 	}
-	if r.Graphic.GraphicData.Shape != nil { // shape has no media
-		return r
-	}
-	if r.Graphic.GraphicData.Canvas != nil { //TODO: copy canvas media
-		return r
+	inln := *r
+	if r.Extent != nil {
+		ext := *r.Extent
+		inln.Extent = &ext
 	}
-	return nil
+	inln.DocPr = docpr
+	inln.Graphic = grph
+	inln.file = to
+	return &inln
 }
 
 // WPExtent represents the extent of a drawing in a Word document.
@@ -1373,61 +1329,19 @@ func (r *WPAnchor) String() string {
 }
 
 func (r *WPAnchor) copymedia(to *Docx) *WPAnchor {
-	if r.Graphic.GraphicData.Pic != nil {
-		if r.Graphic.GraphicData.Pic.BlipFill != nil {
-			tgt, err := r.file.ReferTarget(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
-			if err != nil {
-				return nil
-			}
-			format := tgt[strings.LastIndex(tgt, ".")+1:]
-			idn := int(atomic.AddUintptr(&to.docID, 1))
-			id := int(to.IncreaseID("图片"))
-			ids := strconv.Itoa(id)
-			m := r.file.Media(tgt[6:])
-			if m == nil {
-				return nil
-			}
-			rid := to.addImage(format, m.Data)
-			anch := *r
-			grph := *r.Graphic
-			anch.Graphic = &grph
-			grphdata := *r.Graphic.GraphicData
-			grph.GraphicData = &grphdata
-			pic := *r.Graphic.GraphicData.Pic
-			grphdata.Pic = &pic
-			grphdata.file = to
-			grph.file = to
-			anch.file = to
-
-			anch.DocPr = &WPDocPr{
-				ID:   idn,
-				Name: "图片 " + ids,
-			}
-			pic.NonVisualPicProperties = &PICNonVisualPicProperties{
-				NonVisualDrawingProperties: NonVisualProperties{
-					ID:   id,
-					Name: "图片 " + ids,
-				},
-				CNvPicPr: r.Graphic.GraphicData.Pic.NonVisualPicProperties.CNvPicPr,
-			}
-			pic.BlipFill = &PICBlipFill{
-				Blip: ABlip{
-					Embed:  rid,
-					Cstate: r.Graphic.GraphicData.Pic.BlipFill.Blip.Cstate,
-				},
-				Stretch: r.Graphic.GraphicData.Pic.BlipFill.Stretch,
-			}
-			return &anch
-		}
+	grph, docpr, err := r.Graphic.copymedia(r.DocPr, r.file, to)
+	if err != nil {
 		return nil
 	}
-	if r.Graphic.GraphicData.Shape != nil { // shape has no media
-		return r
-	}
-	if r.Graphic.GraphicData.Canvas != nil { //TODO: copy canvas media
-		return r
+	anch := *r
+	if r.Extent != nil {
+		ext := *r.Extent
+		anch.Extent = &ext
 	}
-	return nil
+	anch.DocPr = docpr
+	anch.Graphic = grph
+	anch.file = to
+	return &anch
 }
 
 // WPSimplePos represents the position of an object in a Word document.
-- 
2.43.0


From fefb0ce902c5381610e04b251c396d49d875480d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:31 +0000
Subject: [PATCH 16/43] fix: tie added drawings to their document

---
 apidrawing.go | 4 ++++
 apishape.go   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/apidrawing.go b/apidrawing.go
index e2e7c61..220c716 100644
--- a/apidrawing.go
+++ b/apidrawing.go
@@ -49,6 +49,8 @@ func (p *Paragraph) AddInlineDrawing(pic []byte) (*Run, error) {
 	}
 	d := &Drawing{
 		Inline: &WPInline{
+			file: p.file,
+
 			// AnchorID: fmt.Sprintf("%08X", rand.Uint32()),
 			// EditID:   fmt.Sprintf("%08X", rand.Uint32()),
 
@@ -152,6 +154,8 @@ func (p *Paragraph) AddAnchorDrawing(pic []byte) (*Run, error) {
 	}
 	d := &Drawing{
 		Anchor: &WPAnchor{
+			file: p.file,
+
 			LayoutInCell: 1,
 			AllowOverlap: 1,
 
diff --git a/apishape.go b/apishape.go
index 4ca918a..c4845bc 100644
--- a/apishape.go
+++ b/apishape.go
@@ -31,6 +31,8 @@ func (p *Paragraph) AddInlineShape(w, h int64, name, bwMode, prst string, ln *AL
 	id := strconv.Itoa(int(p.file.IncreaseID(name)))
 	d := &Drawing{
 		Inline: &WPInline{
+			file: p.file,
+
 			Extent: &WPExtent{
 				CX: w,
 				CY: h,
@@ -88,6 +90,8 @@ func (p *Paragraph) AddAnchorShape(w, h int64, name, bwMode, prst string, ln *AL
 	id := strconv.Itoa(int(p.file.IncreaseID(name)))
 	d := &Drawing{
 		Anchor: &WPAnchor{
+			file: p.file,
+
 			LayoutInCell: 1,
 			AllowOverlap: 1,
 
-- 
2.43.0


From 8795c76a5368fd8b969b2ddc919c8e32a6767ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:32 +0000
Subject: [PATCH 17/43] fix: do not share formatting with copies

---
 structdoc.go | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/structdoc.go b/structdoc.go
index 1a4a220..e134383 100644
--- a/structdoc.go
+++ b/structdoc.go
@@ -295,6 +295,10 @@ func (r *Run) copymedia(to *Docx) *Run {
 	nr := *r
 	nr.Children = make([]interface{}, 0, len(r.Children))
 	nr.file = to
+	if r.RunProperties != nil {
+		pr := *r.RunProperties
+		nr.RunProperties = &pr
+	}
 	for _, rc := range r.Children {
 		if d, ok := rc.(*Drawing); ok {
 			nr.Children = append(nr.Children, d.copymedia(to))
@@ -309,6 +313,14 @@ func (p *Paragraph) copymedia(to *Docx) (np Paragraph) {
 	np = *p
 	np.Children = make([]interface{}, 0, len(p.Children))
 	np.file = to
+	if p.Properties != nil {
+		pr := *p.Properties
+		if pr.RunProperties != nil {
+			rpr := *pr.RunProperties
+			pr.RunProperties = &rpr
+		}
+		np.Properties = &pr
+	}
 	for _, pc := range p.Children {
 		if r, ok := pc.(*Run); ok {
 			np.Children = append(np.Children, r.copymedia(to))
@@ -336,14 +348,28 @@ func (t *Table) copymedia(to *Docx) (nt Table) {
 	nt = *t
 	nt.TableRows = make([]*WTableRow, 0, len(t.TableRows))
 	nt.file = to
+	if t.TableProperties != nil {
+		pr := *t.TableProperties
+		pr.Justification = pr.Justification.copy()
+		nt.TableProperties = &pr
+	}
 	for _, tr := range t.TableRows {
 		ntr := *tr
 		ntr.TableCells = make([]*WTableCell, 0, len(tr.TableCells))
 		ntr.file = to
+		if tr.TableRowProperties != nil {
+			pr := *tr.TableRowProperties
+			pr.Justification = pr.Justification.copy()
+			ntr.TableRowProperties = &pr
+		}
 		for _, tc := range tr.TableCells {
 			ntc := *tc
 			ntc.Paragraphs = make([]*Paragraph, 0, len(tc.Paragraphs))
 			ntc.file = to
+			if tc.TableCellProperties != nil {
+				pr := *tc.TableCellProperties
+				ntc.TableCellProperties = &pr
+			}
 			for _, p := range tc.Paragraphs {
 				np := p.copymedia(to)
 				ntc.Paragraphs = append(ntc.Paragraphs, &np)
@@ -355,6 +381,14 @@ func (t *Table) copymedia(to *Docx) (nt Table) {
 	return
 }
 
+func (j *Justification) copy() *Justification {
+	if j == nil {
+		return nil
+	}
+	nj := *j
+	return &nj
+}
+
 // AppendFile appends all contents in af to f
 func (f *Docx) AppendFile(af *Docx) {
 	for _, item := range af.Document.Body.Items {
-- 
2.43.0


From cfc3e84429fa9c5c6bdc6186bc3e7a27c6556291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:33 +0000
Subject: [PATCH 18/43] fix: string form of sparse drawings

---
 structdrawing.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/structdrawing.go b/structdrawing.go
index d453c6d..67a10c5 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -225,6 +225,9 @@ func (r *WPInline) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 
 // String ...
 func (r *WPInline) String() string {
+	if r.Graphic == nil || r.Graphic.GraphicData == nil {
+		return "![inln?](unknown)"
+	}
 	sb := strings.Builder{}
 	if r.Graphic.GraphicData.Pic != nil {
 		sb.WriteString("![inlnim ")
@@ -233,16 +236,18 @@ func (r *WPInline) String() string {
 			sb.WriteString(r.DocPr.Name)
 		case r.Graphic.GraphicData.Pic.NonVisualPicProperties != nil:
 			sb.WriteString(r.Graphic.GraphicData.Pic.NonVisualPicProperties.NonVisualDrawingProperties.Name)
-		default:
+		case r.Graphic.GraphicData.Pic.BlipFill != nil:
 			sb.WriteString(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
+		default:
+			sb.WriteString("nil")
 		}
 		sb.WriteString("](")
 		if r.Graphic.GraphicData.Pic.BlipFill != nil {
-			tgt, err := r.file.ReferTarget(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
+			m, err := r.file.mediaof(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
 			if err != nil {
 				sb.WriteString(err.Error())
 			} else {
-				h := md5.Sum(r.file.Media(tgt[6:]).Data)
+				h := md5.Sum(m.Data)
 				sb.WriteString(hex.EncodeToString(h[:]))
 			}
 		}
@@ -1279,16 +1284,18 @@ func (r *WPAnchor) String() string {
 				sb.WriteString(r.DocPr.Name)
 			case r.Graphic.GraphicData.Pic.NonVisualPicProperties != nil:
 				sb.WriteString(r.Graphic.GraphicData.Pic.NonVisualPicProperties.NonVisualDrawingProperties.Name)
-			default:
+			case r.Graphic.GraphicData.Pic.BlipFill != nil:
 				sb.WriteString(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
+			default:
+				sb.WriteString("nil")
 			}
 			sb.WriteString("](")
 			if r.Graphic.GraphicData.Pic.BlipFill != nil {
-				tgt, err := r.file.ReferTarget(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
+				m, err := r.file.mediaof(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
 				if err != nil {
 					sb.WriteString(err.Error())
 				} else {
-					h := md5.Sum(r.file.Media(tgt[6:]).Data)
+					h := md5.Sum(m.Data)
 					sb.WriteString(hex.EncodeToString(h[:]))
 				}
 			}
-- 
2.43.0


From 8487cd6af1c660a42df4e60e62af6772d6e1827a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:42 +0000
Subject: [PATCH 19/43] fix: keep all content when merging runs

---
 structtext.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/structtext.go b/structtext.go
index 9233be3..4db7b49 100644
--- a/structtext.go
+++ b/structtext.go
@@ -222,6 +222,9 @@ func MergeSamePropRunsOf(name ...string) RunMergeRule {
 		for _, n := range name {
 			x1 := rr1.FieldByName(n)
 			x2 := rr2.FieldByName(n)
+			if !x1.IsValid() { // no such property
+				continue
+			}
 			if x1.IsZero() && x2.IsZero() {
 				continue
 			}
@@ -263,7 +266,7 @@ func (p *Paragraph) MergeText(canmerge RunMergeRule) (np Paragraph) {
 				switch x := c.(type) {
 				case *Text:
 					if x.Text != "" {
-						t.Text += x.Text
+						t.merge(x)
 					}
 				default:
 					if t.Text != "" {
@@ -276,7 +279,10 @@ func (p *Paragraph) MergeText(canmerge RunMergeRule) (np Paragraph) {
 			if t.Text != "" {
 				r.Children = append(r.Children, t)
 			}
-			if prevrun != nil && canmerge(prevrun, &r) {
+			if prevrun != nil && r.InstrText == "" && canmerge(prevrun, &r) {
+				if prevrun.Space == "" {
+					prevrun.Space = r.Space
+				}
 				var prevtext *Text
 				noappend := false
 				if len(prevrun.Children) == 0 {
@@ -294,14 +300,14 @@ func (p *Paragraph) MergeText(canmerge RunMergeRule) (np Paragraph) {
 					switch x := c.(type) {
 					case *Text:
 						if x.Text != "" {
-							prevtext.Text += x.Text
+							prevtext.merge(x)
 						}
 					default:
 						if prevtext.Text != "" {
 							if noappend {
 								noappend = false
 							} else {
-								prevrun.Children = append(prevrun.Children, t)
+								prevrun.Children = append(prevrun.Children, prevtext)
 							}
 							prevtext = &Text{}
 						}
@@ -309,15 +315,24 @@ func (p *Paragraph) MergeText(canmerge RunMergeRule) (np Paragraph) {
 					}
 				}
 				if prevtext.Text != "" && !noappend {
-					prevrun.Children = append(prevrun.Children, t)
+					prevrun.Children = append(prevrun.Children, prevtext)
 				}
 			} else {
 				prevrun = &r
 				np.Children = append(np.Children, &r)
 			}
 		default:
+			prevrun = nil // runs on both sides are not contiguous
 			np.Children = append(np.Children, o)
 		}
 	}
 	return
 }
+
+// merge appends the content of x
+func (r *Text) merge(x *Text) {
+	r.Text += x.Text
+	if r.XMLSpace != "preserve" && x.XMLSpace != "" {
+		r.XMLSpace = x.XMLSpace
+	}
+}
-- 
2.43.0


From f58be9b145bfd57d628d3ae5af77dc3e48a6d769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:43 +0000
Subject: [PATCH 20/43] fix: render and copy the content of links

---
 structpara.go | 45 ++++++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/structpara.go b/structpara.go
index 157e837..2cebd22 100644
--- a/structpara.go
+++ b/structpara.go
@@ -191,6 +191,7 @@ func (p *Paragraph) String() string {
 			link, err := p.file.ReferTarget(id)
 			sb.WriteString("[")
 			sb.WriteString(text)
+			o.Run.writeText(&sb)
 			sb.WriteString("](")
 			if err != nil {
 				sb.WriteString(id)
@@ -199,25 +200,7 @@ func (p *Paragraph) String() string {
 			}
 			sb.WriteByte(')')
 		case *Run:
-			for _, c := range o.Children {
-				switch x := c.(type) {
-				case *Text:
-					sb.WriteString(x.Text)
-				case *Tab:
-					sb.WriteByte('\t')
-				case *BarterRabbet:
-					sb.WriteByte('\n')
-				case *Drawing:
-					if x.Inline != nil {
-						sb.WriteString(x.Inline.String())
-						continue
-					}
-					if x.Anchor != nil {
-						sb.WriteString(x.Anchor.String())
-						continue
-					}
-				}
-			}
+			o.writeText(&sb)
 		default:
 			continue
 		}
@@ -225,6 +208,29 @@ func (p *Paragraph) String() string {
 	return sb.String()
 }
 
+// writeText writes the plain text of the children of the run
+func (r *Run) writeText(sb *strings.Builder) {
+	for _, c := range r.Children {
+		switch x := c.(type) {
+		case *Text:
+			sb.WriteString(x.Text)
+		case *Tab:
+			sb.WriteByte('\t')
+		case *BarterRabbet:
+			sb.WriteByte('\n')
+		case *Drawing:
+			if x.Inline != nil {
+				sb.WriteString(x.Inline.String())
+				continue
+			}
+			if x.Anchor != nil {
+				sb.WriteString(x.Anchor.String())
+				continue
+			}
+		}
+	}
+}
+
 // UnmarshalXML ...
 func (p *Paragraph) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 	/*for _, attr := range start.Attr {
@@ -255,6 +261,7 @@ func (p *Paragraph) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 			switch tt.Name.Local {
 			case "hyperlink":
 				var value Hyperlink
+				value.Run.file = p.file
 				err = d.DecodeElement(&value, &tt)
 				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
 					return err
-- 
2.43.0


From 444324ce6a091bfc12cbfb70d15f6a0b16d31566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:01 +0000
Subject: [PATCH 21/43] fix: report errors of finishing the package, close
 template files

---
 docx.go |  7 ++++++-
 pack.go | 21 +++++++++------------
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/docx.go b/docx.go
index c7753f4..5587222 100644
--- a/docx.go
+++ b/docx.go
@@ -151,7 +151,12 @@ func LoadBodyItems(items []interface{}, media []Media) *Docx {
 // WriteTo allows to save a docx to a writer
 func (f *Docx) WriteTo(writer io.Writer) (_ int64, err error) {
 	zipWriter := zip.NewWriter(writer)
-	defer zipWriter.Close()
+	defer func() {
+		cerr := zipWriter.Close()
+		if err == nil {
+			err = cerr
+		}
+	}()
 
 	return 0, f.pack(zipWriter)
 }
diff --git a/pack.go b/pack.go
index b864691..68bc135 100644
--- a/pack.go
+++ b/pack.go
@@ -34,20 +34,17 @@ import (
 func (f *Docx) pack(zipWriter *zip.Writer) (err error) {
 	files := make(map[string]io.Reader, 64)
 
+	prefix := ""
 	if f.template != "" {
-		for _, name := range f.tmpfslst {
-			files[name], err = f.tmplfs.Open("xml/" + f.template + "/" + name)
-			if err != nil {
-				return
-			}
-		}
-	} else {
-		for _, name := range f.tmpfslst {
-			files[name], err = f.tmplfs.Open(name)
-			if err != nil {
-				return
-			}
+		prefix = "xml/" + f.template + "/"
+	}
+	for _, name := range f.tmpfslst {
+		file, err := f.tmplfs.Open(prefix + name)
+		if err != nil {
+			return err
 		}
+		defer file.Close()
+		files[name] = file
 	}
 
 	files["word/_rels/document.xml.rels"] = marshaller{data: &f.docRelation}
-- 
2.43.0


From 10c49592b8262e7b84446d7b494cc920c4dcadfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:03 +0000
Subject: [PATCH 22/43] fix: skip directory entries of packages

---
 unpack.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unpack.go b/unpack.go
index 8b7f8a9..1b9128c 100644
--- a/unpack.go
+++ b/unpack.go
@@ -44,6 +44,9 @@ func unpack(zipReader *zip.Reader) (docx *Docx, err error) {
 	docx.tmplfs = zipReader
 	docx.tmpfslst = make([]string, 0, 64)
 	for _, f := range zipReader.File {
+		if strings.HasSuffix(f.Name, "/") { // directories are no parts
+			continue
+		}
 		if f.Name == "word/_rels/document.xml.rels" {
 			err = docx.parseDocRelation(f)
 			if err != nil {
-- 
2.43.0


From 842690642fc6e89600c749107aa115359c1e7643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:04 +0000
Subject: [PATCH 23/43] fix: verify the checksum of the parsed parts

---
 unpack.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/unpack.go b/unpack.go
index 1b9128c..bea66c7 100644
--- a/unpack.go
+++ b/unpack.go
@@ -101,6 +101,10 @@ func (f *Docx) parseDocument(file *zip.File) error {
 	//TODO: find last docID
 	f.docID = 100000
 	err = xml.NewDecoder(zf).Decode(&f.Document)
+	if err != nil {
+		return err
+	}
+	_, err = io.Copy(io.Discard, zf) // verify the checksum
 	return err
 }
 
@@ -117,6 +121,10 @@ func (f *Docx) parseDocRelation(file *zip.File) error {
 	if err != nil {
 		return err
 	}
+	_, err = io.Copy(io.Discard, zf) // verify the checksum
+	if err != nil {
+		return err
+	}
 	for _, r := range f.docRelation.Relationship {
 		if !strings.HasPrefix(r.ID, "rId") {
 			return errors.New("invalid rel ID: " + r.ID)
-- 
2.43.0


From 7d38dcc3ff8a948192ace395c895ce48886e3b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:25 +0000
Subject: [PATCH 24/43] fix: do not reuse the name of an existing media

---
 image.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/image.go b/image.go
index 93183c2..5da15b1 100644
--- a/image.go
+++ b/image.go
@@ -28,6 +28,9 @@ import (
 // addImage add image to docx and return its rId
 func (f *Docx) addImage(format string, data []byte) string {
 	m := Media{Name: "image" + strconv.Itoa(int(atomic.AddUintptr(&f.imageID, 1))) + "." + format, Data: data}
+	for f.Media(m.Name) != nil { // used by a media that was not added here
+		m.Name = "image" + strconv.Itoa(int(atomic.AddUintptr(&f.imageID, 1))) + "." + format
+	}
 	f.addMedia(m)
 	return f.addImageRelation(m)
 }
-- 
2.43.0


From fadc96494e967a27dcddb8c11cdf8144257540b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:27 +0000
Subject: [PATCH 25/43] fix: refuse relationship ids that leave no room for new
 ones

---
 unpack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpack.go b/unpack.go
index bea66c7..e989d8d 100644
--- a/unpack.go
+++ b/unpack.go
@@ -129,7 +129,7 @@ func (f *Docx) parseDocRelation(file *zip.File) error {
 		if !strings.HasPrefix(r.ID, "rId") {
 			return errors.New("invalid rel ID: " + r.ID)
 		}
-		id, err := strconv.ParseUint(r.ID[3:], 10, 64)
+		id, err := strconv.ParseUint(r.ID[3:], 10, strconv.IntSize-2) // leave room for new ids
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From fd521911065f5685273358678e31b15d1778b5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:49 +0000
Subject: [PATCH 26/43] fix: resolve the references of loaded items

---
 docx.go       |  7 ++++++-
 structcopy.go |  2 +-
 structdoc.go  | 26 +++++++++++++++-----------
 3 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/docx.go b/docx.go
index 5587222..ce58f5f 100644
--- a/docx.go
+++ b/docx.go
@@ -113,7 +113,6 @@ func LoadBodyItems(items []interface{}, media []Media) *Docx {
 			XMLWPS: XMLNS_WPS,
 			XMLWPC: XMLNS_WPC,
 			XMLWPG: XMLNS_WPG,
-			Body:   Body{Items: items},
 		},
 		docRelation: Relationships{
 			Xmlns: XMLNS_REL,
@@ -145,6 +144,12 @@ func LoadBodyItems(items []interface{}, media []Media) *Docx {
 		doc.mediaNameIdx[m.Name] = i
 	}
 	doc.slowIDs["图片"] = uintptr(len(media) + 1)
+	// the items may refer to the document that they are taken from
+	loaded := make([]interface{}, 0, len(items))
+	for _, item := range items {
+		loaded = append(loaded, copyitem(item, doc))
+	}
+	doc.Document.Body.Items = loaded
 	return doc
 }
 
diff --git a/structcopy.go b/structcopy.go
index 20bd8b0..80147ae 100644
--- a/structcopy.go
+++ b/structcopy.go
@@ -90,7 +90,7 @@ func (a *AGraphic) copymedia(docpr *WPDocPr, from, to *Docx) (*AGraphic, *WPDocP
 
 func (a *ABlip) copymedia(from, to *Docx) (ABlip, error) {
 	blip := *a
-	if a.Embed == "" {
+	if a.Embed == "" || from == nil {
 		return blip, nil
 	}
 	blip.Embed = ""
diff --git a/structdoc.go b/structdoc.go
index e134383..6fcb2f3 100644
--- a/structdoc.go
+++ b/structdoc.go
@@ -328,7 +328,7 @@ func (p *Paragraph) copymedia(to *Docx) (np Paragraph) {
 		}
 		if h, ok := pc.(*Hyperlink); ok {
 			nh := *h
-			if h.hasrel() {
+			if h.hasrel() && p.file != nil {
 				tgt, err := p.file.ReferTarget(h.ID)
 				if err != nil {
 					continue
@@ -392,15 +392,19 @@ func (j *Justification) copy() *Justification {
 // AppendFile appends all contents in af to f
 func (f *Docx) AppendFile(af *Docx) {
 	for _, item := range af.Document.Body.Items {
-		switch o := item.(type) {
-		case *Paragraph:
-			np := o.copymedia(f)
-			f.Document.Body.Items = append(f.Document.Body.Items, &np)
-		case *Table:
-			nt := o.copymedia(f)
-			f.Document.Body.Items = append(f.Document.Body.Items, &nt)
-		default:
-			f.Document.Body.Items = append(f.Document.Body.Items, o)
-		}
+		f.Document.Body.Items = append(f.Document.Body.Items, copyitem(item, f))
+	}
+}
+
+// copyitem copies a body item with all that it refers to
+func copyitem(item interface{}, to *Docx) interface{} {
+	switch o := item.(type) {
+	case *Paragraph:
+		np := o.copymedia(to)
+		return &np
+	case *Table:
+		nt := o.copymedia(to)
+		return &nt
 	}
+	return item
 }
-- 
2.43.0


From 74a1706c7c95872278c394c813ccab4d160be64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:50 +0000
Subject: [PATCH 27/43] fix: give drawings ids not used in the parsed document

---
 id.go            | 7 +++++++
 structdrawing.go | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/id.go b/id.go
index 31b6157..33b3da9 100644
--- a/id.go
+++ b/id.go
@@ -29,3 +29,10 @@ func (f *Docx) IncreaseID(name string) (n uintptr) {
 	f.slowIDsMu.Unlock()
 	return
 }
+
+// usedocid makes new drawings get larger ids than pr
+func (f *Docx) usedocid(pr *WPDocPr) {
+	if f != nil && pr.ID > 0 && f.docID < uintptr(pr.ID) {
+		f.docID = uintptr(pr.ID)
+	}
+}
diff --git a/structdrawing.go b/structdrawing.go
index 67a10c5..7612374 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -196,6 +196,7 @@ func (r *WPInline) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
 					return err
 				}
+				r.file.usedocid(r.DocPr)
 			case "cNvGraphicFramePr":
 				var value WPCNvGraphicFramePr
 				err = d.DecodeElement(&value, &tt)
@@ -1248,6 +1249,7 @@ func (r *WPAnchor) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
 					return err
 				}
+				r.file.usedocid(r.DocPr)
 			case "cNvGraphicFramePr":
 				r.CNvGraphicFramePr = new(WPCNvGraphicFramePr)
 				err = d.DecodeElement(r.CNvGraphicFramePr, &tt)
-- 
2.43.0


From 2f73328a99ff304f96b43a103ad117ee3a432bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:51 +0000
Subject: [PATCH 28/43] fix: write the namespace of relationships

---
 unpack.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unpack.go b/unpack.go
index e989d8d..a390503 100644
--- a/unpack.go
+++ b/unpack.go
@@ -41,6 +41,7 @@ func unpack(zipReader *zip.Reader) (docx *Docx, err error) {
 	docx = new(Docx)
 	docx.mediaNameIdx = make(map[string]int, 64)
 	docx.slowIDs = make(map[string]uintptr, 64)
+	docx.docRelation.Xmlns = XMLNS_REL // in case that there is no relationships part
 	docx.tmplfs = zipReader
 	docx.tmpfslst = make([]string, 0, 64)
 	for _, f := range zipReader.File {
@@ -116,7 +117,7 @@ func (f *Docx) parseDocRelation(file *zip.File) error {
 	}
 	defer zf.Close()
 
-	f.docRelation.Xmlns = XMLNS_R
+	f.docRelation.Xmlns = XMLNS_REL
 	err = xml.NewDecoder(zf).Decode(&f.docRelation)
 	if err != nil {
 		return err
-- 
2.43.0


From 68cb74ae1aa635eb4070bcfe5710de6d263795f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:27 +0000
Subject: [PATCH 29/43] fix: declare the content type of added media

---
 contenttypes.go | 93 +++++++++++++++++++++++++++++++++++++++++++++++++
 pack.go         |  7 ++++
 2 files changed, 100 insertions(+)
 create mode 100644 contenttypes.go

diff --git a/contenttypes.go b/contenttypes.go
new file mode 100644
index 0000000..8056a61
--- /dev/null
+++ b/contenttypes.go
@@ -0,0 +1,93 @@
+/*
+   Copyright (c) 2020 gingfrederik
+   Copyright (c) 2021 Gonzalo Fernandez-Victorio
+   Copyright (c) 2021 Basement Crowd Ltd (https://www.basementcrowd.com)
+   Copyright (c) 2023 Fumiama Minamoto (源文雨)
+
+   This program is free software: you can redistribute it and/or modify
+   it under the terms of the GNU Affero General Public License as published
+   by the Free Software Foundation, either version 3 of the License, or
+   (at your option) any later version.
+
+   This program is distributed in the hope that it will be useful,
+   but WITHOUT ANY WARRANTY; without even the implied warranty of
+   MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+   GNU Affero General Public License for more details.
+
+   You should have received a copy of the GNU Affero General Public License
+   along with this program.  If not, see <https://www.gnu.org/licenses/>.
+*/
+
+package docx
+
+import (
+	"bytes"
+	"encoding/xml"
+	"io"
+	"strings"
+)
+
+//nolint:revive,stylecheck
+const (
+	XMLNS_CONTENT_TYPES = `http://schemas.openxmlformats.org/package/2006/content-types`
+	CONTENT_TYPES       = `[Content_Types].xml`
+)
+
+// addMediaTypes adds a default type for each media extension that r has no type for
+func (f *Docx) addMediaTypes(r io.Reader) (io.Reader, error) {
+	data, err := io.ReadAll(r)
+	if err != nil {
+		return nil, err
+	}
+	known := make(map[string]bool, 16)
+	d := xml.NewDecoder(bytes.NewReader(data))
+	end := int64(-1) // end is the position of the end tag of the root
+	for depth := 0; ; {
+		pos := d.InputOffset()
+		t, err := d.Token()
+		if err == io.EOF {
+			break
+		}
+		if err != nil {
+			return bytes.NewReader(data), nil // leave it as it is
+		}
+		switch tt := t.(type) {
+		case xml.StartElement:
+			depth++
+			switch tt.Name.Local {
+			case "Default":
+				known["."+strings.ToLower(getAtt(tt.Attr, "Extension"))] = true
+			case "Override":
+				known[strings.ToLower(getAtt(tt.Attr, "PartName"))] = true
+			}
+		case xml.EndElement:
+			depth--
+			if depth == 0 && bytes.HasPrefix(data[pos:], []byte("</")) {
+				end = pos
+			}
+		}
+	}
+	if end < 0 {
+		return bytes.NewReader(data), nil
+	}
+	var sb bytes.Buffer
+	sb.Write(data[:end])
+	for _, m := range f.media {
+		i := strings.LastIndexByte(m.Name, '.')
+		if i < 0 || known["/"+strings.ToLower(m.String())] {
+			continue
+		}
+		ext := strings.ToLower(m.Name[i:])
+		if known[ext] {
+			continue
+		}
+		known[ext] = true
+		sb.WriteString(`<Default xmlns="` + XMLNS_CONTENT_TYPES + `" Extension="`)
+		_ = xml.EscapeText(&sb, []byte(ext[1:]))
+		sb.WriteString(`" ContentType="image/`)
+		_ = xml.EscapeText(&sb, []byte(ext[1:]))
+		sb.WriteString(`"/>`)
+	}
+	sb.Write(data[end:])
+	return &sb, nil
+}
diff --git a/pack.go b/pack.go
index 68bc135..47014c3 100644
--- a/pack.go
+++ b/pack.go
@@ -47,6 +47,13 @@ func (f *Docx) pack(zipWriter *zip.Writer) (err error) {
 		files[name] = file
 	}
 
+	if ct, ok := files[CONTENT_TYPES]; ok {
+		files[CONTENT_TYPES], err = f.addMediaTypes(ct)
+		if err != nil {
+			return err
+		}
+	}
+
 	files["word/_rels/document.xml.rels"] = marshaller{data: &f.docRelation}
 	files["word/document.xml"] = marshaller{data: &f.Document}
 
-- 
2.43.0


From f690a1c532e6d2da83c0347c7b859957c297b35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:49 +0000
Subject: [PATCH 30/43] fix: refuse pictures without width or height

---
 apidrawing.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/apidrawing.go b/apidrawing.go
index 220c716..9d52988 100644
--- a/apidrawing.go
+++ b/apidrawing.go
@@ -22,6 +22,7 @@ package docx
 
 import (
 	"bytes"
+	"errors"
 	"os"
 	"strconv"
 	"sync/atomic"
@@ -29,12 +30,18 @@ import (
 	"github.com/fumiama/imgsz"
 )
 
+// ErrEmptyPicture is a picture without width or height
+var ErrEmptyPicture = errors.New("empty picture")
+
 // AddInlineDrawing adds inline drawing to paragraph
 func (p *Paragraph) AddInlineDrawing(pic []byte) (*Run, error) {
 	sz, format, err := imgsz.DecodeSize(bytes.NewReader(pic))
 	if err != nil {
 		return nil, err
 	}
+	if sz.Width <= 0 || sz.Height <= 0 {
+		return nil, ErrEmptyPicture
+	}
 	idn := int(atomic.AddUintptr(&p.file.docID, 1))
 	id := int(p.file.IncreaseID("图片"))
 	ids := strconv.Itoa(id)
@@ -140,6 +147,9 @@ func (p *Paragraph) AddAnchorDrawing(pic []byte) (*Run, error) {
 	if err != nil {
 		return nil, err
 	}
+	if sz.Width <= 0 || sz.Height <= 0 {
+		return nil, ErrEmptyPicture
+	}
 	idn := int(atomic.AddUintptr(&p.file.docID, 1))
 	id := int(p.file.IncreaseID("图片"))
 	ids := strconv.Itoa(id)
-- 
2.43.0


From 79cd52f5b9ba29b6bd917db563d49b739840acbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:50 +0000
Subject: [PATCH 31/43] fix: names of duplicated and split files

---
 cmd/main/main.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/main/main.go b/cmd/main/main.go
index ea83c3d..5d53aa6 100644
--- a/cmd/main/main.go
+++ b/cmd/main/main.go
@@ -229,6 +229,9 @@ func main() {
 	if *splitre != "" {
 		a := strings.LastIndex(*fileLocation, "/")
 		b := strings.LastIndex(*fileLocation, ".")
+		if b <= a { // no extension
+			b = len(*fileLocation)
+		}
 		for i, splitteddoc := range doc.SplitByParagraph(docx.SplitDocxByPlainTextRegex(regexp.MustCompile(*splitre))) {
 			name := (*fileLocation)[:a+1] + "unmarshal_" + (*fileLocation)[a+1:b] + "_split" + strconv.Itoa(i) + (*fileLocation)[b:]
 			f, err := os.Create(name)
@@ -248,8 +251,8 @@ func main() {
 	if *dupnum > 1 {
 		a := strings.LastIndex(*fileLocation, "/")
 		name := "dup_" + (*fileLocation)
-		if a > 0 {
-			name = (*fileLocation)[:a+1] + "dup_" + (*fileLocation)[a:]
+		if a >= 0 {
+			name = (*fileLocation)[:a+1] + "dup_" + (*fileLocation)[a+1:]
 		}
 		f, err := os.Create(name)
 		if err != nil {
-- 
2.43.0


From a89db4b316d9c16cfa75278559b1a1f1b7be9bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:01 +0000
Subject: [PATCH 32/43] fix: treat missing run properties as empty in merge
 rules

---
 structtext.go | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/structtext.go b/structtext.go
index 4db7b49..1b2d67c 100644
--- a/structtext.go
+++ b/structtext.go
@@ -168,14 +168,8 @@ func MergeSamePropRuns(r1, r2 *Run) bool {
 	if r1.RunProperties == r2.RunProperties {
 		return true
 	}
-	if r1.RunProperties == nil && r2.RunProperties != nil {
-		return false
-	}
-	if r1.RunProperties != nil && r2.RunProperties == nil {
-		return false
-	}
-	rr1 := reflect.ValueOf(r1.RunProperties).Elem()
-	rr2 := reflect.ValueOf(r2.RunProperties).Elem()
+	rr1 := r1.propvalue()
+	rr2 := r2.propvalue()
 	for i := 1; i < rr1.NumField(); i++ {
 		x1 := rr1.Field(i)
 		x2 := rr2.Field(i)
@@ -211,14 +205,8 @@ func MergeSamePropRunsOf(name ...string) RunMergeRule {
 		if r1.RunProperties == r2.RunProperties {
 			return true
 		}
-		if r1.RunProperties == nil && r2.RunProperties != nil {
-			return false
-		}
-		if r1.RunProperties != nil && r2.RunProperties == nil {
-			return false
-		}
-		rr1 := reflect.ValueOf(r1.RunProperties).Elem()
-		rr2 := reflect.ValueOf(r2.RunProperties).Elem()
+		rr1 := r1.propvalue()
+		rr2 := r2.propvalue()
 		for _, n := range name {
 			x1 := rr1.FieldByName(n)
 			x2 := rr2.FieldByName(n)
@@ -249,6 +237,14 @@ func MergeSamePropRunsOf(name ...string) RunMergeRule {
 	}
 }
 
+// propvalue is the value of the properties, where nil equals empty
+func (r *Run) propvalue() reflect.Value {
+	if r.RunProperties == nil {
+		return reflect.ValueOf(RunProperties{})
+	}
+	return reflect.ValueOf(r.RunProperties).Elem()
+}
+
 // MergeText will merge contiguous run texts in a paragraph into one run
 //
 //	note: np is not a deep-copy
-- 
2.43.0


From 6b96869ba627b26328daf4d49e94fa1172324bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:28 +0000
Subject: [PATCH 33/43] fix: refuse packages without main document

---
 unpack.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/unpack.go b/unpack.go
index a390503..d38a367 100644
--- a/unpack.go
+++ b/unpack.go
@@ -44,6 +44,7 @@ func unpack(zipReader *zip.Reader) (docx *Docx, err error) {
 	docx.docRelation.Xmlns = XMLNS_REL // in case that there is no relationships part
 	docx.tmplfs = zipReader
 	docx.tmpfslst = make([]string, 0, 64)
+	hasdoc := false
 	for _, f := range zipReader.File {
 		if strings.HasSuffix(f.Name, "/") { // directories are no parts
 			continue
@@ -60,6 +61,7 @@ func unpack(zipReader *zip.Reader) (docx *Docx, err error) {
 			if err != nil {
 				return
 			}
+			hasdoc = true
 			continue
 		}
 		if strings.HasPrefix(f.Name, MEDIA_FOLDER) {
@@ -72,6 +74,9 @@ func unpack(zipReader *zip.Reader) (docx *Docx, err error) {
 		// fill remaining files into tmpfslst
 		docx.tmpfslst = append(docx.tmpfslst, f.Name)
 	}
+	if !hasdoc {
+		return docx, errors.New("word/document.xml not found")
+	}
 	//TODO: find last imageID
 	docx.imageID = 100000
 	return
-- 
2.43.0


From 30fb1ed744005df5d192adbe4ee5d4c244339409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:00 +0000
Subject: [PATCH 34/43] fix: report unreported short writes

---
 docx.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/docx.go b/docx.go
index ce58f5f..9182c07 100644
--- a/docx.go
+++ b/docx.go
@@ -155,7 +155,7 @@ func LoadBodyItems(items []interface{}, media []Media) *Docx {
 
 // WriteTo allows to save a docx to a writer
 func (f *Docx) WriteTo(writer io.Writer) (_ int64, err error) {
-	zipWriter := zip.NewWriter(writer)
+	zipWriter := zip.NewWriter(shortWriteChecker{writer})
 	defer func() {
 		cerr := zipWriter.Close()
 		if err == nil {
@@ -166,6 +166,20 @@ func (f *Docx) WriteTo(writer io.Writer) (_ int64, err error) {
 	return 0, f.pack(zipWriter)
 }
 
+// shortWriteChecker reports the short writes its writer does not report
+type shortWriteChecker struct {
+	w io.Writer
+}
+
+// Write makes a short write without an error io.ErrShortWrite
+func (c shortWriteChecker) Write(p []byte) (n int, err error) {
+	n, err = c.w.Write(p)
+	if err == nil && n < len(p) {
+		err = io.ErrShortWrite
+	}
+	return
+}
+
 // Read is a fake function and cannot be used
 func (f *Docx) Read(_ []byte) (int, error) {
 	return 0, os.ErrInvalid
-- 
2.43.0


From c3e0e5fccb023d79092cf6b8c66ee105e91adbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:11 +0000
Subject: [PATCH 35/43] fix: formatting of parsed objects without properties

---
 apirun.go   | 18 ++++++++++++++++++
 apitable.go |  9 +++++++++
 2 files changed, 27 insertions(+)

diff --git a/apirun.go b/apirun.go
index f5d2b83..e7e5cea 100644
--- a/apirun.go
+++ b/apirun.go
@@ -22,6 +22,7 @@ package docx
 
 // Color allows to set run color
 func (r *Run) Color(color string) *Run {
+	r.ensureProperties()
 	r.RunProperties.Color = &Color{
 		Val: color,
 	}
@@ -30,6 +31,7 @@ func (r *Run) Color(color string) *Run {
 
 // Size allows to set run size
 func (r *Run) Size(size string) *Run {
+	r.ensureProperties()
 	r.RunProperties.Size = &Size{
 		Val: size,
 	}
@@ -38,6 +40,7 @@ func (r *Run) Size(size string) *Run {
 
 // SizeCs allows to set run sizecs
 func (r *Run) SizeCs(size string) *Run {
+	r.ensureProperties()
 	r.RunProperties.SizeCs = &SizeCs{
 		Val: size,
 	}
@@ -46,6 +49,7 @@ func (r *Run) SizeCs(size string) *Run {
 
 // Shade allows to set run shade
 func (r *Run) Shade(val, color, fill string) *Run {
+	r.ensureProperties()
 	r.RunProperties.Shade = &Shade{
 		Val:   val,
 		Color: color,
@@ -56,6 +60,7 @@ func (r *Run) Shade(val, color, fill string) *Run {
 
 // Spacing allows to set run spacing
 func (r *Run) Spacing(line int) *Run {
+	r.ensureProperties()
 	r.RunProperties.Spacing = &Spacing{
 		Line: line,
 	}
@@ -64,12 +69,14 @@ func (r *Run) Spacing(line int) *Run {
 
 // Bold ...
 func (r *Run) Bold() *Run {
+	r.ensureProperties()
 	r.RunProperties.Bold = &Bold{}
 	return r
 }
 
 // Italic ...
 func (r *Run) Italic() *Run {
+	r.ensureProperties()
 	r.RunProperties.Italic = &Italic{}
 	return r
 }
@@ -89,12 +96,14 @@ func (r *Run) Italic() *Run {
 //	dashLong: Specifies a long dash underline.
 //	wavyDouble: Specifies a double wavy underline.
 func (r *Run) Underline(val string) *Run {
+	r.ensureProperties()
 	r.RunProperties.Underline = &Underline{Val: val}
 	return r
 }
 
 // Highlight ...
 func (r *Run) Highlight(val string) *Run {
+	r.ensureProperties()
 	r.RunProperties.Highlight = &Highlight{Val: val}
 	return r
 }
@@ -105,6 +114,7 @@ func (r *Run) Strike(val bool) *Run {
 	if val {
 		trueFalseStr = "true"
 	}
+	r.ensureProperties()
 	r.RunProperties.Strike = &Strike{Val: trueFalseStr}
 	return r
 }
@@ -115,8 +125,16 @@ func (r *Run) AddTab() *Run {
 	return r
 }
 
+// ensureProperties makes runs without properties (in parsed documents) able to get some
+func (r *Run) ensureProperties() {
+	if r.RunProperties == nil {
+		r.RunProperties = &RunProperties{}
+	}
+}
+
 // Font sets the font of the run
 func (r *Run) Font(ascii, eastAsia, hansi, hint string) *Run {
+	r.ensureProperties()
 	r.RunProperties.Fonts = &RunFonts{
 		ASCII:    ascii,
 		EastAsia: eastAsia,
diff --git a/apitable.go b/apitable.go
index 342f59b..41900f6 100644
--- a/apitable.go
+++ b/apitable.go
@@ -166,6 +166,9 @@ func (f *Docx) AddTableTwips(
 //		both：两端对齐。
 //		distribute：分散对齐。
 func (t *Table) Justification(val string) *Table {
+	if t.TableProperties == nil {
+		t.TableProperties = &WTableProperties{}
+	}
 	if t.TableProperties.Justification == nil {
 		t.TableProperties.Justification = &Justification{Val: val}
 		return t
@@ -183,6 +186,9 @@ func (t *Table) Justification(val string) *Table {
 //		both：两端对齐。
 //		distribute：分散对齐。
 func (w *WTableRow) Justification(val string) *WTableRow {
+	if w.TableRowProperties == nil {
+		w.TableRowProperties = &WTableRowProperties{}
+	}
 	if w.TableRowProperties.Justification == nil {
 		w.TableRowProperties.Justification = &Justification{Val: val}
 		return w
@@ -193,6 +199,9 @@ func (w *WTableRow) Justification(val string) *WTableRow {
 
 // Shade allows to set cell's shade
 func (c *WTableCell) Shade(val, color, fill string) *WTableCell {
+	if c.TableCellProperties == nil {
+		c.TableCellProperties = &WTableCellProperties{}
+	}
 	c.TableCellProperties.Shade = &Shade{
 		Val:   val,
 		Color: color,
-- 
2.43.0


From 01a4ea8eb0e6a88e7fc01b24d02fb4c158ab7f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:19 +0000
Subject: [PATCH 36/43] fix: grid columns of zero width

---
 apitable.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apitable.go b/apitable.go
index 41900f6..e69bc1a 100644
--- a/apitable.go
+++ b/apitable.go
@@ -95,6 +95,7 @@ func (f *Docx) AddTableTwips(
 	grids := make([]*WGridCol, len(colWidths))
 	trs := make([]*WTableRow, len(rowHeights))
 	for i, w := range colWidths {
+		grids[i] = &WGridCol{}
 		if w > 0 {
 			grids[i] = &WGridCol{
 				W: w,
-- 
2.43.0


From f75ef4f02a0c2684aa9df65e81dee5265fb28749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:17 +0000
Subject: [PATCH 37/43] fix: merged paragraphs have formatting of their own

---
 structtext.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/structtext.go b/structtext.go
index 1b2d67c..5d4a8d8 100644
--- a/structtext.go
+++ b/structtext.go
@@ -251,11 +251,23 @@ func (r *Run) propvalue() reflect.Value {
 func (p *Paragraph) MergeText(canmerge RunMergeRule) (np Paragraph) {
 	var prevrun *Run
 	np = *p
+	if p.Properties != nil {
+		pr := *p.Properties
+		if pr.RunProperties != nil {
+			rpr := *pr.RunProperties
+			pr.RunProperties = &rpr
+		}
+		np.Properties = &pr
+	}
 	np.Children = make([]interface{}, 0, 64)
 	for _, c := range p.Children {
 		switch o := c.(type) {
 		case *Run:
 			r := *o
+			if o.RunProperties != nil {
+				pr := *o.RunProperties
+				r.RunProperties = &pr
+			}
 			r.Children = make([]interface{}, 0, 16)
 			t := &Text{}
 			for _, c := range o.Children {
-- 
2.43.0


From f179e6c43e9f6944e70a558841e8679f9de78056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:13 +0000
Subject: [PATCH 38/43] fix: numbers out of range are an error

---
 helper.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/helper.go b/helper.go
index 9e7774f..4b2de3e 100644
--- a/helper.go
+++ b/helper.go
@@ -21,7 +21,9 @@
 package docx
 
 import (
+	"errors"
 	"fmt"
+	"math"
 	"strconv"
 	"unsafe"
 )
@@ -44,13 +46,16 @@ func StringToBytes(s string) (b []byte) {
 // GetInt64 from string
 func GetInt64(s string) (int64, error) {
 	v, err := strconv.ParseInt(s, 10, 64)
-	if err == nil {
-		return v, nil
+	if err == nil || errors.Is(err, strconv.ErrRange) {
+		return v, err
 	}
 	v2, err := strconv.ParseFloat(s, 64)
-	if err == nil {
+	if err == nil && v2 > math.MinInt64 && v2 < math.MaxInt64 {
 		return int64(v2), nil
 	}
+	if err == nil || errors.Is(err, strconv.ErrRange) { // NaN, Inf or too big
+		return 0, &strconv.NumError{Func: "GetInt64", Num: s, Err: strconv.ErrRange}
+	}
 	_, err = fmt.Sscanf(s, "%d", &v)
 	return v, err
 }
@@ -58,13 +63,16 @@ func GetInt64(s string) (int64, error) {
 // GetInt from string
 func GetInt(s string) (int, error) {
 	v, err := strconv.Atoi(s)
-	if err == nil {
-		return v, nil
+	if err == nil || errors.Is(err, strconv.ErrRange) {
+		return v, err
 	}
 	v2, err := strconv.ParseFloat(s, 64)
-	if err == nil {
+	if err == nil && v2 > math.MinInt && v2 < math.MaxInt {
 		return int(v2), nil
 	}
+	if err == nil || errors.Is(err, strconv.ErrRange) { // NaN, Inf or too big
+		return 0, &strconv.NumError{Func: "GetInt", Num: s, Err: strconv.ErrRange}
+	}
 	_, err = fmt.Sscanf(s, "%d", &v)
 	return v, err
 }
-- 
2.43.0


From b06937ebdee8d4e4cf698e223fd164cce46f89bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:26 +0000
Subject: [PATCH 39/43] fix: report targets that are not found as such

---
 link.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/link.go b/link.go
index dfbb80a..4da7dc7 100644
--- a/link.go
+++ b/link.go
@@ -80,12 +80,12 @@ func (f *Docx) ReferTarget(id string) (string, error) {
 // ReferID gets the rId from target
 func (f *Docx) ReferID(target string) (string, error) {
 	if f == nil { // the element does not belong to a document
-		return "", ErrRefIDNotFound
+		return "", ErrRefTargetNotFound
 	}
 	for _, a := range f.docRelation.Relationship {
 		if a.Target == target {
 			return a.ID, nil
 		}
 	}
-	return "", ErrRefIDNotFound
+	return "", ErrRefTargetNotFound
 }
-- 
2.43.0


From 17c9a4bcac5fa4f848bd0aa41175ee3bf7e46114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:17 +0000
Subject: [PATCH 40/43] fix: do not share the media list with the caller

---
 docx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docx.go b/docx.go
index 9182c07..21b3e3e 100644
--- a/docx.go
+++ b/docx.go
@@ -134,7 +134,7 @@ func LoadBodyItems(items []interface{}, media []Media) *Docx {
 				},
 			},
 		},
-		media:        media,
+		media:        append([]Media(nil), media...),
 		mediaNameIdx: make(map[string]int, 64),
 		rID:          3,
 		slowIDs:      make(map[string]uintptr, 64),
-- 
2.43.0


From 5336c7013c697e1b393b15dfd313cb1199f37c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:10 +0000
Subject: [PATCH 41/43] fix: do not write the default border colors into the
 caller's struct

---
 apitable.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/apitable.go b/apitable.go
index e69bc1a..6e212be 100644
--- a/apitable.go
+++ b/apitable.go
@@ -50,9 +50,11 @@ func (f *Docx) AddTable(
 		}
 	}
 
-	if borderColors == nil {
-		borderColors = new(APITableBorderColors)
+	var colors APITableBorderColors
+	if borderColors != nil {
+		colors = *borderColors // which belongs to the caller
 	}
+	borderColors = &colors
 	borderColors.applyDefault()
 
 	wTableWidth := &WTableWidth{Type: "auto"}
@@ -123,9 +125,11 @@ func (f *Docx) AddTableTwips(
 		}
 	}
 
-	if borderColors == nil {
-		borderColors = new(APITableBorderColors)
+	var colors APITableBorderColors
+	if borderColors != nil {
+		colors = *borderColors // which belongs to the caller
 	}
+	borderColors = &colors
 	borderColors.applyDefault()
 
 	wTableWidth := &WTableWidth{Type: "auto"}
-- 
2.43.0


From 81e297731f97c1aa375f2047d1308f3ea368b361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:16 +0000
Subject: [PATCH 42/43] fix: refuse numbers that cannot be read

---
 helper.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/helper.go b/helper.go
index 4b2de3e..405c72a 100644
--- a/helper.go
+++ b/helper.go
@@ -57,7 +57,10 @@ func GetInt64(s string) (int64, error) {
 		return 0, &strconv.NumError{Func: "GetInt64", Num: s, Err: strconv.ErrRange}
 	}
 	_, err = fmt.Sscanf(s, "%d", &v)
-	return v, err
+	if err != nil { // not fmt's error, whose text starts like those of xml
+		return v, &strconv.NumError{Func: "GetInt64", Num: s, Err: strconv.ErrSyntax}
+	}
+	return v, nil
 }
 
 // GetInt from string
@@ -74,7 +77,10 @@ func GetInt(s string) (int, error) {
 		return 0, &strconv.NumError{Func: "GetInt", Num: s, Err: strconv.ErrRange}
 	}
 	_, err = fmt.Sscanf(s, "%d", &v)
-	return v, err
+	if err != nil { // not fmt's error, whose text starts like those of xml
+		return v, &strconv.NumError{Func: "GetInt", Num: s, Err: strconv.ErrSyntax}
+	}
+	return v, nil
 }
 
 // getOnOff reads an xsd:boolean or ST_OnOff attribute value as 1 or 0
-- 
2.43.0


From cca143aec9836a4599827283dcff722e2f9498f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:07 +0000
Subject: [PATCH 43/43] fix: keep the text of links that point nowhere when
 copying

---
 structdoc.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/structdoc.go b/structdoc.go
index 6fcb2f3..e6faa54 100644
--- a/structdoc.go
+++ b/structdoc.go
@@ -330,10 +330,11 @@ func (p *Paragraph) copymedia(to *Docx) (np Paragraph) {
 			nh := *h
 			if h.hasrel() && p.file != nil {
 				tgt, err := p.file.ReferTarget(h.ID)
-				if err != nil {
-					continue
+				if err == nil {
+					nh.ID = to.addLinkRelation(tgt)
+				} else {
+					nh.ID, nh.norel = nh.Anchor, true // it points nowhere, its text stays
 				}
-				nh.ID = to.addLinkRelation(tgt)
 			}
 			nh.Run = *h.Run.copymedia(to)
 			np.Children = append(np.Children, &nh)
-- 
2.43.0

