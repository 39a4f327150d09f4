From 13254ab1e3a25b839a3a3d9ffc4c089e6f65f87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:47 +0000
Subject: [PATCH 01/20] fix: bind drawings built by the API to their document

---
 apidrawing.go | 4 ++++
 apishape.go   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/apidrawing.go b/apidrawing.go
index e2e7c61..f6e9bf2 100644
--- a/apidrawing.go
+++ b/apidrawing.go
@@ -48,7 +48,9 @@ func (p *Paragraph) AddInlineDrawing(pic []byte) (*Run, error) {
 		w = A4_EMU_MAX_WIDTH / 2
 	}
 	d := &Drawing{
+		file: p.file,
 		Inline: &WPInline{
+			file: p.file,
 			// AnchorID: fmt.Sprintf("%08X", rand.Uint32()),
 			// EditID:   fmt.Sprintf("%08X", rand.Uint32()),
 
@@ -151,7 +153,9 @@ func (p *Paragraph) AddAnchorDrawing(pic []byte) (*Run, error) {
 		w = A4_EMU_MAX_WIDTH / 2
 	}
 	d := &Drawing{
+		file: p.file,
 		Anchor: &WPAnchor{
+			file: p.file,
 			LayoutInCell: 1,
 			AllowOverlap: 1,
 
diff --git a/apishape.go b/apishape.go
index 4ca918a..f436e67 100644
--- a/apishape.go
+++ b/apishape.go
@@ -30,7 +30,9 @@ func (p *Paragraph) AddInlineShape(w, h int64, name, bwMode, prst string, ln *AL
 	idn := int(atomic.AddUintptr(&p.file.docID, 1))
 	id := strconv.Itoa(int(p.file.IncreaseID(name)))
 	d := &Drawing{
+		file: p.file,
 		Inline: &WPInline{
+			file: p.file,
 			Extent: &WPExtent{
 				CX: w,
 				CY: h,
@@ -87,7 +89,9 @@ func (p *Paragraph) AddAnchorShape(w, h int64, name, bwMode, prst string, ln *AL
 	idn := int(atomic.AddUintptr(&p.file.docID, 1))
 	id := strconv.Itoa(int(p.file.IncreaseID(name)))
 	d := &Drawing{
+		file: p.file,
 		Anchor: &WPAnchor{
+			file: p.file,
 			LayoutInCell: 1,
 			AllowOverlap: 1,
 
-- 
2.43.0


From cf90a56ebff0adc2b3869d4a0d929b0956a45fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:48 +0000
Subject: [PATCH 02/20] fix: reject images without a positive size instead of
 dividing by zero

---
 apidrawing.go | 9 ++++++++-
 apishape.go   | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/apidrawing.go b/apidrawing.go
index f6e9bf2..bd5ac79 100644
--- a/apidrawing.go
+++ b/apidrawing.go
@@ -22,6 +22,7 @@ package docx
 
 import (
 	"bytes"
+	"errors"
 	"os"
 	"strconv"
 	"sync/atomic"
@@ -35,6 +36,9 @@ func (p *Paragraph) AddInlineDrawing(pic []byte) (*Run, error) {
 	if err != nil {
 		return nil, err
 	}
+	if sz.Width <= 0 || sz.Height <= 0 {
+		return nil, errors.New("invalid image size")
+	}
 	idn := int(atomic.AddUintptr(&p.file.docID, 1))
 	id := int(p.file.IncreaseID("图片"))
 	ids := strconv.Itoa(id)
@@ -140,6 +144,9 @@ func (p *Paragraph) AddAnchorDrawing(pic []byte) (*Run, error) {
 	if err != nil {
 		return nil, err
 	}
+	if sz.Width <= 0 || sz.Height <= 0 {
+		return nil, errors.New("invalid image size")
+	}
 	idn := int(atomic.AddUintptr(&p.file.docID, 1))
 	id := int(p.file.IncreaseID("图片"))
 	ids := strconv.Itoa(id)
@@ -155,7 +162,7 @@ func (p *Paragraph) AddAnchorDrawing(pic []byte) (*Run, error) {
 	d := &Drawing{
 		file: p.file,
 		Anchor: &WPAnchor{
-			file: p.file,
+			file:         p.file,
 			LayoutInCell: 1,
 			AllowOverlap: 1,
 
diff --git a/apishape.go b/apishape.go
index f436e67..d32fb8c 100644
--- a/apishape.go
+++ b/apishape.go
@@ -91,7 +91,7 @@ func (p *Paragraph) AddAnchorShape(w, h int64, name, bwMode, prst string, ln *AL
 	d := &Drawing{
 		file: p.file,
 		Anchor: &WPAnchor{
-			file: p.file,
+			file:         p.file,
 			LayoutInCell: 1,
 			AllowOverlap: 1,
 
-- 
2.43.0


From a04675034241da9502a68784343561669b6695c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:20 +0000
Subject: [PATCH 03/20] fix: report the error of closing the package in WriteTo

---
 docx.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/docx.go b/docx.go
index c7753f4..afed12e 100644
--- a/docx.go
+++ b/docx.go
@@ -151,9 +151,12 @@ func LoadBodyItems(items []interface{}, media []Media) *Docx {
 // WriteTo allows to save a docx to a writer
 func (f *Docx) WriteTo(writer io.Writer) (_ int64, err error) {
 	zipWriter := zip.NewWriter(writer)
-	defer zipWriter.Close()
+	err = f.pack(zipWriter)
+	if cerr := zipWriter.Close(); err == nil {
+		err = cerr
+	}
 
-	return 0, f.pack(zipWriter)
+	return 0, err
 }
 
 // Read is a fake function and cannot be used
-- 
2.43.0


From 2129ea401c9f4b940c5f17fbf3900ff64d5bd344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:22 +0000
Subject: [PATCH 04/20] fix: formatting setters work on elements without
 properties

---
 apirun.go   | 33 +++++++++++++++++++++++++++++++++
 apitable.go |  9 +++++++++
 2 files changed, 42 insertions(+)

diff --git a/apirun.go b/apirun.go
index f5d2b83..60ad1e9 100644
--- a/apirun.go
+++ b/apirun.go
@@ -22,6 +22,9 @@ package docx
 
 // Color allows to set run color
 func (r *Run) Color(color string) *Run {
+	if r.RunProperties == nil {
+		r.RunProperties = &RunProperties{}
+	}
 	r.RunProperties.Color = &Color{
 		Val: color,
 	}
@@ -30,6 +33,9 @@ func (r *Run) Color(color string) *Run {
 
 // Size allows to set run size
 func (r *Run) Size(size string) *Run {
+	if r.RunProperties == nil {
+		r.RunProperties = &RunProperties{}
+	}
 	r.RunProperties.Size = &Size{
 		Val: size,
 	}
@@ -38,6 +44,9 @@ func (r *Run) Size(size string) *Run {
 
 // SizeCs allows to set run sizecs
 func (r *Run) SizeCs(size string) *Run {
+	if r.RunProperties == nil {
+		r.RunProperties = &RunProperties{}
+	}
 	r.RunProperties.SizeCs = &SizeCs{
 		Val: size,
 	}
@@ -46,6 +55,9 @@ func (r *Run) SizeCs(size string) *Run {
 
 // Shade allows to set run shade
 func (r *Run) Shade(val, color, fill string) *Run {
+	if r.RunProperties == nil {
+		r.RunProperties = &RunProperties{}
+	}
 	r.RunProperties.Shade = &Shade{
 		Val:   val,
 		Color: color,
@@ -56,6 +68,9 @@ func (r *Run) Shade(val, color, fill string) *Run {
 
 // Spacing allows to set run spacing
 func (r *Run) Spacing(line int) *Run {
+	if r.RunProperties == nil {
+		r.RunProperties = &RunProperties{}
+	}
 	r.RunProperties.Spacing = &Spacing{
 		Line: line,
 	}
@@ -64,12 +79,18 @@ func (r *Run) Spacing(line int) *Run {
 
 // Bold ...
 func (r *Run) Bold() *Run {
+	if r.RunProperties == nil {
+		r.RunProperties = &RunProperties{}
+	}
 	r.RunProperties.Bold = &Bold{}
 	return r
 }
 
 // Italic ...
 func (r *Run) Italic() *Run {
+	if r.RunProperties == nil {
+		r.RunProperties = &RunProperties{}
+	}
 	r.RunProperties.Italic = &Italic{}
 	return r
 }
@@ -89,18 +110,27 @@ func (r *Run) Italic() *Run {
 //	dashLong: Specifies a long dash underline.
 //	wavyDouble: Specifies a double wavy underline.
 func (r *Run) Underline(val string) *Run {
+	if r.RunProperties == nil {
+		r.RunProperties = &RunProperties{}
+	}
 	r.RunProperties.Underline = &Underline{Val: val}
 	return r
 }
 
 // Highlight ...
 func (r *Run) Highlight(val string) *Run {
+	if r.RunProperties == nil {
+		r.RunProperties = &RunProperties{}
+	}
 	r.RunProperties.Highlight = &Highlight{Val: val}
 	return r
 }
 
 // Strike ...
 func (r *Run) Strike(val bool) *Run {
+	if r.RunProperties == nil {
+		r.RunProperties = &RunProperties{}
+	}
 	trueFalseStr := "false"
 	if val {
 		trueFalseStr = "true"
@@ -117,6 +147,9 @@ func (r *Run) AddTab() *Run {
 
 // Font sets the font of the run
 func (r *Run) Font(ascii, eastAsia, hansi, hint string) *Run {
+	if r.RunProperties == nil {
+		r.RunProperties = &RunProperties{}
+	}
 	r.RunProperties.Fonts = &RunFonts{
 		ASCII:    ascii,
 		EastAsia: eastAsia,
diff --git a/apitable.go b/apitable.go
index afe1ed1..4e4c321 100644
--- a/apitable.go
+++ b/apitable.go
@@ -166,6 +166,9 @@ func (f *Docx) AddTableTwips(
 //		both：两端对齐。
 //		distribute：分散对齐。
 func (t *Table) Justification(val string) *Table {
+	if t.TableProperties == nil {
+		t.TableProperties = &WTableProperties{}
+	}
 	if t.TableProperties.Justification == nil {
 		t.TableProperties.Justification = &Justification{Val: val}
 		return t
@@ -183,6 +186,9 @@ func (t *Table) Justification(val string) *Table {
 //		both：两端对齐。
 //		distribute：分散对齐。
 func (w *WTableRow) Justification(val string) *WTableRow {
+	if w.TableRowProperties == nil {
+		w.TableRowProperties = &WTableRowProperties{}
+	}
 	if w.TableRowProperties.Justification == nil {
 		w.TableRowProperties.Justification = &Justification{Val: val}
 		return w
@@ -193,6 +199,9 @@ func (w *WTableRow) Justification(val string) *WTableRow {
 
 // Shade allows to set cell's shade
 func (c *WTableCell) Shade(val, color, fill string) *WTableCell {
+	if c.TableCellProperties == nil {
+		c.TableCellProperties = &WTableCellProperties{}
+	}
 	c.TableCellProperties.Shade = &Shade{
 		Val:   val,
 		Color: color,
-- 
2.43.0


From b9faf7f088e0cc3edcc7dc5744ec80f05de774e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:23 +0000
Subject: [PATCH 05/20] fix: keep all character data of a text element

---
 structtext.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structtext.go b/structtext.go
index 5dc4796..1877427 100644
--- a/structtext.go
+++ b/structtext.go
@@ -136,7 +136,7 @@ func (r *Text) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 
 		if tt, ok := t.(xml.CharData); ok {
-			r.Text = string(tt) // implicitly copy
+			r.Text += string(tt) // implicitly copy
 		}
 	}
 
-- 
2.43.0


From b21e7ed61e176b426c7e5cca301bcbd3e75ac20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:24 +0000
Subject: [PATCH 06/20] fix: MergeText loses or reorders text when merging runs

---
 structtext.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/structtext.go b/structtext.go
index 1877427..028fc73 100644
--- a/structtext.go
+++ b/structtext.go
@@ -292,7 +292,7 @@ func (p *Paragraph) MergeText(canmerge RunMergeRule) (np Paragraph) {
 							if noappend {
 								noappend = false
 							} else {
-								prevrun.Children = append(prevrun.Children, t)
+								prevrun.Children = append(prevrun.Children, prevtext)
 							}
 							prevtext = &Text{}
 						}
@@ -300,13 +300,14 @@ func (p *Paragraph) MergeText(canmerge RunMergeRule) (np Paragraph) {
 					}
 				}
 				if prevtext.Text != "" && !noappend {
-					prevrun.Children = append(prevrun.Children, t)
+					prevrun.Children = append(prevrun.Children, prevtext)
 				}
 			} else {
 				prevrun = &r
 				np.Children = append(np.Children, &r)
 			}
 		default:
+			prevrun = nil // never merge across other elements
 			np.Children = append(np.Children, o)
 		}
 	}
-- 
2.43.0


From bdc2e09d5d4a995d1e0b08cbfb67c64c77e4104f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:25 +0000
Subject: [PATCH 07/20] fix: allow white space and comments inside
 AlternateContent

---
 structrun.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/structrun.go b/structrun.go
index 1c97952..707c8ed 100644
--- a/structrun.go
+++ b/structrun.go
@@ -151,14 +151,19 @@ func (r *Run) parse(d *xml.Decoder, tt xml.StartElement) (child interface{}, err
 				for _, attr := range ttt.Attr {
 					if attr.Name.Local == "Requires" {
 						if attr.Value == "wps" || attr.Value == "wpc" || attr.Value == "wpg" {
-							tok, err = d.Token() // go into choice
-							if err != nil {
-								return nil, err
+							for {
+								tok, err = d.Token() // go into choice
+								if err != nil {
+									return nil, err
+								}
+								if ttt, ok := tok.(xml.StartElement); ok {
+									child, err = r.parse(d, ttt)
+									break altcont
+								}
+								if _, ok := tok.(xml.EndElement); ok {
+									break altcont
+								}
 							}
-							if ttt, ok := tok.(xml.StartElement); ok {
-								child, err = r.parse(d, ttt)
-							}
-							break altcont
 						}
 						break
 					}
@@ -169,6 +174,9 @@ func (r *Run) parse(d *xml.Decoder, tt xml.StartElement) (child interface{}, err
 					break
 				}
 			}
+			if _, ok := tok.(xml.StartElement); !ok {
+				continue
+			}
 			err = d.Skip() // skip unsupported tags
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 390ac1d94e01bf14ac87c7544de8ca18bd6770fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:43 +0000
Subject: [PATCH 08/20] fix: leaf elements consume their whole content, not a
 single token

---
 structdrawing.go | 12 ++++++------
 structeffects.go | 16 ++++++++--------
 structrun.go     |  4 ++--
 structsect.go    | 16 ++++++++--------
 structshape.go   | 16 ++++++++--------
 structtable.go   | 24 ++++++++++++------------
 structtext.go    |  8 ++++----
 7 files changed, 48 insertions(+), 48 deletions(-)

diff --git a/structdrawing.go b/structdrawing.go
index 78e348e..b0450bd 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -364,8 +364,8 @@ func (r *WPExtent) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			return err
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
+	// Consume up to the end element
+	err = d.Skip()
 	return err
 }
 
@@ -396,8 +396,8 @@ func (r *WPEffectExtent) UnmarshalXML(d *xml.Decoder, start xml.StartElement) er
 			return err
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
+	// Consume up to the end element
+	err = d.Skip()
 	return err
 }
 
@@ -425,8 +425,8 @@ func (r *WPDocPr) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err := d.Token()
+	// Consume up to the end element
+	err := d.Skip()
 	return err
 }
 
diff --git a/structeffects.go b/structeffects.go
index bfe85aa..74b5986 100644
--- a/structeffects.go
+++ b/structeffects.go
@@ -144,8 +144,8 @@ func (s *Shade) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err := d.Token()
+	// Consume up to the end element
+	err := d.Skip()
 	return err
 }
 
@@ -272,8 +272,8 @@ func (r *NonVisualProperties) UnmarshalXML(d *xml.Decoder, start xml.StartElemen
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
+	// Consume up to the end element
+	err = d.Skip()
 	return
 }
 
@@ -319,8 +319,8 @@ func (s *Spacing) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err erro
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
+	// Consume up to the end element
+	err = d.Skip()
 	return
 }
 
@@ -392,7 +392,7 @@ func (i *Ind) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err error) {
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
+	// Consume up to the end element
+	err = d.Skip()
 	return
 }
diff --git a/structrun.go b/structrun.go
index 707c8ed..ed86e06 100644
--- a/structrun.go
+++ b/structrun.go
@@ -350,7 +350,7 @@ func (f *RunFonts) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			f.Hint = attr.Value
 		}
 	}
-	// Consume the end element
-	_, err := d.Token()
+	// Consume up to the end element
+	err := d.Skip()
 	return err
 }
diff --git a/structsect.go b/structsect.go
index cc66873..9ae4002 100644
--- a/structsect.go
+++ b/structsect.go
@@ -132,8 +132,8 @@ func (pgsz *PgSz) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			// ignore other attributes now
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
+	// Consume up to the end element
+	err = d.Skip()
 	return err
 }
 
@@ -182,8 +182,8 @@ func (pgmar *PgMar) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			// ignore other attributes now
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
+	// Consume up to the end element
+	err = d.Skip()
 	return err
 }
 
@@ -202,8 +202,8 @@ func (cols *Cols) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			// ignore other attributes now
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
+	// Consume up to the end element
+	err = d.Skip()
 	return err
 }
 
@@ -224,7 +224,7 @@ func (dg *DocGrid) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			// ignore other attributes now
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
+	// Consume up to the end element
+	err = d.Skip()
 	return err
 }
diff --git a/structshape.go b/structshape.go
index 9298006..ff40632 100644
--- a/structshape.go
+++ b/structshape.go
@@ -204,8 +204,8 @@ func (l *ASPLocks) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
+	// Consume up to the end element
+	err = d.Skip()
 	return err
 }
 
@@ -317,8 +317,8 @@ func (t *ATile) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err error)
 			return err
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
+	// Consume up to the end element
+	err = d.Skip()
 	return err
 }
 
@@ -494,8 +494,8 @@ func (r *AHeadEnd) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err := d.Token()
+	// Consume up to the end element
+	err := d.Skip()
 	return err
 }
 
@@ -521,8 +521,8 @@ func (r *ATailEnd) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err := d.Token()
+	// Consume up to the end element
+	err := d.Skip()
 	return err
 }
 
diff --git a/structtable.go b/structtable.go
index 5a2727c..f50d6db 100644
--- a/structtable.go
+++ b/structtable.go
@@ -232,8 +232,8 @@ func (tp *WTablePositioningProperties) UnmarshalXML(d *xml.Decoder, start xml.St
 		}
 	}
 
-	// Consume the end element
-	_, err = d.Token()
+	// Consume up to the end element
+	err = d.Skip()
 	return err
 }
 
@@ -256,8 +256,8 @@ func (t *WTableStyle) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
+	// Consume up to the end element
+	err = d.Skip()
 	return err
 }
 
@@ -286,8 +286,8 @@ func (t *WTableWidth) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
+	// Consume up to the end element
+	err = d.Skip()
 	return err
 }
 
@@ -328,8 +328,8 @@ func (t *WTableLook) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err := d.Token()
+	// Consume up to the end element
+	err := d.Skip()
 	return err
 }
 
@@ -393,8 +393,8 @@ func (g *WGridCol) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
+	// Consume up to the end element
+	err = d.Skip()
 	return err
 }
 
@@ -806,8 +806,8 @@ func (t *WTableBorder) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 			t.Color = attr.Value
 		}
 	}
-	// Consume the end element
-	_, err := d.Token()
+	// Consume up to the end element
+	err := d.Skip()
 	return err
 }
 
diff --git a/structtext.go b/structtext.go
index 028fc73..4af128c 100644
--- a/structtext.go
+++ b/structtext.go
@@ -83,8 +83,8 @@ func (t *Tab) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			}
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
+	// Consume up to the end element
+	err = d.Skip()
 	return err
 }
 
@@ -102,8 +102,8 @@ func (f *BarterRabbet) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 			break
 		}
 	}
-	// Consume the end element
-	_, err := d.Token()
+	// Consume up to the end element
+	err := d.Skip()
 	return err
 }
 
-- 
2.43.0


From bf9f1d9acd1984f192865ea53ec416e222898fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:45 +0000
Subject: [PATCH 09/20] fix: read back the numbering properties of paragraphs

---
 structpara.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/structpara.go b/structpara.go
index 8b5d31e..2db02ae 100644
--- a/structpara.go
+++ b/structpara.go
@@ -107,6 +107,13 @@ func (p *ParagraphProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 					return err
 				}
 				p.RunProperties = &value
+			case "numPr":
+				var value NumProperties
+				err = d.DecodeElement(&value, &tt)
+				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
+					return err
+				}
+				p.NumProperties = &value
 			case "pStyle":
 				p.Style = &Style{Val: getAtt(tt.Attr, "val")}
 			case "textAlignment":
-- 
2.43.0


From 9d1b608c17b179d35906e87ef559704dc3e50111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:16 +0000
Subject: [PATCH 10/20] fix: packages with directory entries can be saved again

---
 unpack.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unpack.go b/unpack.go
index 8b7f8a9..07c8a89 100644
--- a/unpack.go
+++ b/unpack.go
@@ -44,6 +44,9 @@ func unpack(zipReader *zip.Reader) (docx *Docx, err error) {
 	docx.tmplfs = zipReader
 	docx.tmpfslst = make([]string, 0, 64)
 	for _, f := range zipReader.File {
+		if strings.HasSuffix(f.Name, "/") { // directory entries have no content
+			continue
+		}
 		if f.Name == "word/_rels/document.xml.rels" {
 			err = docx.parseDocRelation(f)
 			if err != nil {
-- 
2.43.0


From 49f477f034e3bfa8be76bb4e8e7f6394c60d4ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:18 +0000
Subject: [PATCH 11/20] fix: a new image never overwrites existing media of the
 same name

---
 image.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/image.go b/image.go
index 93183c2..8f48927 100644
--- a/image.go
+++ b/image.go
@@ -28,6 +28,9 @@ import (
 // addImage add image to docx and return its rId
 func (f *Docx) addImage(format string, data []byte) string {
 	m := Media{Name: "image" + strconv.Itoa(int(atomic.AddUintptr(&f.imageID, 1))) + "." + format, Data: data}
+	for f.Media(m.Name) != nil { // never reuse the name of an existing media
+		m.Name = "image" + strconv.Itoa(int(atomic.AddUintptr(&f.imageID, 1))) + "." + format
+	}
 	f.addMedia(m)
 	return f.addImageRelation(m)
 }
-- 
2.43.0


From 41fa145a6b5c6711992e94245e04adb9d1f9ba39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:19 +0000
Subject: [PATCH 12/20] fix: rendering incomplete drawings as text must not
 panic

---
 media.go         | 10 ++++++++++
 structdrawing.go | 15 +++++++++++----
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/media.go b/media.go
index 01acb24..7569ac6 100644
--- a/media.go
+++ b/media.go
@@ -20,6 +20,8 @@
 
 package docx
 
+import "strings"
+
 //nolint:revive,stylecheck
 const MEDIA_FOLDER = `word/media/`
 
@@ -43,6 +45,14 @@ func (f *Docx) Media(name string) *Media {
 	return &f.media[i]
 }
 
+// mediaOf gets the media a relationship target refers to, or nil if there is none
+func (f *Docx) mediaOf(target string) *Media {
+	if !strings.HasPrefix(target, "media/") {
+		return nil
+	}
+	return f.Media(target[6:])
+}
+
 // addMedia append the media to docx's media list
 func (f *Docx) addMedia(m Media) {
 	f.mediaNameIdx[m.Name] = len(f.media)
diff --git a/structdrawing.go b/structdrawing.go
index b0450bd..03473d4 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -228,6 +228,9 @@ func (r *WPInline) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 // String ...
 func (r *WPInline) String() string {
 	sb := strings.Builder{}
+	if r.Graphic == nil || r.Graphic.GraphicData == nil {
+		return "![inln?](unknown)"
+	}
 	if r.Graphic.GraphicData.Pic != nil {
 		sb.WriteString("![inlnim ")
 		switch {
@@ -235,7 +238,7 @@ func (r *WPInline) String() string {
 			sb.WriteString(r.DocPr.Name)
 		case r.Graphic.GraphicData.Pic.NonVisualPicProperties != nil:
 			sb.WriteString(r.Graphic.GraphicData.Pic.NonVisualPicProperties.NonVisualDrawingProperties.Name)
-		default:
+		case r.Graphic.GraphicData.Pic.BlipFill != nil:
 			sb.WriteString(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
 		}
 		sb.WriteString("](")
@@ -243,8 +246,10 @@ func (r *WPInline) String() string {
 			tgt, err := r.file.ReferTarget(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
 			if err != nil {
 				sb.WriteString(err.Error())
+			} else if m := r.file.mediaOf(tgt); m == nil {
+				sb.WriteString(ErrRefTargetNotFound.Error())
 			} else {
-				h := md5.Sum(r.file.Media(tgt[6:]).Data)
+				h := md5.Sum(m.Data)
 				sb.WriteString(hex.EncodeToString(h[:]))
 			}
 		}
@@ -1324,7 +1329,7 @@ func (r *WPAnchor) String() string {
 				sb.WriteString(r.DocPr.Name)
 			case r.Graphic.GraphicData.Pic.NonVisualPicProperties != nil:
 				sb.WriteString(r.Graphic.GraphicData.Pic.NonVisualPicProperties.NonVisualDrawingProperties.Name)
-			default:
+			case r.Graphic.GraphicData.Pic.BlipFill != nil:
 				sb.WriteString(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
 			}
 			sb.WriteString("](")
@@ -1332,8 +1337,10 @@ func (r *WPAnchor) String() string {
 				tgt, err := r.file.ReferTarget(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
 				if err != nil {
 					sb.WriteString(err.Error())
+				} else if m := r.file.mediaOf(tgt); m == nil {
+					sb.WriteString(ErrRefTargetNotFound.Error())
 				} else {
-					h := md5.Sum(r.file.Media(tgt[6:]).Data)
+					h := md5.Sum(m.Data)
 					sb.WriteString(hex.EncodeToString(h[:]))
 				}
 			}
-- 
2.43.0


From bee56425494c6cca2204b98a085abcc056efd792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:20 +0000
Subject: [PATCH 13/20] fix: copying incomplete drawings must not panic

---
 structdrawing.go | 18 ++++++++++++++----
 structpara.go    |  1 +
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/structdrawing.go b/structdrawing.go
index 03473d4..25f92ac 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -289,6 +289,9 @@ func (r *WPInline) String() string {
 }
 
 func (r *WPInline) copymedia(to *Docx) *WPInline {
+	if r.Graphic == nil || r.Graphic.GraphicData == nil { // nothing to copy
+		return r
+	}
 	if r.Graphic.GraphicData.Pic != nil {
 		if r.Graphic.GraphicData.Pic.BlipFill != nil {
 			tgt, err := r.file.ReferTarget(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
@@ -299,7 +302,7 @@ func (r *WPInline) copymedia(to *Docx) *WPInline {
 			idn := int(atomic.AddUintptr(&to.docID, 1))
 			id := int(to.IncreaseID("图片"))
 			ids := strconv.Itoa(id)
-			m := r.file.Media(tgt[6:])
+			m := r.file.mediaOf(tgt)
 			if m == nil {
 				return nil
 			}
@@ -324,7 +327,9 @@ func (r *WPInline) copymedia(to *Docx) *WPInline {
 					ID:   id,
 					Name: "图片 " + ids,
 				},
-				CNvPicPr: r.Graphic.GraphicData.Pic.NonVisualPicProperties.CNvPicPr,
+			}
+			if nv := r.Graphic.GraphicData.Pic.NonVisualPicProperties; nv != nil {
+				pic.NonVisualPicProperties.CNvPicPr = nv.CNvPicPr
 			}
 			pic.BlipFill = &PICBlipFill{
 				Blip: ABlip{
@@ -1381,6 +1386,9 @@ func (r *WPAnchor) String() string {
 }
 
 func (r *WPAnchor) copymedia(to *Docx) *WPAnchor {
+	if r.Graphic == nil || r.Graphic.GraphicData == nil { // nothing to copy
+		return r
+	}
 	if r.Graphic.GraphicData.Pic != nil {
 		if r.Graphic.GraphicData.Pic.BlipFill != nil {
 			tgt, err := r.file.ReferTarget(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
@@ -1391,7 +1399,7 @@ func (r *WPAnchor) copymedia(to *Docx) *WPAnchor {
 			idn := int(atomic.AddUintptr(&to.docID, 1))
 			id := int(to.IncreaseID("图片"))
 			ids := strconv.Itoa(id)
-			m := r.file.Media(tgt[6:])
+			m := r.file.mediaOf(tgt)
 			if m == nil {
 				return nil
 			}
@@ -1416,7 +1424,9 @@ func (r *WPAnchor) copymedia(to *Docx) *WPAnchor {
 					ID:   id,
 					Name: "图片 " + ids,
 				},
-				CNvPicPr: r.Graphic.GraphicData.Pic.NonVisualPicProperties.CNvPicPr,
+			}
+			if nv := r.Graphic.GraphicData.Pic.NonVisualPicProperties; nv != nil {
+				pic.NonVisualPicProperties.CNvPicPr = nv.CNvPicPr
 			}
 			pic.BlipFill = &PICBlipFill{
 				Blip: ABlip{
diff --git a/structpara.go b/structpara.go
index 2db02ae..38f4b74 100644
--- a/structpara.go
+++ b/structpara.go
@@ -263,6 +263,7 @@ func (p *Paragraph) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 			switch tt.Name.Local {
 			case "hyperlink":
 				var value Hyperlink
+				value.Run.file = p.file
 				err = d.DecodeElement(&value, &tt)
 				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
 					return err
-- 
2.43.0


From 8126b192a48ef5ec6b72c3ce097b75ff0b71cf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:21 +0000
Subject: [PATCH 14/20] fix: keep the transparency of copied pictures

---
 structdrawing.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/structdrawing.go b/structdrawing.go
index 25f92ac..5870af7 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -335,6 +335,8 @@ func (r *WPInline) copymedia(to *Docx) *WPInline {
 				Blip: ABlip{
 					Embed:  rid,
 					Cstate: r.Graphic.GraphicData.Pic.BlipFill.Blip.Cstate,
+
+					AlphaModFix: r.Graphic.GraphicData.Pic.BlipFill.Blip.AlphaModFix,
 				},
 				Stretch: r.Graphic.GraphicData.Pic.BlipFill.Stretch,
 			}
@@ -1432,6 +1434,8 @@ func (r *WPAnchor) copymedia(to *Docx) *WPAnchor {
 				Blip: ABlip{
 					Embed:  rid,
 					Cstate: r.Graphic.GraphicData.Pic.BlipFill.Blip.Cstate,
+
+					AlphaModFix: r.Graphic.GraphicData.Pic.BlipFill.Blip.AlphaModFix,
 				},
 				Stretch: r.Graphic.GraphicData.Pic.BlipFill.Stretch,
 			}
-- 
2.43.0


From 7a063e8d234dfe8b4ab357193ac4f4784e5aa016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:11 +0000
Subject: [PATCH 15/20] fix: read back the adjust values of shape geometries

---
 structeffects.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/structeffects.go b/structeffects.go
index 74b5986..dab4f0f 100644
--- a/structeffects.go
+++ b/structeffects.go
@@ -215,7 +215,10 @@ func (w *ShapeProperties) UnmarshalXML(d *xml.Decoder, start xml.StartElement) e
 					return err
 				}
 			case "prstGeom":
-				w.PrstGeom.Prst = getAtt(tt.Attr, "prst")
+				err = d.DecodeElement(&w.PrstGeom, &tt)
+				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
+					return err
+				}
 			case "solidFill":
 				var value ASolidFill
 				err = d.DecodeElement(&value, &tt)
-- 
2.43.0


From 61817295a0f193e74a24f53e27cd027fa7a5e349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:12 +0000
Subject: [PATCH 16/20] fix: keep the namespace declaration of pictures in
 groups

---
 structgroup.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/structgroup.go b/structgroup.go
index 725515d..e44a753 100644
--- a/structgroup.go
+++ b/structgroup.go
@@ -69,6 +69,7 @@ func (w *WordprocessingGroup) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
 					return err
 				}
+				value.XMLPIC = getAtt(tt.Attr, "pic")
 				w.Elems = append(w.Elems, &value)
 			case "wsp":
 				var value WordprocessingShape
@@ -199,6 +200,7 @@ func (w *WPGGroupShape) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
 					return err
 				}
+				value.XMLPIC = getAtt(tt.Attr, "pic")
 				w.Elems = append(w.Elems, &value)
 			case "wsp":
 				var value WordprocessingShape
-- 
2.43.0


From 330f18528044c48e62657af4c563f68d2e4243a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:15 +0000
Subject: [PATCH 17/20] fix: numeric attributes reject NaN, infinities and
 values out of range

---
 helper.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/helper.go b/helper.go
index d91ad81..fecd9c8 100644
--- a/helper.go
+++ b/helper.go
@@ -22,6 +22,7 @@ package docx
 
 import (
 	"fmt"
+	"math"
 	"strconv"
 	"unsafe"
 )
@@ -49,6 +50,9 @@ func GetInt64(s string) (int64, error) {
 	}
 	v2, err := strconv.ParseFloat(s, 64)
 	if err == nil {
+		if !(v2 >= math.MinInt64 && v2 < math.MaxInt64) { // also NaN
+			return 0, strconv.ErrRange
+		}
 		return int64(v2), nil
 	}
 	_, err = fmt.Sscanf(s, "%d", &v)
@@ -63,6 +67,9 @@ func GetInt(s string) (int, error) {
 	}
 	v2, err := strconv.ParseFloat(s, 64)
 	if err == nil {
+		if !(v2 >= math.MinInt && v2 < math.MaxInt) { // also NaN
+			return 0, strconv.ErrRange
+		}
 		return int(v2), nil
 	}
 	_, err = fmt.Sscanf(s, "%d", &v)
-- 
2.43.0


From 69e37d1e1b765b55a5d5eee9cf1399334dea6cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:49 +0000
Subject: [PATCH 18/20] fix: text inside unknown elements is not part of the
 text

---
 structtext.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/structtext.go b/structtext.go
index 4af128c..d9f53ba 100644
--- a/structtext.go
+++ b/structtext.go
@@ -135,8 +135,14 @@ func (r *Text) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			return err
 		}
 
-		if tt, ok := t.(xml.CharData); ok {
+		switch tt := t.(type) {
+		case xml.CharData:
 			r.Text += string(tt) // implicitly copy
+		case xml.StartElement:
+			err = d.Skip() // skip unsupported tags
+			if err != nil {
+				return err
+			}
 		}
 	}
 
-- 
2.43.0


From ecc5f0b23f7cc58351d72c4bd1ac7060defc5525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:06 +0000
Subject: [PATCH 19/20] fix: skip unknown elements between tab stops

---
 structtext.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/structtext.go b/structtext.go
index d9f53ba..a54a5ad 100644
--- a/structtext.go
+++ b/structtext.go
@@ -52,6 +52,11 @@ func (tb *Tabs) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 					return err
 				}
 				tb.Tabs = append(tb.Tabs, &value)
+			} else {
+				err = d.Skip() // skip unsupported tags
+				if err != nil {
+					return err
+				}
 			}
 		}
 	}
-- 
2.43.0


From 72f1eb507b3f04802b02ce0897a781eb4287153f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:22 +0000
Subject: [PATCH 20/20] fix: limit the nesting of AlternateContent so that
 reading it cannot exhaust the stack

---
 structrun.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/structrun.go b/structrun.go
index ed86e06..1cdb3a0 100644
--- a/structrun.go
+++ b/structrun.go
@@ -22,6 +22,7 @@ package docx
 
 import (
 	"encoding/xml"
+	"errors"
 	"io"
 	"reflect"
 	"strings"
@@ -68,7 +69,7 @@ func (r *Run) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 
 		if tt, ok := t.(xml.StartElement); ok {
-			child, err := r.parse(d, tt)
+			child, err := r.parse(d, tt, 0)
 			if err != nil {
 				return err
 			}
@@ -81,7 +82,13 @@ func (r *Run) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 	return nil
 }
 
-func (r *Run) parse(d *xml.Decoder, tt xml.StartElement) (child interface{}, err error) {
+// maxAltContentDepth limits the nesting of AlternateContent, like encoding/xml does for elements
+const maxAltContentDepth = 10000
+
+func (r *Run) parse(d *xml.Decoder, tt xml.StartElement, depth int) (child interface{}, err error) {
+	if depth > maxAltContentDepth {
+		return nil, errors.New("exceeded max depth")
+	}
 	switch tt.Name.Local {
 	case "rPr":
 		var value RunProperties
@@ -157,7 +164,7 @@ func (r *Run) parse(d *xml.Decoder, tt xml.StartElement) (child interface{}, err
 									return nil, err
 								}
 								if ttt, ok := tok.(xml.StartElement); ok {
-									child, err = r.parse(d, ttt)
+									child, err = r.parse(d, ttt, depth+1)
 									break altcont
 								}
 								if _, ok := tok.(xml.EndElement); ok {
-- 
2.43.0

