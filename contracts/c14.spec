# C14: pictures fit the page, keep their proportions and never fail half-way
#
//@ def imgGood(b []byte) bool = img_ok(b) && img_w(b) > 0 && img_h(b) > 0
//@ def wide(b []byte) bool = 5*img_w(b) > 6*img_h(b)
//@ def picW(b []byte) int64 = cond(wide(b), A4_EMU_MAX_WIDTH, A4_EMU_MAX_WIDTH / 2)
//@ def picH(b []byte) int64 = cond(wide(b), A4_EMU_MAX_WIDTH * img_h(b) / img_w(b), A4_EMU_MAX_WIDTH * img_h(b) / img_w(b) / 2)
//@ def lastRun(p *Paragraph) *Run = as(p.Children[len(p.Children)-1], "*Run")
//@ def addedRun(p *Paragraph, run *Run, c0 []interface{}) bool = p.Children == cat(c0, seq("interface{}", box(run))) && fresh(run) && len(run.Children) == 1 && is(run.Children[0], "*Drawing")
//@ def drawingOf(run *Run) *Drawing = as(run.Children[0], "*Drawing")
//@ def showsPic(g *AGraphic, ext *WPExtent, b []byte, rid string) bool = ext != nil && ext.CX == picW(b) && ext.CY == picH(b) && \
//@   g != nil && g.GraphicData != nil && g.GraphicData.Pic != nil && g.GraphicData.Pic.SpPr != nil && g.GraphicData.Pic.SpPr.Xfrm.Ext.CX == picW(b) && g.GraphicData.Pic.SpPr.Xfrm.Ext.CY == picH(b) && \
//@   g.GraphicData.Pic.BlipFill != nil && g.GraphicData.Pic.BlipFill.Blip.Embed == rid
//@ def lastRel(f *Docx) Relationship = f.docRelation.Relationship[len(f.docRelation.Relationship)-1]
//@ def lastMedia(f *Docx) Media = f.media[len(f.media)-1]

//@ func (p *Paragraph) AddInlineDrawing(pic) (run, err) [C14 C18 C05 C04]
//@ whole
//@ requires p != nil && docWF(p.file) && p.file.docID < 4611686018427387904
//@ modifies p.Children, p.file.docID, mapof(p.file.slowIDs), p.file.imageID, p.file.rID, p.file.docRelation.Relationship, p.file.media, mapof(p.file.mediaNameIdx)
//@ ensures (err == nil) == imgGood(pic)
//@ ensures err != nil ==> run == nil && p.Children == old(p.Children) && p.file.media == old(p.file.media) && p.file.docRelation.Relationship == old(p.file.docRelation.Relationship)
//@ ensures err == nil ==> addedRun(p, run, old(p.Children))
//@ ensures err == nil ==> drawingOf(run).Inline != nil && drawingOf(run).Anchor == nil && showsPic(drawingOf(run).Inline.Graphic, drawingOf(run).Inline.Extent, pic, lastRel(p.file).ID)
//@ ensures err == nil ==> p.file.docRelation.Relationship == cat(old(p.file.docRelation.Relationship), seq("Relationship", lastRel(p.file))) && lastRel(p.file).Target == "media/" + lastMedia(p.file).Name
//@ ensures err == nil ==> p.file.media == cat(old(p.file.media), seq("Media", lastMedia(p.file))) && lastMedia(p.file).Data == pic
//@ ensures err == nil ==> drawingOf(run).Inline.DocPr != nil && drawingOf(run).Inline.DocPr.ID == old(p.file.docID) + 1 && p.file.docID == old(p.file.docID) + 1
//@ ensures err == nil ==> drawingOf(run).file == p.file && drawingOf(run).Inline.file == p.file

//@ func (p *Paragraph) AddAnchorDrawing(pic) (run, err) [C14 C18 C05 C04]
//@ whole
//@ requires p != nil && docWF(p.file) && p.file.docID < 4611686018427387904
//@ modifies p.Children, p.file.docID, mapof(p.file.slowIDs), p.file.imageID, p.file.rID, p.file.docRelation.Relationship, p.file.media, mapof(p.file.mediaNameIdx)
//@ ensures (err == nil) == imgGood(pic)
//@ ensures err != nil ==> run == nil && p.Children == old(p.Children) && p.file.media == old(p.file.media) && p.file.docRelation.Relationship == old(p.file.docRelation.Relationship)
//@ ensures err == nil ==> addedRun(p, run, old(p.Children))
//@ ensures err == nil ==> drawingOf(run).Anchor != nil && drawingOf(run).Inline == nil && showsPic(drawingOf(run).Anchor.Graphic, drawingOf(run).Anchor.Extent, pic, lastRel(p.file).ID)
//@ ensures err == nil ==> p.file.docRelation.Relationship == cat(old(p.file.docRelation.Relationship), seq("Relationship", lastRel(p.file))) && lastRel(p.file).Target == "media/" + lastMedia(p.file).Name
//@ ensures err == nil ==> p.file.media == cat(old(p.file.media), seq("Media", lastMedia(p.file))) && lastMedia(p.file).Data == pic
//@ ensures err == nil ==> drawingOf(run).Anchor.DocPr != nil && drawingOf(run).Anchor.DocPr.ID == old(p.file.docID) + 1 && p.file.docID == old(p.file.docID) + 1
//@ ensures err == nil ==> drawingOf(run).file == p.file && drawingOf(run).Anchor.file == p.file

//@ func (p *Paragraph) AddInlineDrawingFrom(file) (run, err) [C14]
//@ requires p != nil && docWF(p.file) && p.file.docID < 4611686018427387904
//@ modifies p.Children, p.file.docID, mapof(p.file.slowIDs), p.file.imageID, p.file.rID, p.file.docRelation.Relationship, p.file.media, mapof(p.file.mediaNameIdx)
//@ ensures err != nil ==> run == nil && p.Children == old(p.Children) && p.file.media == old(p.file.media) && p.file.docRelation.Relationship == old(p.file.docRelation.Relationship)
//@ ensures err == nil ==> addedRun(p, run, old(p.Children)) && drawingOf(run).Inline != nil && drawingOf(run).Anchor == nil
//@ ensures event("errors", err)

//@ func (p *Paragraph) AddAnchorDrawingFrom(file) (run, err) [C14]
//@ requires p != nil && docWF(p.file) && p.file.docID < 4611686018427387904
//@ modifies p.Children, p.file.docID, mapof(p.file.slowIDs), p.file.imageID, p.file.rID, p.file.docRelation.Relationship, p.file.media, mapof(p.file.mediaNameIdx)
//@ ensures err != nil ==> run == nil && p.Children == old(p.Children) && p.file.media == old(p.file.media) && p.file.docRelation.Relationship == old(p.file.docRelation.Relationship)
//@ ensures err == nil ==> addedRun(p, run, old(p.Children)) && drawingOf(run).Anchor != nil && drawingOf(run).Inline == nil
//@ ensures event("errors", err)

//@ func (r *WPInline) Size(w, h) () [C14]
//@ requires r != nil
//@ modifies r.Extent.CX, r.Extent.CY, r.Graphic.GraphicData.Pic.SpPr.Xfrm.Ext.CX, r.Graphic.GraphicData.Pic.SpPr.Xfrm.Ext.CY
//@ ensures r.Extent != nil ==> r.Extent.CX == w && r.Extent.CY == h
//@ ensures hasPic(r.Graphic) ==> r.Graphic.GraphicData.Pic.SpPr.Xfrm.Ext.CX == w && r.Graphic.GraphicData.Pic.SpPr.Xfrm.Ext.CY == h
//@ def hasPic(g *AGraphic) bool = g != nil && g.GraphicData != nil && g.GraphicData.Pic != nil && g.GraphicData.Pic.SpPr != nil

//@ func (r *WPAnchor) Size(w, h) () [C14]
//@ requires r != nil
//@ modifies r.Extent.CX, r.Extent.CY, r.Graphic.GraphicData.Pic.SpPr.Xfrm.Ext.CX, r.Graphic.GraphicData.Pic.SpPr.Xfrm.Ext.CY
//@ ensures r.Extent != nil ==> r.Extent.CX == w && r.Extent.CY == h
//@ ensures hasPic(r.Graphic) ==> r.Graphic.GraphicData.Pic.SpPr.Xfrm.Ext.CX == w && r.Graphic.GraphicData.Pic.SpPr.Xfrm.Ext.CY == h
