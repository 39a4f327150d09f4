# C18: numbering counters never repeat a value
# C19: under interference by other goroutines, each call is one critical section that increases the
# counter by one and returns its new value: no two calls get the same number

//@ func (f *Docx) IncreaseID(name) (n) [C18 C19]
//@ requires f != nil && f.slowIDs != nil
//@ guarded [C19] f.slowIDs by f.slowIDsMu
//@ modifies mapof(f.slowIDs)
//@ ensures [C18] old(f.slowIDs[name]) < 18446744073709551615 ==> n == old(f.slowIDs[name]) + 1
//@ ensures [C18] has(f.slowIDs, name) && f.slowIDs[name] == n
//@ ensures [C18] forallkey(m, f.slowIDs, m != name ==> has(f.slowIDs, m) == old(has(f.slowIDs, m)) && f.slowIDs[m] == old(f.slowIDs[m]))
//@ ensures [C19] atlock(f.slowIDs[name]) < 18446744073709551615 ==> n == atlock(f.slowIDs[name]) + 1
//@ ensures [C19] atunlock(has(f.slowIDs, name)) && atunlock(f.slowIDs[name]) == n
//@ ensures [C19] forallkey(m, f.slowIDs, m != name ==> atunlock(has(f.slowIDs, m)) == atlock(has(f.slowIDs, m)) && atunlock(f.slowIDs[m]) == atlock(f.slowIDs[m]))

//@ def newRun(p *Paragraph, run *Run, c0 []interface{}) bool = run != nil && fresh(run) && p.Children == cat(c0, seq("interface{}", box(run))) && run.RunProperties != nil && *run.RunProperties == RunProperties{} && run.InstrText == "" && len(run.Children) == 1 && is(run.Children[0], "*Drawing")
//@ def shapeOf(g *AGraphic) *WordprocessingShape = g.GraphicData.Shape
//@ def showsShape(g *AGraphic, ext *WPExtent, w int64, h int64, bwMode string, prst string, ln *ALine) bool = ext != nil && ext.CX == w && ext.CY == h && g != nil && g.GraphicData != nil && g.GraphicData.Pic == nil && \
//@   shapeOf(g) != nil && shapeOf(g).SpPr != nil && shapeOf(g).SpPr.BWMode == bwMode && shapeOf(g).SpPr.Xfrm.Ext.CX == w && shapeOf(g).SpPr.Xfrm.Ext.CY == h && shapeOf(g).SpPr.PrstGeom.Prst == prst && shapeOf(g).SpPr.Line == ln

//@ func (p *Paragraph) AddInlineShape(w, h, name, bwMode, prst, ln) (run) [C18]
//@ requires p != nil && p.file != nil && p.file.slowIDs != nil && p.file.docID < 4611686018427387904
//@ modifies p.Children, p.file.docID, mapof(p.file.slowIDs)
//@ ensures newRun(p, run, old(p.Children))
//@ ensures drawingOf(run).Inline != nil && drawingOf(run).Anchor == nil && drawingOf(run).Inline.DocPr != nil && drawingOf(run).Inline.DocPr.ID == old(p.file.docID) + 1
//@ ensures p.file.docID == old(p.file.docID) + 1
//@ ensures showsShape(drawingOf(run).Inline.Graphic, drawingOf(run).Inline.Extent, w, h, bwMode, prst, ln)
//@ ensures drawingOf(run).file == p.file && drawingOf(run).Inline.file == p.file

//@ func (p *Paragraph) AddAnchorShape(w, h, name, bwMode, prst, ln) (run) [C18]
//@ requires p != nil && p.file != nil && p.file.slowIDs != nil && p.file.docID < 4611686018427387904
//@ modifies p.Children, p.file.docID, mapof(p.file.slowIDs)
//@ ensures newRun(p, run, old(p.Children))
//@ ensures drawingOf(run).Anchor != nil && drawingOf(run).Inline == nil && drawingOf(run).Anchor.DocPr != nil && drawingOf(run).Anchor.DocPr.ID == old(p.file.docID) + 1
//@ ensures p.file.docID == old(p.file.docID) + 1
//@ ensures showsShape(drawingOf(run).Anchor.Graphic, drawingOf(run).Anchor.Extent, w, h, bwMode, prst, ln)
//@ ensures drawingOf(run).file == p.file && drawingOf(run).Anchor.file == p.file
