# C12: plain-text rendering is total and in reading order
#
# a picture is shown with the hash of the bytes of its image, or the reason why there is none
//@ def mediaNamed(f *Docx, t string) bool = prefix(t, "media/") && has(f.mediaNameIdx, t[6:])
//@ def hash(f *Docx, id string) string = cond(linked(f, id), cond(mediaNamed(f, target(f, id)), md5hex(f.media[f.mediaNameIdx[target(f, id)[6:]]].Data), uf("errtext", "string", ErrRefTargetNotFound)), uf("errtext", "string", ErrRefIDNotFound))
//@ def picName(d *WPDocPr, p *Picture) string = cond(d != nil, d.Name, cond(p.NonVisualPicProperties != nil, p.NonVisualPicProperties.NonVisualDrawingProperties.Name, cond(p.BlipFill != nil, p.BlipFill.Blip.Embed, "")))
//@ def picMark(kind string, f *Docx, d *WPDocPr, p *Picture) string = "![" + kind + "im " + picName(d, p) + "](" + cond(p.BlipFill != nil, hash(f, p.BlipFill.Blip.Embed), "") + ")"
//@ def shapeName(d *WPDocPr, s *WordprocessingShape) string = cond(d != nil, d.Name, cond(s.CNvPr != nil, s.CNvPr.Name, cond(s.SpPr != nil, s.SpPr.PrstGeom.Prst, "nil")))
//@ def shapeMark(kind string, d *WPDocPr, s *WordprocessingShape) string = "![" + kind + "sp " + shapeName(d, s) + "](" + cond(s.SpPr != nil, s.SpPr.PrstGeom.Prst, "") + ")"
//@ def canvasMark(kind string, d *WPDocPr) string = "![" + kind + "cv " + cond(d != nil, d.Name, "nil") + "]()"
//@ def mark(kind string, f *Docx, d *WPDocPr, g *AGraphic) string = cond(g == nil || g.GraphicData == nil, "![" + kind + "?](unknown)", cond(g.GraphicData.Pic != nil, picMark(kind, f, d, g.GraphicData.Pic), cond(g.GraphicData.Shape != nil, shapeMark(kind, d, g.GraphicData.Shape), cond(g.GraphicData.Canvas != nil, canvasMark(kind, d), "![" + kind + "?](unknown)"))))

//@ func (r *WPInline) String() (s) [C12]
//@ requires r != nil && r.file != nil && mediaWF(r.file)
//@ modifies nothing
//@ ensures s == mark("inln", r.file, r.DocPr, r.Graphic)

//@ func (r *WPAnchor) String() (s) [C12]
//@ requires r != nil && r.file != nil && mediaWF(r.file)
//@ modifies nothing
//@ ensures s == mark("anch", r.file, r.DocPr, r.Graphic)

# the text of a run and of a paragraph, in order
//@ def drawMark(d *Drawing) string = cond(d.Inline != nil, mark("inln", d.Inline.file, d.Inline.DocPr, d.Inline.Graphic), cond(d.Anchor != nil, mark("anch", d.Anchor.file, d.Anchor.DocPr, d.Anchor.Graphic), ""))
//@ fold runText(cs []interface{}) string = cond(is(e, "*Text"), as(e, "*Text").Text, cond(is(e, "*Tab"), "\t", cond(is(e, "*BarterRabbet"), "\n", cond(is(e, "*Drawing"), drawMark(as(e, "*Drawing")), ""))))
//@ def linkText(f *Docx, h *Hyperlink) string = "[" + h.Run.InstrText + "](" + cond(linked(f, h.ID), target(f, h.ID), h.ID) + ")"
//@ fold paraText(cs []interface{}, f *Docx) string = cond(is(e, "*Hyperlink"), linkText(f, as(e, "*Hyperlink")), cond(is(e, "*Run"), runText(as(e, "*Run").Children), ""))
//@ def runOK12(r *Run) bool = forall(j, 0, len(r.Children), imp(is(r.Children[j], "*Drawing"), drawingOK12(as(r.Children[j], "*Drawing"))))
//@ def drawingOK12(d *Drawing) bool = imp(d.Inline != nil, d.Inline.file != nil && mediaWF(d.Inline.file)) && imp(d.Anchor != nil, d.Anchor.file != nil && mediaWF(d.Anchor.file))
//@ def paraOK12(p *Paragraph) bool = p.file != nil && forall(i, 0, len(p.Children), imp(is(p.Children[i], "*Run"), runOK12(as(p.Children[i], "*Run"))))

//@ func (p *Paragraph) String() (s) [C12]
//@ requires p != nil && paraOK12(p)
//@ noniltree
//@ modifies nothing
//@ invariant {string} acc == acc0 + runText(seq, upto(k))
//@ invariant {string} acc == acc0 + paraText(seq, upto(k), p.file)
//@ ensures s == paraText(p.Children, p.file)

# a table: a line of column marks, then one line per row with one cell per table cell
//@ fold columns(cs []*WTableCell) string = " :----: |"
//@ fold cellsText(cs []*WTableCell) string = cond(len(e.Paragraphs) > 0 && len(e.Paragraphs[0].Children) > 0, " " + paraText(e.Paragraphs[0].Children, e.Paragraphs[0].file), "       ") + " |"
//@ fold rowsText(rs []*WTableRow) string = "\n|" + cellsText(e.TableCells)
//@ def cellsOK12(cs []*WTableCell) bool = forall(b, 0, len(cs), imp(len(cs[b].Paragraphs) > 0, paraOK12(cs[b].Paragraphs[0])))
//@ def rowsOK12(rs []*WTableRow) bool = forall(a, 0, len(rs), cellsOK12(rs[a].TableCells))

//@ func (t *Table) String() (s) [C12]
//@ requires t != nil && rowsOK12(t.TableRows)
//@ noniltree
//@ modifies nothing
//@ ensures len(t.TableRows) > 0 && len(t.TableRows[0].TableCells) > 0 ==> s == "| " + columns(t.TableRows[0].TableCells) + rowsText(t.TableRows)
//@ ensures len(t.TableRows) == 0 || len(t.TableRows[0].TableCells) == 0 ==> s == ""
//@ invariant {string} acc == acc0 + columns(t.TableRows[0].TableCells, upto(k))
//@ invariant {string} acc == acc0 + cellsText(seq, upto(k))
//@ invariant {string} acc == acc0 + rowsText(seq, upto(k))
