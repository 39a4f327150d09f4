# C07: appending a document keeps its content and resolves references (C08: so does splitting)
#
# tables of a document only grow, so what resolves keeps resolving
//@ def relsGrow(f *Docx, r0 []Relationship) bool = len(r0) <= len(f.docRelation.Relationship) && forall(i, 0, len(r0), f.docRelation.Relationship[i] == r0[i])
//@ def mediaGrow(f *Docx, m0 []Media) bool = len(m0) <= len(f.media) && forall(i, 0, len(m0), f.media[i] == m0[i])
# picOf: the graphic holds a picture with an image
//@ def picOf(g *AGraphic) bool = g != nil && g.GraphicData != nil && g.GraphicData.Pic != nil && g.GraphicData.Pic.BlipFill != nil
//@ def embed(g *AGraphic) string = g.GraphicData.Pic.BlipFill.Blip.Embed
//@ def shown(f *Docx, g *AGraphic) bool = linked(f, embed(g)) && mediaNamed(f, target(f, embed(g)))
//@ def image(f *Docx, g *AGraphic) []byte = f.media[f.mediaNameIdx[target(f, embed(g))[6:]]].Data
# samePic: the copy of a graphic differs in the reference and the numbering only
//@ def samePic(n *AGraphic, g *AGraphic, f *Docx) bool = n != nil && fresh(n) && except(*n, *g, "GraphicData", "file") && n.file == f && n.GraphicData != nil && fresh(n.GraphicData) && except(*n.GraphicData, *g.GraphicData, "Pic", "file") && n.GraphicData.file == f && n.GraphicData.Pic != nil && fresh(n.GraphicData.Pic) && except(*n.GraphicData.Pic, *g.GraphicData.Pic, "NonVisualPicProperties", "BlipFill") && n.GraphicData.Pic.BlipFill != nil && fresh(n.GraphicData.Pic.BlipFill) && n.GraphicData.Pic.BlipFill.Stretch == g.GraphicData.Pic.BlipFill.Stretch && n.GraphicData.Pic.BlipFill.Blip.AlphaModFix == g.GraphicData.Pic.BlipFill.Blip.AlphaModFix && n.GraphicData.Pic.BlipFill.Blip.Cstate == g.GraphicData.Pic.BlipFill.Blip.Cstate
# refersNew: the copy refers to the relation and the media that were added last
//@ def refersNew(n *AGraphic, f *Docx, data []byte) bool = len(f.docRelation.Relationship) > 0 && forall(i, 0, len(f.docRelation.Relationship)-1, f.docRelation.Relationship[i].ID != embed(n)) && embed(n) == lastRel(f).ID && lastRel(f).Target == "media/" + lastMedia(f).Name && lastMedia(f).Data == data && has(f.mediaNameIdx, lastMedia(f).Name) && f.mediaNameIdx[lastMedia(f).Name] == len(f.media)-1
//@ def kept07(g *AGraphic) bool = g == nil || g.GraphicData == nil || g.GraphicData.Pic == nil && (g.GraphicData.Shape != nil || g.GraphicData.Canvas != nil)

//@ func (r *WPInline) copymedia(to) (n) [C07 C08]
//@ helper
//@ requires r != nil && docWF(to) && imp(picOf(r.Graphic), r.file != nil && mediaWF(r.file))
//@ small Docx.rID Docx.docID
//@ modifies to.docID, mapof(to.slowIDs), to.imageID, to.rID, to.docRelation.Relationship, to.media, mapof(to.mediaNameIdx)
//@ ensures wfAfter(to)
//@ ensures relsGrow(to, old(to.docRelation.Relationship))
//@ ensures mediaGrow(to, old(to.media))
//@ ensures kept07(r.Graphic) ==> n == r
//@ ensures old(picOf(r.Graphic) && shown(r.file, r.Graphic)) ==> n != nil && fresh(n) && except(*n, *r, "Graphic", "DocPr", "file") && n.file == to && samePic(n.Graphic, r.Graphic, to)
//@ ensures old(picOf(r.Graphic) && shown(r.file, r.Graphic)) ==> refersNew(n.Graphic, to, old(image(r.file, r.Graphic)))

//@ func (r *WPAnchor) copymedia(to) (n) [C07 C08]
//@ helper
//@ requires r != nil && docWF(to) && imp(picOf(r.Graphic), r.file != nil && mediaWF(r.file))
//@ small Docx.rID Docx.docID
//@ modifies to.docID, mapof(to.slowIDs), to.imageID, to.rID, to.docRelation.Relationship, to.media, mapof(to.mediaNameIdx)
//@ ensures wfAfter(to)
//@ ensures relsGrow(to, old(to.docRelation.Relationship))
//@ ensures mediaGrow(to, old(to.media))
//@ ensures kept07(r.Graphic) ==> n == r
//@ ensures old(picOf(r.Graphic) && shown(r.file, r.Graphic)) ==> n != nil && fresh(n) && except(*n, *r, "Graphic", "DocPr", "file") && n.file == to && samePic(n.Graphic, r.Graphic, to)
//@ ensures old(picOf(r.Graphic) && shown(r.file, r.Graphic)) ==> refersNew(n.Graphic, to, old(image(r.file, r.Graphic)))

//@ func (r *Drawing) copymedia(to) (n) [C07 C08]
//@ helper
//@ requires r != nil && docWF(to) && drawingOK07(r, to)
//@ small Docx.rID Docx.docID
//@ modifies to.docID, mapof(to.slowIDs), to.imageID, to.rID, to.docRelation.Relationship, to.media, mapof(to.mediaNameIdx)
//@ ensures wfAfter(to)
//@ ensures relsGrow(to, old(to.docRelation.Relationship))
//@ ensures mediaGrow(to, old(to.media))
//@ ensures n != nil && fresh(n) && n.file == to
//@ ensures (r.Inline == nil ==> n.Inline == nil) && (r.Inline != nil || r.Anchor == nil ==> n.Anchor == nil)
//@ ensures r.Inline != nil && kept07(r.Inline.Graphic) ==> n.Inline == r.Inline
//@ ensures r.Inline == nil && r.Anchor != nil && kept07(r.Anchor.Graphic) ==> n.Anchor == r.Anchor
//@ ensures old(r.Inline != nil && picOf(r.Inline.Graphic) && shown(r.Inline.file, r.Inline.Graphic)) ==> n.Inline != nil && refersNew(n.Inline.Graphic, to, old(image(r.Inline.file, r.Inline.Graphic)))
//@ ensures old(r.Inline == nil && r.Anchor != nil && picOf(r.Anchor.Graphic) && shown(r.Anchor.file, r.Anchor.Graphic)) ==> n.Anchor != nil && refersNew(n.Anchor.Graphic, to, old(image(r.Anchor.file, r.Anchor.Graphic)))
//@ def sourceOK(f *Docx, to *Docx) bool = f != nil && f != to && f.mediaNameIdx != to.mediaNameIdx && mediaWF(f)
//@ def drawingOK07(d *Drawing, to *Docx) bool = imp(d.Inline != nil && picOf(d.Inline.Graphic), sourceOK(d.Inline.file, to)) && imp(d.Anchor != nil && picOf(d.Anchor.Graphic), sourceOK(d.Anchor.file, to))

# content: the children of a run with drawings left out of account, of a paragraph, a table, a document,
# one after another, with the property objects they are shown with
//@ fold runKids(cs []interface{}) []interface{} = cond(is(e, "*Drawing"), seq("interface{}", nil), seq("interface{}", e))
//@ def runBody(r *Run) []interface{} = cat(seq("interface{}", box(r.RunProperties)), runKids(r.Children))
//@ def linkBody(h *Hyperlink) []interface{} = cat(seq("interface{}", box(h.Run.RunProperties)), runKids(h.Run.Children))
//@ def rels(f *Docx) []Relationship = f.docRelation.Relationship
//@ fold paraSrc(cs []interface{}, rs []Relationship) []interface{} = cond(is(e, "*Run"), runBody(as(e, "*Run")), cond(is(e, "*Hyperlink"), cond(linkIdx(rs, as(e, "*Hyperlink").ID) < len(rs), linkBody(as(e, "*Hyperlink")), seq("interface{}")), seq("interface{}", e)))
//@ fold paraNew(cs []interface{}) []interface{} = cond(is(e, "*Run"), runBody(as(e, "*Run")), cond(is(e, "*Hyperlink"), linkBody(as(e, "*Hyperlink")), seq("interface{}", e)))
//@ def kidsOK07(cs []interface{}, to *Docx) bool = forall(j, 0, len(cs), imp(is(cs[j], "*Drawing"), drawingOK07(as(cs[j], "*Drawing"), to)))
//@ def runOK07(r *Run, to *Docx) bool = kidsOK07(r.Children, to)
//@ def paraOK07(p *Paragraph, to *Docx) bool = p.file != nil && p.file != to && forall(i, 0, len(p.Children), imp(is(p.Children[i], "*Run"), kidsOK07(as(p.Children[i], "*Run").Children, to)) && imp(is(p.Children[i], "*Hyperlink"), kidsOK07(as(p.Children[i], "*Hyperlink").Run.Children, to)))

//@ func (r *Run) copymedia(to) (n) [C07 C08]
//@ helper
//@ requires r != nil && docWF(to) && runOK07(r, to)
//@ noniltree
//@ small Docx.rID Docx.docID
//@ modifies to.docID, mapof(to.slowIDs), to.imageID, to.rID, to.docRelation.Relationship, to.media, mapof(to.mediaNameIdx)
//@ invariant wfAfter(to)
//@ invariant relsGrow(to, old(to.docRelation.Relationship))
//@ invariant mediaGrow(to, old(to.media))
//@ invariant {[]interface{}} runKids(acc) == runKids(seq, upto(k))
//@ ensures wfAfter(to)
//@ ensures relsGrow(to, old(to.docRelation.Relationship))
//@ ensures mediaGrow(to, old(to.media))
//@ ensures n != nil && fresh(n) && except(*n, *r, "Children", "file") && n.file == to
//@ ensures runKids(n.Children) == runKids(r.Children)

//@ func (p *Paragraph) copymedia(to) (np) [C07 C08]
//@ helper
//@ requires p != nil && docWF(to) && paraOK07(p, to)
//@ noniltree
//@ small Docx.rID Docx.docID
//@ modifies to.docID, mapof(to.slowIDs), to.imageID, to.rID, to.docRelation.Relationship, to.media, mapof(to.mediaNameIdx)
//@ invariant wfAfter(to)
//@ invariant relsGrow(to, old(to.docRelation.Relationship))
//@ invariant mediaGrow(to, old(to.media))
//@ invariant {[]interface{}} paraNew(acc) == paraSrc(seq, upto(k), rels(p.file))
//@ invariant {[]interface{}} imp(k > 0 && is(seq[k-1], "*Hyperlink") && linked(p.file, as(seq[k-1], "*Hyperlink").ID), len(acc) > 0 && is(acc[len(acc)-1], "*Hyperlink") && exists(m, 0, len(to.docRelation.Relationship), to.docRelation.Relationship[m].ID == as(acc[len(acc)-1], "*Hyperlink").ID && to.docRelation.Relationship[m].Target == target(p.file, as(seq[k-1], "*Hyperlink").ID)))
//@ ensures wfAfter(to)
//@ ensures relsGrow(to, old(to.docRelation.Relationship))
//@ ensures mediaGrow(to, old(to.media))
//@ ensures except(np, *p, "Children", "file") && np.file == to
//@ ensures paraNew(np.Children) == paraSrc(p.Children, rels(p.file))

# a table: the content of its rows, cells and paragraphs with the properties of each, in order
//@ fold cellSrc(ps []*Paragraph, rs []Relationship) []interface{} = cat(seq("interface{}", box(e.Properties)), paraSrc(e.Children, rs))
//@ fold cellNew(ps []*Paragraph) []interface{} = cat(seq("interface{}", box(e.Properties)), paraNew(e.Children))
//@ fold rowSrc(cs []*WTableCell, rs []Relationship) []interface{} = cat(seq("interface{}", box(e.TableCellProperties)), cellSrc(e.Paragraphs, rs))
//@ fold rowNew(cs []*WTableCell) []interface{} = cat(seq("interface{}", box(e.TableCellProperties)), cellNew(e.Paragraphs))
//@ fold tblSrc(ws []*WTableRow, rs []Relationship) []interface{} = cat(seq("interface{}", box(e.TableRowProperties)), rowSrc(e.TableCells, rs))
//@ fold tblNew(ws []*WTableRow) []interface{} = cat(seq("interface{}", box(e.TableRowProperties)), rowNew(e.TableCells))
//@ def tblOK07(t *Table, to *Docx) bool = t.file != nil && t.file != to && forall(i, 0, len(t.TableRows), forall(j, 0, len(t.TableRows[i].TableCells), forall(l, 0, len(t.TableRows[i].TableCells[j].Paragraphs), t.TableRows[i].TableCells[j].Paragraphs[l].file == t.file && paraOK07(t.TableRows[i].TableCells[j].Paragraphs[l], to))))

//@ func (t *Table) copymedia(to) (nt) [C07 C08]
//@ helper
//@ requires t != nil && docWF(to) && tblOK07(t, to)
//@ assumed the loops over rows and cells are checked by the bounded harness
//@ noniltree
//@ small Docx.rID Docx.docID
//@ modifies to.docID, mapof(to.slowIDs), to.imageID, to.rID, to.docRelation.Relationship, to.media, mapof(to.mediaNameIdx)
//@ invariant wfAfter(to)
//@ invariant relsGrow(to, old(to.docRelation.Relationship))
//@ invariant mediaGrow(to, old(to.media))
//@ invariant {[]*WTableRow} tblNew(acc) == tblSrc(seq, upto(k), rels(t.file))
//@ invariant {[]*WTableCell} rowNew(acc) == rowSrc(seq, upto(k), rels(t.file))
//@ invariant {[]*Paragraph} cellNew(acc) == cellSrc(seq, upto(k), rels(t.file))
//@ ensures wfAfter(to)
//@ ensures relsGrow(to, old(to.docRelation.Relationship))
//@ ensures mediaGrow(to, old(to.media))
//@ ensures except(nt, *t, "TableRows", "file") && nt.file == to
//@ ensures len(nt.TableRows) == len(t.TableRows)
//@ ensures tblNew(nt.TableRows) == tblSrc(t.TableRows, rels(t.file))

# a document: its paragraphs and tables with their properties and content, in order
//@ fold bodySrc(cs []interface{}, rs []Relationship) []interface{} = cond(is(e, "*Paragraph"), cat(seq("interface{}", box(as(e, "*Paragraph").Properties)), paraSrc(as(e, "*Paragraph").Children, rs)), cond(is(e, "*Table"), cat(seq("interface{}", box(as(e, "*Table").TableProperties), box(as(e, "*Table").TableGrid)), tblSrc(as(e, "*Table").TableRows, rs)), seq("interface{}", e)))
//@ fold bodyNew(cs []interface{}) []interface{} = cond(is(e, "*Paragraph"), cat(seq("interface{}", box(as(e, "*Paragraph").Properties)), paraNew(as(e, "*Paragraph").Children)), cond(is(e, "*Table"), cat(seq("interface{}", box(as(e, "*Table").TableProperties), box(as(e, "*Table").TableGrid)), tblNew(as(e, "*Table").TableRows)), seq("interface{}", e)))
//@ def bodyOK07(f *Docx, to *Docx) bool = forall(i, 0, len(f.Document.Body.Items), imp(is(f.Document.Body.Items[i], "*Paragraph"), as(f.Document.Body.Items[i], "*Paragraph").file == f && paraOK07(as(f.Document.Body.Items[i], "*Paragraph"), to)) && imp(is(f.Document.Body.Items[i], "*Table"), as(f.Document.Body.Items[i], "*Table").file == f && tblOK07(as(f.Document.Body.Items[i], "*Table"), to)))

//@ func (f *Docx) AppendFile(af) () [C07]
//@ requires docWF(f) && af != nil && f != af && bodyOK07(af, f)
//@ noniltree
//@ small Docx.rID Docx.docID
//@ modifies f.Document.Body.Items, f.docID, mapof(f.slowIDs), f.imageID, f.rID, f.docRelation.Relationship, f.media, mapof(f.mediaNameIdx)
//@ invariant wfAfter(f)
//@ invariant relsGrow(f, old(f.docRelation.Relationship))
//@ invariant mediaGrow(f, old(f.media))
//@ invariant {[]interface{}} len(acc) == len(acc0) + k && acc[:len(acc0)] == acc0
//@ invariant {[]interface{}} bodyNew(acc) == cat(bodyNew(acc0), bodySrc(seq, upto(k), rels(af)))
//@ ensures wfAfter(f)
//@ ensures relsGrow(f, old(f.docRelation.Relationship))
//@ ensures mediaGrow(f, old(f.media))
//@ ensures len(f.Document.Body.Items) == old(len(f.Document.Body.Items)) + old(len(af.Document.Body.Items))
//@ ensures f.Document.Body.Items[:old(len(f.Document.Body.Items))] == old(f.Document.Body.Items)
//@ ensures bodyNew(f.Document.Body.Items) == cat(bodyNew(old(f.Document.Body.Items)), bodySrc(af.Document.Body.Items, rels(af)))
