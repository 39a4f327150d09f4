# C11: filters remove exactly the selected elements
#
# Keep: exactly the items whose type is named, in order
//@ fold named(ns []string, n string) bool = e == n
//@ fold kept(items []interface{}, names []string) []interface{} = cond(named(names, typestr(e)), seq("interface{}", e), seq("interface{}"))

//@ func (b *Body) KeepElements(name) () [C11]
//@ requires b != nil && forall(i, 0, len(b.Items), b.Items[i] != nil)
//@ modifies b.Items
//@ invariant {map[string]struct{}} forallkey(n, acc, has(acc, n) == named(name, upto(k), n))
//@ invariant {[]interface{}} acc == kept(old(b.Items), upto(k), name)
//@ ensures b.Items == kept(old(b.Items), name)

//@ func (p *Paragraph) KeepElements(name) () [C11]
//@ requires p != nil && forall(i, 0, len(p.Children), p.Children[i] != nil)
//@ modifies p.Children
//@ invariant {map[string]struct{}} forallkey(n, acc, has(acc, n) == named(name, upto(k), n))
//@ invariant {[]interface{}} acc == kept(old(p.Children), upto(k), name)
//@ ensures p.Children == kept(old(p.Children), name)

//@ func (r *Run) KeepElements(name) () [C11]
//@ requires r != nil && forall(i, 0, len(r.Children), r.Children[i] != nil)
//@ modifies r.Children
//@ invariant {map[string]struct{}} forallkey(n, acc, has(acc, n) == named(name, upto(k), n))
//@ invariant {[]interface{}} acc == kept(old(r.Children), upto(k), name)
//@ ensures r.Children == kept(old(r.Children), name)

# Drop: a drawing is dropped for what its inline or its anchored graphic holds
//@ def dataCanvas(g *AGraphic) bool = g != nil && g.GraphicData != nil && g.GraphicData.Canvas != nil
//@ def dataShape(g *AGraphic) bool = g != nil && g.GraphicData != nil && g.GraphicData.Shape != nil
//@ def dataGroup(g *AGraphic) bool = g != nil && g.GraphicData != nil && g.GraphicData.Group != nil
//@ def dataPic(g *AGraphic) bool = g != nil && g.GraphicData != nil && g.GraphicData.Pic != nil
//@ def hasCanvas(d *Drawing) bool = d.Inline != nil && dataCanvas(d.Inline.Graphic) || d.Anchor != nil && dataCanvas(d.Anchor.Graphic)
//@ def hasShape(d *Drawing) bool = d.Inline != nil && dataShape(d.Inline.Graphic) || d.Anchor != nil && dataShape(d.Anchor.Graphic)
//@ def hasGroup(d *Drawing) bool = d.Inline != nil && dataGroup(d.Inline.Graphic) || d.Anchor != nil && dataGroup(d.Anchor.Graphic)
//@ def noPicture(d *Drawing) bool = d.Inline == nil && d.Anchor == nil || d.Inline != nil && !dataPic(d.Inline.Graphic) || d.Anchor != nil && !dataPic(d.Anchor.Graphic)
//@ def selected(d *Drawing, kind string) bool = kind == "Canvas" && hasCanvas(d) || kind == "Shape" && hasShape(d) || kind == "Group" && hasGroup(d) || kind == "ShapeAndCanvas" && (hasShape(d) || hasCanvas(d)) || kind == "ShapeAndCanvasAndGroup" && (hasShape(d) || hasCanvas(d) || hasGroup(d)) || kind == "NilPicture" && noPicture(d)
//@ fold dropped(cs []interface{}, kind string) []interface{} = cond(is(e, "*Drawing") && selected(as(e, "*Drawing"), kind), seq("interface{}"), seq("interface{}", e))
#
# hasRun: a run is a child of the paragraph
//@ fold hasRun(cs []interface{}, r *Run) bool = e == box(r)

//@ func (p *Paragraph) DropCanvas() () [C11]
//@ requires p != nil
//@ noniltree
//@ modifies any(Run.Children)
//@ invariant {[]interface{}} acc == dropped(seq, upto(k), "Canvas")
//@ invariant forallval(r, "*Run", r.Children == cond(hasRun(p.Children, upto(k), r), dropped(old(r.Children), "Canvas"), old(r.Children)))
//@ ensures forallval(r, "*Run", r.Children == cond(hasRun(p.Children, r), dropped(old(r.Children), "Canvas"), old(r.Children)))

//@ func (p *Paragraph) DropShape() () [C11]
//@ requires p != nil
//@ noniltree
//@ modifies any(Run.Children)
//@ invariant {[]interface{}} acc == dropped(seq, upto(k), "Shape")
//@ invariant forallval(r, "*Run", r.Children == cond(hasRun(p.Children, upto(k), r), dropped(old(r.Children), "Shape"), old(r.Children)))
//@ ensures forallval(r, "*Run", r.Children == cond(hasRun(p.Children, r), dropped(old(r.Children), "Shape"), old(r.Children)))

//@ func (p *Paragraph) DropGroup() () [C11]
//@ requires p != nil
//@ noniltree
//@ modifies any(Run.Children)
//@ invariant {[]interface{}} acc == dropped(seq, upto(k), "Group")
//@ invariant forallval(r, "*Run", r.Children == cond(hasRun(p.Children, upto(k), r), dropped(old(r.Children), "Group"), old(r.Children)))
//@ ensures forallval(r, "*Run", r.Children == cond(hasRun(p.Children, r), dropped(old(r.Children), "Group"), old(r.Children)))

//@ func (p *Paragraph) DropShapeAndCanvas() () [C11]
//@ requires p != nil
//@ noniltree
//@ modifies any(Run.Children)
//@ invariant {[]interface{}} acc == dropped(seq, upto(k), "ShapeAndCanvas")
//@ invariant forallval(r, "*Run", r.Children == cond(hasRun(p.Children, upto(k), r), dropped(old(r.Children), "ShapeAndCanvas"), old(r.Children)))
//@ ensures forallval(r, "*Run", r.Children == cond(hasRun(p.Children, r), dropped(old(r.Children), "ShapeAndCanvas"), old(r.Children)))

//@ func (p *Paragraph) DropShapeAndCanvasAndGroup() () [C11]
//@ requires p != nil
//@ noniltree
//@ modifies any(Run.Children)
//@ invariant {[]interface{}} acc == dropped(seq, upto(k), "ShapeAndCanvasAndGroup")
//@ invariant forallval(r, "*Run", r.Children == cond(hasRun(p.Children, upto(k), r), dropped(old(r.Children), "ShapeAndCanvasAndGroup"), old(r.Children)))
//@ ensures forallval(r, "*Run", r.Children == cond(hasRun(p.Children, r), dropped(old(r.Children), "ShapeAndCanvasAndGroup"), old(r.Children)))

//@ func (p *Paragraph) DropNilPicture() () [C11]
//@ requires p != nil
//@ noniltree
//@ modifies any(Run.Children)
//@ invariant {[]interface{}} acc == dropped(seq, upto(k), "NilPicture")
//@ invariant forallval(r, "*Run", r.Children == cond(hasRun(p.Children, upto(k), r), dropped(old(r.Children), "NilPicture"), old(r.Children)))
//@ ensures forallval(r, "*Run", r.Children == cond(hasRun(p.Children, r), dropped(old(r.Children), "NilPicture"), old(r.Children)))

# the document-wide form: every paragraph among the items and in the cells of tables among the items
//@ fold paraHas(ps []*Paragraph, r *Run) bool = hasRun(e.Children, r)
//@ fold cellHas(cs []*WTableCell, r *Run) bool = paraHas(e.Paragraphs, r)
//@ fold rowHas(rs []*WTableRow, r *Run) bool = cellHas(e.TableCells, r)
//@ fold itemHas(items []interface{}, r *Run) bool = is(e, "*Paragraph") && hasRun(as(e, "*Paragraph").Children, r) || is(e, "*Table") && rowHas(as(e, "*Table").TableRows, r)
//@ def kindOK(k string) bool = k == "Canvas" || k == "Shape" || k == "Group" || k == "ShapeAndCanvas" || k == "ShapeAndCanvasAndGroup" || k == "NilPicture"

//@ func (b *Body) DropDrawingOf(name) () [C11]
//@ requires b != nil && kindOK(name)
//@ noniltree
//@ modifies any(Run.Children)
//@ invariant forallval(r, "*Run", r.Children == cond(itemHas(seq, upto(k), r), dropped(entry(r.Children), name), entry(r.Children)))
//@ invariant forallval(r, "*Run", r.Children == cond(rowHas(seq, upto(k), r), dropped(entry(r.Children), name), entry(r.Children)))
//@ invariant forallval(r, "*Run", r.Children == cond(cellHas(seq, upto(k), r), dropped(entry(r.Children), name), entry(r.Children)))
//@ invariant forallval(r, "*Run", r.Children == cond(paraHas(seq, upto(k), r), dropped(entry(r.Children), name), entry(r.Children)))
//@ ensures forallval(r, "*Run", r.Children == cond(itemHas(b.Items, r), dropped(old(r.Children), name), old(r.Children)))
