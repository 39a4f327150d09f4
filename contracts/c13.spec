# C13: tables are built with the requested shape and properties
#
//@ def cellOK(c *WTableCell, w int64, ty string) bool = c != nil && c.TableCellProperties != nil && c.TableCellProperties.TableCellWidth != nil && c.TableCellProperties.TableCellWidth.W == w && c.TableCellProperties.TableCellWidth.Type == ty
//@ def colour(s string) string = cond(s == "", "#000000", s)
//@ def single(b *WTableBorder, col string) bool = b != nil && b.Val == "single" && b.Size == 4 && b.Space == 0 && b.Color == col
//@ def widthOK(t *Table, w int64) bool = t.TableProperties != nil && t.TableProperties.Width != nil && (w > 0 ==> *t.TableProperties.Width == WTableWidth{W: w}) && (w <= 0 ==> *t.TableProperties.Width == WTableWidth{Type: "auto"})
//@ def bordersOK(b *WTableBorders, c APITableBorderColors) bool = b != nil && single(b.Top, colour(c.Top)) && single(b.Left, colour(c.Left)) && single(b.Bottom, colour(c.Bottom)) && single(b.Right, colour(c.Right)) && single(b.InsideH, colour(c.InsideH)) && single(b.InsideV, colour(c.InsideV))

//@ func (tbc *APITableBorderColors) applyDefault() () [C13]
//@ helper
//@ requires tbc != nil
//@ modifies *tbc
//@ ensures tbc.Top == colour(old(tbc.Top)) && tbc.Left == colour(old(tbc.Left)) && tbc.Bottom == colour(old(tbc.Bottom))
//@ ensures tbc.Right == colour(old(tbc.Right)) && tbc.InsideH == colour(old(tbc.InsideH)) && tbc.InsideV == colour(old(tbc.InsideV))

//@ func (t *Table) Justification(val) (res) [C13]
//@ requires t != nil
//@ modifies t.TableProperties, t.TableProperties.Justification, t.TableProperties.Justification.Val
//@ ensures res == t && t.TableProperties != nil && t.TableProperties.Justification != nil && t.TableProperties.Justification.Val == val
//@ ensures except(*t.TableProperties, old(cond(t.TableProperties == nil, WTableProperties{}, *t.TableProperties)), "Justification")

//@ func (w *WTableRow) Justification(val) (res) [C13]
//@ requires w != nil
//@ modifies w.TableRowProperties, w.TableRowProperties.Justification, w.TableRowProperties.Justification.Val
//@ ensures res == w && w.TableRowProperties != nil && w.TableRowProperties.Justification != nil && w.TableRowProperties.Justification.Val == val
//@ ensures except(*w.TableRowProperties, old(cond(w.TableRowProperties == nil, WTableRowProperties{}, *w.TableRowProperties)), "Justification")

//@ func (c *WTableCell) Shade(val, color, fill) (res) [C13]
//@ requires c != nil
//@ modifies c.TableCellProperties, c.TableCellProperties.Shade
//@ ensures res == c && c.TableCellProperties != nil && c.TableCellProperties.Shade != nil && *c.TableCellProperties.Shade == Shade{Val: val, Color: color, Fill: fill}
//@ ensures except(*c.TableCellProperties, old(cond(c.TableCellProperties == nil, WTableCellProperties{}, *c.TableCellProperties)), "Shade")

//@ func (f *Docx) AddTable(row, col, tableWidth, borderColors) (tbl) [C13]
//@ requires f != nil && row >= 0 && col >= 0
//@ modifies f.Document.Body.Items, *borderColors
//@ invariant {[]*WTableCell} forall(j, 0, k, cellOK(acc[j], 0, "auto") && acc[j].file == f)
//@ invariant {[]*WTableCell} forall(j, 0, k, newHere(acc[j]))
//@ invariant {[]*WTableCell} forall(j, 0, k, iterbase(j) <= oid(acc[j]) && oid(acc[j]) < iterbase(j+1))
//@ invariant {[]*WTableRow} forall(j, 0, k, iterbase(j) <= oid(acc[j]) && oid(acc[j]) < iterbase(j+1))
//@ invariant {[]*WTableRow} forall(j, 0, k, acc[j] != nil && len(acc[j].TableCells) == col && acc[j].TableRowProperties != nil && acc[j].TableRowProperties.TableRowHeight == nil)
//@ invariant {[]*WTableRow} forall(j, 0, k, forall(l, 0, col, cellOK(acc[j].TableCells[l], 0, "auto") && acc[j].TableCells[l].file == f))
//@ invariant {[]*WTableRow} forall(a, 0, k, forall(b, 0, col, forall(c, 0, b, acc[a].TableCells[b] != acc[a].TableCells[c])))
//@ invariant {[]*WTableRow} forall(j, 0, k, forall(l, 0, col, iterbase(j) <= oid(acc[j].TableCells[l]) && oid(acc[j].TableCells[l]) < iterbase(j+1)))
//@ ensures tbl != nil && fresh(tbl) && f.Document.Body.Items == cat(old(f.Document.Body.Items), seq("interface{}", box(tbl)))
//@ ensures len(tbl.TableRows) == row
//@ ensures forall(i, 0, row, tbl.TableRows[i] != nil && len(tbl.TableRows[i].TableCells) == col && tbl.TableRows[i].TableRowProperties.TableRowHeight == nil)
//@ ensures forall(i, 0, row, forall(j, 0, col, cellOK(tbl.TableRows[i].TableCells[j], 0, "auto") && tbl.TableRows[i].TableCells[j].file == f))
//@ ensures forall(a, 0, row, forall(b, 0, col, forall(c, 0, b, tbl.TableRows[a].TableCells[b] != tbl.TableRows[a].TableCells[c])))
//@ ensures forall(a, 0, row, forall(b, 0, a, tbl.TableRows[a] != tbl.TableRows[b]))
//@ ensures forall(a, 0, row, forall(b, 0, a, forall(c, 0, col, forall(d, 0, col, tbl.TableRows[a].TableCells[c] != tbl.TableRows[b].TableCells[d]))))
//@ ensures widthOK(tbl, tableWidth)
//@ ensures bordersOK(tbl.TableProperties.TableBorders, old(cond(borderColors == nil, APITableBorderColors{}, *borderColors)))

//@ func (f *Docx) AddTableTwips(rowHeights, colWidths, tableWidth, borderColors) (tbl) [C13]
//@ requires f != nil
//@ modifies f.Document.Body.Items, *borderColors
//@ invariant {[]*WGridCol} forall(j, 0, k, gridOK(acc[j], colWidths[j]))
//@ invariant {[]*WGridCol} forall(j, k, len(colWidths), acc[j] == nil)
//@ invariant {[]*WTableCell} forall(j, 0, k, cellOK(acc[j], colWidths[j], "dxa") && acc[j].file == f)
//@ invariant {[]*WTableCell} forall(j, 0, k, newHere(acc[j]))
//@ invariant {[]*WTableCell} forall(j, 0, k, iterbase(j) <= oid(acc[j]) && oid(acc[j]) < iterbase(j+1))
//@ invariant {[]*WTableRow} forall(j, 0, k, iterbase(j) <= oid(acc[j]) && oid(acc[j]) < iterbase(j+1))
//@ invariant {[]*WTableRow} forall(j, 0, k, acc[j] != nil && len(acc[j].TableCells) == len(colWidths) && heightOK(acc[j].TableRowProperties, rowHeights[j]))
//@ invariant {[]*WTableRow} forall(j, 0, k, forall(l, 0, len(colWidths), cellOK(acc[j].TableCells[l], colWidths[l], "dxa") && acc[j].TableCells[l].file == f))
//@ invariant {[]*WTableRow} forall(a, 0, k, forall(b, 0, len(colWidths), forall(c, 0, b, acc[a].TableCells[b] != acc[a].TableCells[c])))
//@ invariant {[]*WTableRow} forall(j, 0, k, forall(l, 0, len(colWidths), iterbase(j) <= oid(acc[j].TableCells[l]) && oid(acc[j].TableCells[l]) < iterbase(j+1)))
//@ ensures tbl != nil && fresh(tbl) && f.Document.Body.Items == cat(old(f.Document.Body.Items), seq("interface{}", box(tbl)))
//@ ensures len(tbl.TableRows) == len(rowHeights)
//@ ensures forall(i, 0, len(rowHeights), tbl.TableRows[i] != nil && len(tbl.TableRows[i].TableCells) == len(colWidths) && heightOK(tbl.TableRows[i].TableRowProperties, rowHeights[i]))
//@ ensures forall(i, 0, len(rowHeights), forall(j, 0, len(colWidths), cellOK(tbl.TableRows[i].TableCells[j], colWidths[j], "dxa") && tbl.TableRows[i].TableCells[j].file == f))
//@ ensures forall(a, 0, len(rowHeights), forall(b, 0, len(colWidths), forall(c, 0, b, tbl.TableRows[a].TableCells[b] != tbl.TableRows[a].TableCells[c])))
//@ ensures forall(a, 0, len(rowHeights), forall(b, 0, a, tbl.TableRows[a] != tbl.TableRows[b]))
//@ ensures forall(a, 0, len(rowHeights), forall(b, 0, a, forall(c, 0, len(colWidths), forall(d, 0, len(colWidths), tbl.TableRows[a].TableCells[c] != tbl.TableRows[b].TableCells[d]))))
//@ ensures tbl.TableGrid != nil && len(tbl.TableGrid.GridCols) == len(colWidths) && forall(j, 0, len(colWidths), gridOK(tbl.TableGrid.GridCols[j], colWidths[j]))
//@ ensures widthOK(tbl, tableWidth)
//@ ensures bordersOK(tbl.TableProperties.TableBorders, old(cond(borderColors == nil, APITableBorderColors{}, *borderColors)))
//@ def gridOK(g *WGridCol, w int64) bool = (w > 0 ==> g != nil && g.W == w) && (w <= 0 ==> g == nil)
//@ def heightOK(p *WTableRowProperties, h int64) bool = p != nil && (h > 0 ==> p.TableRowHeight != nil && p.TableRowHeight.Val == h) && (h <= 0 ==> p.TableRowHeight == nil)
