# C01, C02, C03: reading back what is written, panic freedom, tolerance of other markup
#
# The contracts of the element decoders are generated from the xml tags of their types (govc/schema.go).
//@ children Body.Items Paragraph Table SectPr
//@ children Paragraph.Children Hyperlink Run RunProperties
//@ children Run.Children Text Drawing Tab BarterRabbet
//@ children WordprocessingCanvas.Items WordprocessingShape Picture WordprocessingGroup
//@ children WordprocessingGroup.Elems Picture WordprocessingShape WordprocessingCanvas WPGGroupShape
//@ children WPGGroupShape.Elems Picture WordprocessingShape WordprocessingCanvas
//@ byparent Hyperlink.ID
//@ passes Run AlternateContent

//@ def attOnce(as []xml.Attr) bool = forall(i, 0, len(as), forall(j, 0, i, as[i].Name.Local != as[j].Name.Local))
//@ def attIs(as []xml.Attr, n string, v string) bool = forall(i, 0, len(as), as[i].Name.Local == n && as[i].Value != "" ==> v == as[i].Value)
//@ def attNum(as []xml.Attr, n string, v int64) bool = forall(i, 0, len(as), as[i].Name.Local == n && as[i].Value != "" && numeric(as[i].Value) ==> v == numVal(as[i].Value))
//@ def attEmpty(as []xml.Attr, n string) bool = forall(i, 0, len(as), as[i].Name.Local == n ==> as[i].Value == "")

//@ def attNone(as []xml.Attr, n string) bool = forall(i, 0, len(as), as[i].Name.Local != n)
# elements as the library writes them: no attribute twice, no anchors on links
//@ def written(tt xml.StartElement) bool = attOnce(tt.Attr) && (tt.Name.Local == "hyperlink" ==> attNone(tt.Attr, "anchor"))
# the flags of a table look are one digit
//@ def attFlag(as []xml.Attr, n string, v int) bool = forall(i, 0, len(as), as[i].Name.Local == n && as[i].Value == "1" ==> v == 1) && forall(i, 0, len(as), as[i].Name.Local == n && as[i].Value == "0" ==> v == 0)

//@ func (r *WTableLook) UnmarshalXML(d, start) (err) [C01 C02 C03]
//@ helper
//@ requires r != nil && d != nil
//@ requires [C01] attOnce(start.Attr)
//@ modifies *r
//@ invariant [C01] forall(j, 0, k, start.Attr[j].Name.Local == "val" && start.Attr[j].Value != "" ==> r.Val == start.Attr[j].Value)
//@ invariant [C01] forall(j, 0, k, start.Attr[j].Name.Local == "firstRow" && start.Attr[j].Value == "1" ==> r.FirstRow == 1)
//@ invariant [C01] forall(j, 0, k, start.Attr[j].Name.Local == "firstRow" && start.Attr[j].Value == "0" ==> r.FirstRow == 0)
//@ invariant [C01] forall(j, 0, k, start.Attr[j].Name.Local == "lastRow" && start.Attr[j].Value == "1" ==> r.LastRow == 1)
//@ invariant [C01] forall(j, 0, k, start.Attr[j].Name.Local == "lastRow" && start.Attr[j].Value == "0" ==> r.LastRow == 0)
//@ invariant [C01] forall(j, 0, k, start.Attr[j].Name.Local == "firstColumn" && start.Attr[j].Value == "1" ==> r.FirstCol == 1)
//@ invariant [C01] forall(j, 0, k, start.Attr[j].Name.Local == "firstColumn" && start.Attr[j].Value == "0" ==> r.FirstCol == 0)
//@ invariant [C01] forall(j, 0, k, start.Attr[j].Name.Local == "lastColumn" && start.Attr[j].Value == "1" ==> r.LastCol == 1)
//@ invariant [C01] forall(j, 0, k, start.Attr[j].Name.Local == "lastColumn" && start.Attr[j].Value == "0" ==> r.LastCol == 0)
//@ invariant [C01] forall(j, 0, k, start.Attr[j].Name.Local == "noHBand" && start.Attr[j].Value == "1" ==> r.NoHBand == 1)
//@ invariant [C01] forall(j, 0, k, start.Attr[j].Name.Local == "noHBand" && start.Attr[j].Value == "0" ==> r.NoHBand == 0)
//@ invariant [C01] forall(j, 0, k, start.Attr[j].Name.Local == "noVBand" && start.Attr[j].Value == "1" ==> r.NoVBand == 1)
//@ invariant [C01] forall(j, 0, k, start.Attr[j].Name.Local == "noVBand" && start.Attr[j].Value == "0" ==> r.NoVBand == 0)
//@ ensures [C01] err == nil ==> attIs(start.Attr, "val", r.Val)
//@ ensures [C01] err == nil ==> attFlag(start.Attr, "firstRow", r.FirstRow)
//@ ensures [C01] err == nil ==> attFlag(start.Attr, "lastRow", r.LastRow)
//@ ensures [C01] err == nil ==> attFlag(start.Attr, "firstColumn", r.FirstCol)
//@ ensures [C01] err == nil ==> attFlag(start.Attr, "lastColumn", r.LastCol)
//@ ensures [C01] err == nil ==> attFlag(start.Attr, "noHBand", r.NoHBand)
//@ ensures [C01] err == nil ==> attFlag(start.Attr, "noVBand", r.NoVBand)

//@ func getAtt(atts, name) (v) [C01]
//@ helper
//@ requires [C01] attOnce(atts)
//@ modifies nothing
//@ invariant forall(j, 0, k, seq[j].Name.Local != name)
//@ ensures [C01] attIs(atts, name, v)
//@ ensures [C01] v != "" ==> exists(i, 0, len(atts), atts[i].Name.Local == name)

//@ func (r *Run) parse(d, tt, depth) (child, err) [C02]
//@ helper
//@ requires r != nil && d != nil && depth >= 0
//@ modifies r.RunProperties, r.InstrText
//@ decreases maxAltContentDepth + 1 - depth
