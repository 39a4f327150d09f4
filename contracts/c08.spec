# C08: splitting a document partitions its content in order
#
# what a list of documents holds, one after another
//@ fold piecesNew(ds []*Docx) []interface{} = bodyNew(e.Document.Body.Items)
# the items of a document, whose pictures have well-formed documents to come from
//@ def sourceOK08(f *Docx) bool = f != nil && mediaWF(f)
//@ def drawingOK08(d *Drawing) bool = imp(d.Inline != nil && picOf(d.Inline.Graphic), sourceOK08(d.Inline.file)) && imp(d.Anchor != nil && picOf(d.Anchor.Graphic), sourceOK08(d.Anchor.file))
//@ def kidsOK08(cs []interface{}) bool = forall(j, 0, len(cs), imp(is(cs[j], "*Drawing"), drawingOK08(as(cs[j], "*Drawing"))))
//@ def paraOK08(p *Paragraph, f *Docx) bool = p.file == f && forall(i, 0, len(p.Children), imp(is(p.Children[i], "*Run"), kidsOK08(as(p.Children[i], "*Run").Children)) && imp(is(p.Children[i], "*Hyperlink"), kidsOK08(as(p.Children[i], "*Hyperlink").Run.Children)))
//@ def tblOK08(t *Table, f *Docx) bool = t.file == f && forall(i, 0, len(t.TableRows), forall(j, 0, len(t.TableRows[i].TableCells), forall(l, 0, len(t.TableRows[i].TableCells[j].Paragraphs), paraOK08(t.TableRows[i].TableCells[j].Paragraphs[l], f))))
//@ def itemsOK08(cs []interface{}, f *Docx) bool = forall(i, 0, len(cs), imp(is(cs[i], "*Paragraph"), as(cs[i], "*Paragraph") != nil && paraOK08(as(cs[i], "*Paragraph"), f)) && imp(is(cs[i], "*Table"), as(cs[i], "*Table") != nil && tblOK08(as(cs[i], "*Table"), f)))
//@ def starts(e interface{}, rule ParagraphSplitRule) bool = is(e, "*Paragraph") && apply(rule, as(e, "*Paragraph"))

//@ func (f *Docx) SplitByParagraph(separator) (docs) [C08]
//@ requires f != nil && separator != nil && itemsOK08(f.Document.Body.Items, f)
//@ noniltree
//@ small Docx.rID Docx.docID
//@ modifies nothing
# what is left and what the pieces hold is the whole
//@ invariant {[]*Docx} cat(piecesNew(acc), bodySrc(acc2, rels(f))) == bodySrc(f.Document.Body.Items, rels(f))
# every piece but the first starts where the rule holds
//@ invariant {[]*Docx} len(acc) > 0 && len(acc2) > 0 ==> starts(acc2[0], separator)
# inside a piece the rule holds for the first item at most
//@ invariant {Body.Items} bodyNew(acc) == bodySrc(seq, upto(k), rels(f))
//@ invariant {Docx.media} wfAfter(obj) && fresh(obj)
//@ invariant {Body.Items} len(acc) == k
//@ invariant {Body.Items} forall(j, 1, k, !starts(seq[j], separator))
//@ ensures piecesNew(docs) == bodySrc(f.Document.Body.Items, rels(f))
//@ ensures forall(i, 0, len(docs), docs[i] != nil && fresh(docs[i]) && len(docs[i].Document.Body.Items) > 0)
//@ invariant {[]*Docx} forall(i, 0, len(acc), acc[i] != nil && fresh(acc[i]) && len(acc[i].Document.Body.Items) > 0)
