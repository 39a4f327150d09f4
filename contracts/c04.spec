# C04: relationship IDs stay unique and resolve to their target
#
# Every relationship of a document has an ID "rId<n>" with n <= rID. The text of a number determines the
# number, so the ID made from rID+1 differs from all of them.
//@ def idOK(id string, n uintptr) bool = prefix(id, "rId") && atou_ok(id[3:]) && atou_val(id[3:]) <= n
//@ def idsBelow(f *Docx) bool = forall(i, 0, len(f.docRelation.Relationship), idOK(f.docRelation.Relationship[i].ID, f.rID))
//@ def idsDistinct(rs []Relationship) bool = forall(i, 0, len(rs), forall(j, 0, i, rs[i].ID != rs[j].ID))

//@ func (f *Docx) addLinkRelation(link) (id) [C04 C07 C08 C15]
//@ helper
//@ requires f != nil && idsBelow(f) && f.rID < 4611686018427387904
//@ modifies f.rID, f.docRelation.Relationship
//@ ensures f.docRelation.Relationship == cat(old(f.docRelation.Relationship), seq("Relationship", Relationship{ID: id, Type: REL_HYPERLINK, Target: link, TargetMode: REL_TARGETMODE}))
//@ ensures f.docRelation.Relationship[len(old(f.docRelation.Relationship))].ID == id
//@ ensures forall(i, 0, len(old(f.docRelation.Relationship)), old(f.docRelation.Relationship)[i].ID != id)
//@ ensures idsBelow(f)
//@ ensures f.rID == old(f.rID) + 1

//@ func (f *Docx) addImageRelation(m) (id) [C04 C05 C07 C08 C14]
//@ helper
//@ requires f != nil && idsBelow(f) && f.rID < 4611686018427387904
//@ modifies f.rID, f.docRelation.Relationship
//@ ensures f.docRelation.Relationship == cat(old(f.docRelation.Relationship), seq("Relationship", Relationship{ID: id, Type: REL_IMAGE, Target: "media/" + m.Name}))
//@ ensures forall(i, 0, len(old(f.docRelation.Relationship)), old(f.docRelation.Relationship)[i].ID != id)
//@ ensures idsBelow(f)
//@ ensures f.rID == old(f.rID) + 1

# linkIdx: the first relationship with the ID, or how many there are (a definition by the least number)
//@ def linkIdx(rs []Relationship, id string) int = uf("linkIdx", "int", rs, id)
//@ def linked(f *Docx, id string) bool = linkIdx(f.docRelation.Relationship, id) < len(f.docRelation.Relationship)
//@ def target(f *Docx, id string) string = f.docRelation.Relationship[linkIdx(f.docRelation.Relationship, id)].Target

//@ func (f *Docx) ReferTarget(id) (target, err) [C04 C07 C08 C12]
//@ requires f != nil
//@ modifies nothing
//@ axiom 0 <= linkIdx(f.docRelation.Relationship, id) && linkIdx(f.docRelation.Relationship, id) <= len(f.docRelation.Relationship)
//@ axiom linked(f, id) ==> f.docRelation.Relationship[linkIdx(f.docRelation.Relationship, id)].ID == id
//@ axiom forall(j, 0, linkIdx(f.docRelation.Relationship, id), f.docRelation.Relationship[j].ID != id)
//@ ensures [C12 C07 C08] (err == nil) == linked(f, id)
//@ ensures [C12 C07 C08] err == nil ==> target == f.docRelation.Relationship[linkIdx(f.docRelation.Relationship, id)].Target
//@ invariant forall(j, 0, k, seq[j].ID != id)
//@ ensures err == nil ==> exists(i, 0, len(f.docRelation.Relationship), f.docRelation.Relationship[i].ID == id && f.docRelation.Relationship[i].Target == target)
//@ ensures err != nil ==> forall(i, 0, len(f.docRelation.Relationship), f.docRelation.Relationship[i].ID != id)
//@ ensures err != nil ==> err == ErrRefIDNotFound && target == ""

//@ func (f *Docx) ReferID(target) (id, err) [C04]
//@ requires f != nil
//@ modifies nothing
//@ invariant forall(j, 0, k, seq[j].Target != target)
//@ ensures err == nil ==> exists(i, 0, len(f.docRelation.Relationship), f.docRelation.Relationship[i].ID == id && f.docRelation.Relationship[i].Target == target)
//@ ensures err != nil ==> forall(i, 0, len(f.docRelation.Relationship), f.docRelation.Relationship[i].Target != target)
//@ ensures err != nil ==> id == ""
