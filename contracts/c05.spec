# C05: media are never overwritten and are found under their names
#
# mediaWF: the index names exactly the stored media: every indexed name points at a media of that name,
# and every stored media has its name in the index.
//@ def mediaWF(f *Docx) bool = f.mediaNameIdx != nil && \
//@   forallkey(n, f.mediaNameIdx, has(f.mediaNameIdx, n) ==> 0 <= f.mediaNameIdx[n] && f.mediaNameIdx[n] < len(f.media) && f.media[f.mediaNameIdx[n]].Name == n) && \
//@   forall(i, 0, len(f.media), has(f.mediaNameIdx, f.media[i].Name))
//@ def docWF(f *Docx) bool = f != nil && idsBelow(f) && f.rID < 4611686018427387904 && mediaWF(f) && f.slowIDs != nil
# wfAfter: docWF without the bound on the number of relationships
//@ def wfAfter(f *Docx) bool = idsBelow(f) && mediaWF(f) && f.slowIDs != nil

//@ func (f *Docx) Media(name) (m) [C05]
//@ requires f != nil && mediaWF(f)
//@ modifies nothing
//@ inline
//@ ensures has(f.mediaNameIdx, name) ==> m != nil && m.Name == name && m.Data == f.media[f.mediaNameIdx[name]].Data
//@ ensures !has(f.mediaNameIdx, name) ==> m == nil
//@ ensures m == nil ==> forall(i, 0, len(f.media), f.media[i].Name != name)

//@ func (f *Docx) mediaOf(target) (m) [C05 C12]
//@ helper
//@ requires f != nil && mediaWF(f)
//@ modifies nothing
//@ inline
//@ ensures prefix(target, "media/") && has(f.mediaNameIdx, target[6:]) ==> m != nil && m.Name == target[6:] && m.Data == f.media[f.mediaNameIdx[target[6:]]].Data
//@ ensures !(prefix(target, "media/") && has(f.mediaNameIdx, target[6:])) ==> m == nil

//@ func (f *Docx) addMedia(m) () [C05]
//@ helper
//@ requires f != nil && mediaWF(f) && !has(f.mediaNameIdx, m.Name)
//@ modifies f.media, mapof(f.mediaNameIdx)
//@ ensures f.media == cat(old(f.media), seq("Media", m))
//@ ensures mediaWF(f)
//@ ensures has(f.mediaNameIdx, m.Name) && f.mediaNameIdx[m.Name] == len(old(f.media))
//@ ensures forallkey(n, f.mediaNameIdx, n != m.Name ==> has(f.mediaNameIdx, n) == old(has(f.mediaNameIdx, n)) && f.mediaNameIdx[n] == old(f.mediaNameIdx[n]))

//@ func (f *Docx) addImage(format, data) (id) [C05 C14 C07 C08]
//@ helper
//@ requires docWF(f)
//@ modifies f.imageID, f.rID, f.docRelation.Relationship, f.media, mapof(f.mediaNameIdx)
//@ noterm a free name exists because only finitely many are taken; the counter wraps after 2^64 steps
//@ ensures len(f.media) == len(old(f.media)) + 1
//@ ensures f.media == cat(old(f.media), seq("Media", Media{Name: f.media[len(old(f.media))].Name, Data: data}))
//@ ensures forall(i, 0, len(old(f.media)), old(f.media)[i].Name != newName(f))
//@ ensures has(f.mediaNameIdx, newName(f)) && f.mediaNameIdx[newName(f)] == len(old(f.media))
//@ ensures forallkey(n, f.mediaNameIdx, old(has(f.mediaNameIdx, n)) ==> has(f.mediaNameIdx, n) && f.mediaNameIdx[n] == old(f.mediaNameIdx[n]))
//@ ensures f.docRelation.Relationship == cat(old(f.docRelation.Relationship), seq("Relationship", Relationship{ID: id, Type: REL_IMAGE, Target: "media/" + newName(f)}))
//@ ensures forall(i, 0, len(old(f.docRelation.Relationship)), old(f.docRelation.Relationship)[i].ID != id)
//@ ensures f.rID == old(f.rID) + 1
//@ ensures wfAfter(f)
//@ def newName(f *Docx) string = f.media[len(f.media)-1].Name

//@ func LoadBodyItems(items, media) (doc) [C05 C04]
//@ modifies nothing
//@ invariant forall(j, 0, k, has(acc, media[j].Name))
//@ invariant forallkey(n, acc, has(acc, n) ==> 0 <= acc[n] && acc[n] < k && media[acc[n]].Name == n)

//@ ensures doc != nil && fresh(doc)
//@ ensures doc.media == media && doc.Document.Body.Items == items && doc.Document.Body.file == doc
//@ ensures forall(i, 0, len(media), has(doc.mediaNameIdx, media[i].Name))
//@ ensures forallkey(n, doc.mediaNameIdx, has(doc.mediaNameIdx, n) ==> 0 <= doc.mediaNameIdx[n] && doc.mediaNameIdx[n] < len(media) && media[doc.mediaNameIdx[n]].Name == n)
//@ ensures docWF(doc) && idsDistinct(doc.docRelation.Relationship)
//@ ensures len(doc.docRelation.Relationship) == 3

//@ func newEmptyFile() (doc) [C05 C04]
//@ helper
//@ modifies nothing
//@ ensures doc != nil && fresh(doc)
//@ ensures docWF(doc) && len(doc.media) == 0 && idsDistinct(doc.docRelation.Relationship)
//@ ensures len(doc.Document.Body.Items) == 0 && doc.Document.Body.file == doc
