# C17: parsing a package keeps every part of it

//@ def contentOf(z *zip.File) []byte = uf("filecontents", "[]byte", z)
//@ def isDoc(n string) bool = n == "word/document.xml"
//@ def isRels(n string) bool = n == "word/_rels/document.xml.rels"
//@ def isDir(n string) bool = suffix(n, "/")
//@ def isMedia(n string) bool = !isDir(n) && prefix(n, "word/media/")
//@ def isOther(n string) bool = !isDir(n) && !isDoc(n) && !isRels(n) && !prefix(n, "word/media/")
//@ fold otherParts(fs []*zip.File) []string = cond(isOther(e.Name), seq("string", e.Name), seq("string"))
//@ fold mediaParts(fs []*zip.File) []Media = cond(isMedia(e.Name), seq("Media", Media{Name: e.Name[11:], Data: contentOf(e)}), seq("Media"))

//@ func (f *Docx) parseMedia(file) (err) [C17 C05 C02]
//@ helper
//@ requires f != nil && file != nil && f.mediaNameIdx != nil && prefix(file.Name, "word/media/")
//@ requires mediaWF(f)
//@ modifies f.media, mapof(f.mediaNameIdx)
//@ ensures [C17 C05 C04] err == nil ==> f.media == cat(old(f.media), seq("Media", Media{Name: file.Name[11:], Data: contentOf(file)}))
//@ ensures mediaWF(f)
//@ ensures [C17 C05 C04] event("errors", err)

//@ func (f *Docx) parseDocRelation(file) (err) [C17 C04 C02]
//@ helper
//@ requires f != nil && file != nil
//@ modifies f.docRelation, f.rID
//@ invariant forall(j, 0, k, idOK(seq[j].ID, f.rID))
//@ ensures err == nil ==> idsBelow(f)
//@ ensures [C17 C05 C04] event("errors", err)

//@ func (f *Docx) parseDocument(file) (err) [C17 C02]
//@ helper
//@ requires f != nil && file != nil
//@ modifies f.Document, f.docID
//@ ensures [C17 C05 C04] event("errors", err)

//@ func unpack(zipReader) (docx, err) [C17 C05 C04 C02]
//@ helper
//@ requires zipReader != nil && forall(i, 0, len(zipReader.File), zipReader.File[i] != nil)
//@ modifies nothing
//@ invariant [C17 C05 C04] acc == mediaParts(seq, upto(k))
//@ invariant [C17 C05 C04] acc == otherParts(seq, upto(k))
//@ invariant mediaWF(obj)
//@ invariant idsBelow(obj)
//@ ensures docx != nil && fresh(docx)
//@ ensures [C17 C05 C04] err == nil ==> docx.media == mediaParts(zipReader.File)
//@ ensures [C17 C05 C04] err == nil ==> docx.tmpfslst == otherParts(zipReader.File)
//@ ensures err == nil ==> idsBelow(docx) && mediaWF(docx) && docx.slowIDs != nil
//@ ensures [C17 C05 C04] err == nil ==> docx.template == "" && docx.tmplfs == box(zipReader)
//@ ensures [C17 C05 C04] event("errors", err)

//@ func Parse(reader, size) (doc, err) [C17 C02]
//@ requires reader != nil
//@ modifies nothing
//@ ensures [C17] event("errors", err)
