# C06: a successful save writes the complete package
#
# Ghost state: written(w) is what has been written to a writer, unread(r) what is left to read, entries(z) how
# often each name was created in an archive and entryOf(z) the writer of each entry, archive(w) the archive made on
# a writer and finished(z) whether it was closed without error after its last entry.

# what io.Copy takes from a part of the package
//@ def partText(r io.Reader) string = cond(is(r, "marshaller"), xml.Header + uf("xmlof", "string", as(r, "marshaller").data), unread(r))
//@ def isPart(r io.Reader) bool = r != nil && (is(r, "marshaller") || foreign(r))
//@ fold named(ns []string, n string) bool = e == n
//@ fold stored(ms []Media, n string) bool = "word/media/" + e.Name == n
//@ def tmplPath(f *Docx, n string) string = cond(f.template != "", "xml/" + f.template + "/" + n, n)
//@ def tmplText(f *Docx, n string) string = uf("fscontents", "string", f.tmplfs, tmplPath(f, n))
//@ def relsName(n string) bool = n == "word/_rels/document.xml.rels"
//@ def docName(n string) bool = n == "word/document.xml"
//@ def mediaName(n string) bool = prefix(n, "word/media/")
//@ def unique(f *Docx) bool = f.mediaNameIdx != nil && forall(i, 0, len(f.media), has(f.mediaNameIdx, f.media[i].Name) && f.mediaNameIdx[f.media[i].Name] == i)
//@ def documentText(f *Docx) string = xml.Header + uf("xmlof", "string", box(&f.Document))
//@ def relationsText(f *Docx) string = xml.Header + uf("xmlof", "string", box(&f.docRelation))
//@ def tmplPart(f *Docx, n string, text string) bool = relsName(n) || docName(n) || mediaName(n) || text == tmplText(f, n)
//@ def entryText(z *zip.Writer, n string) string = written(entryOf(z)[n])
//@ def complete(f *Docx, z *zip.Writer) bool = \
//@   has(entries(z), "word/document.xml") && entryText(z, "word/document.xml") == documentText(f) && \
//@   has(entries(z), "word/_rels/document.xml.rels") && entryText(z, "word/_rels/document.xml.rels") == relationsText(f) && \
//@   forall(i, 0, len(f.media), has(entries(z), "word/media/" + f.media[i].Name) && entryText(z, "word/media/" + f.media[i].Name) == f.media[i].Data) && \
//@   forall(i, 0, len(f.tmpfslst), has(entries(z), f.tmpfslst[i]) && tmplPart(f, f.tmpfslst[i], entryText(z, f.tmpfslst[i]))) && \
//@   forallkey(n, entries(z), has(entries(z), n) ==> entries(z)[n] == 1) && \
//@   forallkey(n, entries(z), has(entries(z), n) && !relsName(n) && !docName(n) ==> named(f.tmpfslst, n) || stored(f.media, n))

//@ func (m *Media) String() (s) [C06]
//@ requires m != nil
//@ inline
//@ modifies nothing
//@ ensures s == "word/media/" + m.Name

//@ func (m marshaller) WriteTo(w) (n, err) [C06]
//@ requires w != nil
//@ modifies written(w)
//@ ensures err == nil ==> written(w) == old(written(w)) + xml.Header + uf("xmlof", "string", m.data)
//@ ensures event("errors", err)

//@ func (f *Docx) pack(zipWriter) (err) [C06]
//@ helper
//@ requires f != nil && zipWriter != nil && f.tmplfs != nil && unique(f)
//@ requires forallkey(n, entries(zipWriter), !has(entries(zipWriter), n))
//@ modifies mapof(entries(zipWriter)), mapof(entryOf(zipWriter)), finished(zipWriter)
//@ invariant {map[string]io.Reader} forallkey(n, acc, has(acc, n) ==> isPart(acc[n]))
//@ invariant {map[string]io.Reader} forall(j, 0, k, has(acc, f.tmpfslst[j]) && partText(acc[f.tmpfslst[j]]) == tmplText(f, f.tmpfslst[j]))
//@ invariant {map[string]io.Reader} forallkey(n, acc, has(acc, n) ==> named(f.tmpfslst, upto(k), n))
//@ invariant {map[string]io.Reader} forall(j, 0, len(f.tmpfslst), has(acc, f.tmpfslst[j]) && tmplPart(f, f.tmpfslst[j], partText(acc[f.tmpfslst[j]])))
//@ invariant {map[string]io.Reader} forallkey(n, acc, has(acc, n) && !relsName(n) && !docName(n) ==> named(f.tmpfslst, n) || stored(f.media, upto(k), n))
//@ invariant {map[string]io.Reader} forall(j, 0, k, has(acc, "word/media/" + f.media[j].Name) && partText(acc["word/media/" + f.media[j].Name]) == f.media[j].Data)
//@ invariant {map[string]io.Reader} has(acc, "word/document.xml") && partText(acc["word/document.xml"]) == documentText(f)
//@ invariant {map[string]io.Reader} has(acc, "word/_rels/document.xml.rels") && partText(acc["word/_rels/document.xml.rels"]) == relationsText(f)
//@ invariant forallkey(n, entries(zipWriter), has(entries(zipWriter), n) ==> entries(zipWriter)[n] == 1 && has(ranged, n) && visited(ranged, n) && written(entryOf(zipWriter)[n]) == partText(ranged[n]))
//@ invariant forallkey(n, ranged, visited(ranged, n) ==> has(entries(zipWriter), n))
//@ ensures err == nil ==> complete(f, zipWriter)
//@ ensures event("errors", err)

//@ func (f *Docx) WriteTo(writer) (n, err) [C06]
//@ requires f != nil && writer != nil && f.tmplfs != nil && unique(f)
//@ modifies archive(writer)
//@ ensures err == nil ==> archive(writer) != nil && finished(archive(writer)) && complete(f, archive(writer))
//@ ensures event("errors", err)

//@ func (f *Docx) UseTemplate(template, tmpfslst, tmplfs) (res) [C06]
//@ requires f != nil
//@ modifies f.template, f.tmplfs, f.tmpfslst
//@ ensures res == f && f.template == template && f.tmplfs == tmplfs && f.tmpfslst == tmpfslst
