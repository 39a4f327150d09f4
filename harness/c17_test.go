package docx

import (
	"bytes"
	"fmt"
	"strings"
	"testing"
)

func TestVerifC17(t *testing.T) {
	vRun(t, "C17", "random packages (parts in any order and with awkward names, directory entries, media, relationships) opened, inspected and saved again; packages with a damaged part or a malformed relationship ID; non-trivial: at least one extra part", func(h *vH) {
		for n := 0; h.more(n, 700); n++ {
			vPackageCase(h)
		}
	})
}

func vPackageCase(h *vH) {
	body := ""
	var texts []string
	for i := h.r.Intn(4); i > 0; i-- {
		s := fmt.Sprintf("p%d", h.r.Intn(1000))
		texts = append(texts, s)
		body += "<w:p><w:r><w:t>" + s + "</w:t></w:r></w:p>"
	}
	var rels []vRel
	for i, k := range h.r.Perm(20)[:h.r.Intn(6)] {
		rels = append(rels, vRel{fmt.Sprintf("rId%d", k), REL_HYPERLINK, vLinkPool[h.r.Intn(len(vLinkPool))] + fmt.Sprint(i), []string{"", "External"}[h.r.Intn(2)]})
	}
	pool := []string{"image1.png", "image2.png", "a/b.png", "x", "图.png", "document.xml", "word/media/z.png", ".hidden", "document.xml.rels", "image10.png"}
	rest := []string{"[Content_Types].xml", "_rels/.rels", "docProps/app.xml", "word/styles.xml", "word/media.xml", "media/image1.png", "word/mediafile", "word/document.xml.bak", "xword/document.xml",
		"word/_rels/document.xml.rels2", "word/documentxml", "document.xml", "_rels/document.xml.rels", "word/theme/theme1.xml", "customXml/item1.xml", "Word/document.xml", "word/header1.xml", "word/_rels/header1.xml.rels"}
	h.r.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	h.r.Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
	var media, parts []vEnt
	data := func() []byte {
		b := make([]byte, h.r.Intn(4)*h.r.Intn(300))
		h.r.Read(b)
		return b
	}
	for _, n := range pool[:h.r.Intn(6)] {
		media = append(media, vEnt{n, data()})
	}
	for _, n := range rest[:h.r.Intn(10)] {
		parts = append(parts, vEnt{n, data()})
	}
	ents := vPack(body, rels, media, parts)
	all := append([]vEnt{}, ents...)
	for _, n := range []string{"word/", "word/media/", "empty/", "word/media/sub/"} {
		if h.r.Intn(4) == 0 {
			ents = append(ents, vEnt{Name: n})
		}
	}
	h.r.Shuffle(len(ents), func(i, j int) { ents[i], ents[j] = ents[j], ents[i] })
	in := fmt.Sprintf("%v rels %v texts %v", vEntNamesU(ents), rels, texts)
	var d *Docx
	h.evalCase("open", in, len(parts)+len(media) > 0, func() string {
		var err error
		d, err = vOpen(vMakeZip(ents))
		if err != nil {
			return err.Error()
		}
		if fmt.Sprint(vRels(d)) != fmt.Sprint(rels) {
			return fmt.Sprint("relationships ", vRels(d))
		}
		for _, m := range media {
			x := d.Media(m.Name)
			if x == nil || x.Name != m.Name || !bytes.Equal(x.Data, m.Data) {
				return fmt.Sprintf("media %q: %v", m.Name, x)
			}
		}
		if len(d.Document.Body.Items) != len(texts) {
			return "items of the document"
		}
		for i, t := range texts {
			if s := d.Document.Body.Items[i].(*Paragraph).String(); s != t {
				return s + " want " + t
			}
		}
		return ""
	})
	if d == nil || len(h.Fails) > 0 {
		return
	}
	if h.r.Intn(3) == 0 {
		d.AddParagraph().AddText("more")
		in += "; paragraph added"
	}
	h.evalCase("save writes every part again", in, len(parts)+len(media) > 0, func() string {
		b, err := vSave(d)
		if err != nil {
			return err.Error()
		}
		es, err := vReadZip(b)
		if err != nil {
			return err.Error()
		}
		got := map[string][]byte{}
		for _, e := range es {
			if _, ok := got[e.Name]; ok {
				return "twice: " + e.Name
			}
			got[e.Name] = e.Data
		}
		for _, e := range all {
			g, ok := got[e.Name]
			if !ok {
				return "lost " + e.Name
			}
			if e.Name != "word/document.xml" && e.Name != "word/_rels/document.xml.rels" && !bytes.Equal(g, e.Data) {
				return "changed " + e.Name
			}
		}
		if len(got) != len(all) {
			return fmt.Sprint(vEntNames(es))
		}
		return ""
	})
	// damage
	k := h.r.Intn(len(ents))
	for strings.HasSuffix(ents[k].Name, "/") || len(ents[k].Data) == 0 {
		k = h.r.Intn(len(ents))
	}
	read := ents[k].Name == "word/document.xml" || ents[k].Name == "word/_rels/document.xml.rels" || strings.HasPrefix(ents[k].Name, "word/media/")
	h.evalCase("an unreadable part is reported", in+"; damaged "+ents[k].Name, true, func() string {
		z := vMakeZip(ents)
		// break the checksum of the part, in the central directory and the data descriptor alike
		name := []byte(ents[k].Name)
		hit := false
		for i := 0; i+46 < len(z); i++ {
			if z[i] == 'P' && z[i+1] == 'K' && z[i+2] == 1 && z[i+3] == 2 {
				nl := int(z[i+28]) | int(z[i+29])<<8
				if i+46+nl <= len(z) && bytes.Equal(z[i+46:i+46+nl], name) {
					z[i+16] ^= 0x55
					hit = true
				}
			}
		}
		if !hit {
			return ""
		}
		e, err := vOpen(z)
		if read {
			if err == nil {
				if strings.HasPrefix(ents[k].Name, "word/media/") {
					return "opened"
				}
				return "" // the decoder may stop before the end of the part, where the checksum is found wrong
			}
			return ""
		}
		if err != nil {
			return "" // may be found at opening
		}
		if _, err = vSave(e); err == nil {
			return "opened and saved without error"
		}
		return ""
	})
	h.evalCase("malformed XML in a part is reported", in, true, func() string {
		c := append([]vEnt{}, ents...)
		n := []string{"word/document.xml", "word/_rels/document.xml.rels"}[h.r.Intn(2)]
		for i := range c {
			if c[i].Name == n {
				switch h.r.Intn(3) {
				case 0:
					c[i].Data = nil
				case 1:
					c[i].Data = c[i].Data[:len(c[i].Data)/2]
				case 2:
					c[i].Data = bytes.Replace(c[i].Data, []byte("<w:body>"), []byte("<w:body><w:p></w:q>"), 1)
					if n != "word/document.xml" {
						c[i].Data = []byte("nothing")
					}
				}
			}
		}
		if _, err := vOpen(vMakeZip(c)); err == nil {
			return "opened " + n
		}
		return ""
	})
	badID := []string{"", "R1", "rId", "rIdx", "rId-1", "rId1x", "rid1", "rId 1", "rId1.5", "rId99999999999999999999", "xrId1"}[h.r.Intn(11)]
	h.evalCase("a malformed relationship ID is reported", in+"; ID "+badID, true, func() string {
		rs := append(append([]vRel{}, rels...), vRel{badID, REL_HYPERLINK, "t", ""})
		h.r.Shuffle(len(rs), func(i, j int) { rs[i], rs[j] = rs[j], rs[i] })
		if _, err := vOpen(vMakeZip(vPack(body, rs, media, parts))); err == nil {
			return "opened"
		}
		return ""
	})
}

func vEntNamesU(e []vEnt) []string {
	var r []string
	for _, x := range e {
		r = append(r, fmt.Sprintf("%s[%d]", x.Name, len(x.Data)))
	}
	return r
}
