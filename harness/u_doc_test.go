package docx

// Documents, packages and pictures for the harnesses. Only the exported interface of the library is used
// here, so that edits of its internals do not stop the harness from compiling.

import (
	"archive/zip"
	"bytes"
	"encoding/binary"
	"encoding/xml"
	"fmt"
	"hash/crc32"
	"io"
	"reflect"
	"sort"
	"strings"
)

// vPNGOf is a PNG header announcing the given size (enough for reading its size), made distinct by salt.
func vPNGOf(w, h uint32, salt string) []byte {
	var b bytes.Buffer
	b.WriteString("\x89PNG\r\n\x1a\n")
	d := make([]byte, 13)
	binary.BigEndian.PutUint32(d, w)
	binary.BigEndian.PutUint32(d[4:], h)
	d[8], d[9] = 8, 2
	_ = binary.Write(&b, binary.BigEndian, uint32(13))
	c := append([]byte("IHDR"), d...)
	b.Write(c)
	_ = binary.Write(&b, binary.BigEndian, crc32.ChecksumIEEE(c))
	b.WriteString(salt)
	return b.Bytes()
}

func vGIFOf(w, h uint16, salt string) []byte {
	var b bytes.Buffer
	b.WriteString("GIF89a")
	_ = binary.Write(&b, binary.LittleEndian, w)
	_ = binary.Write(&b, binary.LittleEndian, h)
	b.Write([]byte{0, 0, 0})
	b.WriteString(salt)
	return b.Bytes()
}

var vSalt int

func (h *vH) pic() []byte {
	vSalt++
	s := fmt.Sprintf("salt%d-%d", vSalt, h.r.Int63())
	w, ht := 1+h.r.Intn(3000), 1+h.r.Intn(3000)
	if h.r.Intn(3) == 0 {
		return vGIFOf(uint16(w), uint16(ht), s)
	}
	return vPNGOf(uint32(w), uint32(ht), s)
}

type vEnt struct {
	Name string
	Data []byte
}

func vMakeZip(ents []vEnt) []byte {
	var b bytes.Buffer
	zw := zip.NewWriter(&b)
	for _, e := range ents {
		w, err := zw.Create(e.Name)
		if err != nil {
			panic(err)
		}
		if strings.HasSuffix(e.Name, "/") {
			continue
		}
		if _, err = w.Write(e.Data); err != nil {
			panic(err)
		}
	}
	if err := zw.Close(); err != nil {
		panic(err)
	}
	return b.Bytes()
}

// vReadZip lists the entries of a package in order of the central directory.
func vReadZip(b []byte) ([]vEnt, error) {
	zr, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		return nil, err
	}
	var r []vEnt
	for _, f := range zr.File {
		rc, err := f.Open()
		if err != nil {
			return nil, err
		}
		d, err := io.ReadAll(rc)
		if err != nil {
			return nil, err
		}
		_ = rc.Close()
		r = append(r, vEnt{f.Name, d})
	}
	return r, nil
}

func vSortEnts(e []vEnt) []vEnt {
	r := append([]vEnt(nil), e...)
	sort.SliceStable(r, func(i, j int) bool { return r[i].Name < r[j].Name })
	return r
}

func vEntNames(e []vEnt) []string {
	var r []string
	for _, x := range vSortEnts(e) {
		r = append(r, fmt.Sprintf("%s[%d]", x.Name, len(x.Data)))
	}
	return r
}

func vSave(d *Docx) ([]byte, error) {
	var b bytes.Buffer
	_, err := d.WriteTo(&b)
	return b.Bytes(), err
}

func vOpen(b []byte) (*Docx, error) { return Parse(bytes.NewReader(b), int64(len(b))) }

type vRel struct{ ID, Type, Target, TargetMode string }

func vRels(d *Docx) []vRel {
	var r []vRel
	_ = d.RangeRelationships(func(x *Relationship) error {
		r = append(r, vRel{x.ID, x.Type, x.Target, x.TargetMode})
		return nil
	})
	return r
}

// vRunXML etc. build a package by hand.
func vPack(body string, rels []vRel, media []vEnt, rest []vEnt) []vEnt {
	var rb bytes.Buffer
	rb.WriteString(xml.Header + `<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">`)
	for _, r := range rels {
		rb.WriteString("<Relationship Id=\"")
		_ = xml.EscapeText(&rb, []byte(r.ID))
		rb.WriteString("\" Type=\"")
		_ = xml.EscapeText(&rb, []byte(r.Type))
		rb.WriteString("\" Target=\"")
		_ = xml.EscapeText(&rb, []byte(r.Target))
		if r.TargetMode != "" {
			rb.WriteString("\" TargetMode=\"" + r.TargetMode)
		}
		rb.WriteString("\"/>")
	}
	rb.WriteString("</Relationships>")
	doc := xml.Header + `<w:document xmlns:w="` + XMLNS_W + `" xmlns:r="` + XMLNS_R + `" xmlns:wp="` + XMLNS_WP + `" xmlns:wps="` + XMLNS_WPS +
		`" xmlns:wpc="` + XMLNS_WPC + `" xmlns:wpg="` + XMLNS_WPG + `" xmlns:mc="` + XMLNS_MC + `" xmlns:o="` + XMLNS_O + `" xmlns:v="` + XMLNS_V + `"><w:body>` + body + `</w:body></w:document>`
	e := []vEnt{{"word/document.xml", []byte(doc)}, {"word/_rels/document.xml.rels", rb.Bytes()}}
	for _, m := range media {
		e = append(e, vEnt{"word/media/" + m.Name, m.Data})
	}
	return append(e, rest...)
}

var vLinkPool = []string{"https://example.com/", "http://a.b/c?d=e&f=g", "mailto:x@y.z", "", "#here", "media/image1.png", "styles.xml", "图"}

// vFill adds random content to a document, returning a description of what was added.
func (h *vH) fill(d *Docx, n int, log *[]string) {
	say := func(f string, a ...interface{}) {
		if log != nil {
			*log = append(*log, fmt.Sprintf(f, a...))
		}
	}
	for i := 0; i < n; i++ {
		switch k := h.r.Intn(10); {
		case k < 6:
			p := d.AddParagraph()
			say("para")
			h.fillPara(d, p, say)
		case k < 7:
			r, c := h.r.Intn(3), h.r.Intn(3)
			t := d.AddTable(r, c, int64(h.r.Intn(2)*5000), nil)
			say("table %dx%d", r, c)
			for _, tr := range t.TableRows {
				for _, tc := range tr.TableCells {
					for j := h.r.Intn(3); j > 0; j-- {
						h.fillPara(d, tc.AddParagraph(), say)
					}
				}
			}
		case k < 8:
			d.WithA4Page()
			say("sectPr")
		default:
			p := d.AddParagraph()
			p.Style(h.str())
			say("empty para")
		}
	}
}

func (h *vH) fillPara(d *Docx, p *Paragraph, say func(f string, a ...interface{})) {
	for j := h.r.Intn(5); j > 0; j-- {
		switch h.r.Intn(7) {
		case 0, 1:
			s := h.str()
			r := p.AddText(s)
			say(" text %q", s)
			if h.r.Intn(2) == 0 {
				r.Bold().Color("ff0000").Size("24")
			}
		case 2:
			l := vLinkPool[h.r.Intn(len(vLinkPool))]
			p.AddLink(h.str(), l)
			say(" link %q", l)
		case 3:
			_, err := p.AddInlineDrawing(h.pic())
			say(" inline picture %v", err)
		case 4:
			_, err := p.AddAnchorDrawing(h.pic())
			say(" anchor picture %v", err)
		case 5:
			p.AddInlineShape(int64(h.r.Intn(1000)), int64(h.r.Intn(1000)), "shape", "auto", "rect", &ALine{W: 12700})
			say(" shape")
		case 6:
			p.AddTab()
			say(" tab")
		}
	}
}

// vRandDoc gives a new or a parsed document with random content.
func (h *vH) randDoc(n int, log *[]string) *Docx {
	d := New().WithDefaultTheme()
	h.fill(d, n, log)
	for h.r.Intn(2) == 0 {
		b, err := vSave(d)
		if err != nil {
			h.fail("save", strings.Join(*log, "; "), err.Error())
			return d
		}
		e, err := vOpen(b)
		if err != nil {
			h.fail("open", strings.Join(*log, "; "), err.Error())
			return d
		}
		d = e
		if log != nil {
			*log = append(*log, "(saved and parsed)")
		}
		if h.r.Intn(2) == 0 {
			h.fill(d, h.r.Intn(3), log)
		} else {
			break
		}
	}
	return d
}

// vWalk calls f on every pointer to a modelled struct inside v (pre-order).
func vWalk(v reflect.Value, f func(p interface{})) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || v.Type() == reflect.TypeOf((*Docx)(nil)) {
			return
		}
		if v.CanInterface() {
			f(v.Interface())
		}
		vWalk(v.Elem(), f)
	case reflect.Interface:
		vWalk(v.Elem(), f)
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		for i := 0; i < v.Len(); i++ {
			vWalk(v.Index(i), f)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				vWalk(v.Field(i), f)
			}
		}
	}
}

// vPics lists the embed ids of the pictures directly placed in the runs below v.
func vPics(v interface{}) []string {
	var r []string
	vWalk(reflect.ValueOf(v), func(p interface{}) {
		if d, ok := p.(*Drawing); ok {
			if id, ok := vEmbed(d); ok {
				r = append(r, id)
			}
		}
	})
	return r
}

func vGraphic(d *Drawing) *AGraphic {
	if d.Inline != nil {
		return d.Inline.Graphic
	}
	if d.Anchor != nil {
		return d.Anchor.Graphic
	}
	return nil
}

func vEmbed(d *Drawing) (string, bool) {
	g := vGraphic(d)
	if g == nil || g.GraphicData == nil || g.GraphicData.Pic == nil || g.GraphicData.Pic.BlipFill == nil {
		return "", false
	}
	return g.GraphicData.Pic.BlipFill.Blip.Embed, true
}

// vBytesOf resolves a picture reference through the exported interface.
func vBytesOf(d *Docx, id string) ([]byte, bool) {
	t, err := d.ReferTarget(id)
	if err != nil || !strings.HasPrefix(t, "media/") {
		return nil, false
	}
	m := d.Media(t[len("media/"):])
	if m == nil {
		return nil, false
	}
	return m.Data, true
}
