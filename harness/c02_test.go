package docx

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"reflect"
	"strings"
	"testing"
)

func TestVerifC02(t *testing.T) {
	vRun(t, "C02", "encodings of random trees of every modelled type with cut, repeated, moved, emptied, renamed and damaged pieces and attribute values, deep nesting, and random bytes, decoded as that type; packages with damaged bytes and parts; non-trivial: the input is not well-formed output of the encoder", func(h *vH) {
		vDeepCases(h)
		ts := vTypes()
		for n := 0; h.more(n, 12000); n++ {
			vMutCase(h, ts[n%len(ts)])
			if n%8 == 0 {
				vZipCase(h)
			}
		}
	})
}

func vDecode(t reflect.Type, x string) string {
	err := xml.Unmarshal([]byte(x), reflect.New(t).Interface())
	_ = err
	return ""
}

var vWild = []string{"", "0", "-1", "99999999999999999999999", "-99999999999999999999", "1e400", "NaN", "Inf", "1.5", "abc", "12pt", "true", " ", "0x7f", "%d", "\u0000", "1e18", "9223372036854775808", "+", "-", "rId1", "wps", "wpg"}

func (h *vH) mutate(x string) string {
	ts := vScan(x)
	for k := 1 + h.r.Intn(4); k > 0 && len(ts) > 0; k-- {
		i := h.r.Intn(len(ts))
		j := i + 1 + h.r.Intn(4)
		if j > len(ts) {
			j = len(ts)
		}
		switch h.r.Intn(9) {
		case 0: // remove
			ts = append(append([]vTok{}, ts[:i]...), ts[j:]...)
		case 1: // repeat
			seg := append([]vTok{}, ts[i:j]...)
			ts = append(append(append([]vTok{}, ts[:j]...), seg...), ts[j:]...)
		case 2: // swap
			o := h.r.Intn(len(ts))
			ts[i], ts[o] = ts[o], ts[i]
		case 3, 4: // wild attribute value
			s := ts[i].s
			if p := strings.Split(s, "\""); len(p) >= 3 {
				q := 1 + 2*h.r.Intn(len(p)/2)
				if q < len(p) {
					p[q] = vWild[h.r.Intn(len(vWild))]
					ts[i].s = strings.Join(p, "\"")
				}
			} else if ts[i].kind == 't' {
				ts[i].s = vWild[h.r.Intn(len(vWild))]
			}
		case 5: // truncate
			ts = ts[:i]
		case 6: // empty an element
			if ts[i].kind == '<' {
				ts[i].s = strings.TrimSuffix(ts[i].s, ">") + "/>"
			}
		case 7: // new attribute or content
			add := []string{"<w:t>x</w:t>", "<mc:AlternateContent><mc:Choice Requires=\"wps\">", "</mc:Choice>", "</mc:AlternateContent>", "<mc:Choice Requires=\"wpg\"/>", "<w:r>", "</w:r>", "<!-- c -->", "<?pi?>", "<![CDATA[<w:p>]]>", "text", "&bad;", "&#0;", "<", ">", "<w:p/>", "<w:tab w:pos=\"x\"/>", "<a:ext uri=\"\"/>", "<w:drawing/>", "<wp:inline/>", "<a:graphicData/>", "\x00", "\xff\xfe"}[h.r.Intn(23)]
			ts = append(append(append([]vTok{}, ts[:i]...), vTok{add, '?'}), ts[i:]...)
		case 8: // bytes
			b := []byte(ts[i].s)
			if len(b) > 0 {
				b[h.r.Intn(len(b))] = byte(h.r.Intn(256))
				ts[i].s = string(b)
			}
		}
	}
	return vJoin(ts)
}

func vMutCase(h *vH, t reflect.Type) {
	x, ok := h.encode(t, 3+h.r.Intn(9))
	if !ok {
		return
	}
	if len(x) > 20000 {
		x = x[:20000]
	}
	x = h.mutate(x)
	h.evalCase("decode "+t.Name(), x, true, func() string { return vDecode(t, x) })
}

type vRepeat struct {
	head, body string
	n          int
	cur        string
	i          int
}

func (r *vRepeat) Read(p []byte) (int, error) {
	if r.cur == "" {
		switch {
		case r.i == 0:
			r.cur = r.head
		case r.i <= r.n:
			r.cur = r.body
		default:
			return 0, io.EOF
		}
		r.i++
	}
	k := copy(p, r.cur)
	r.cur = r.cur[k:]
	return k, nil
}

// nesting that a small packed file can hold
func vDeepCases(h *vH) {
	n := 4000000
	for _, c := range []struct {
		v    interface{}
		head string
		body string
	}{
		{&Run{}, "<w:r>", "<mc:AlternateContent><mc:Choice Requires=\"wps\">"},
		{&Run{}, "<w:r>", "<mc:AlternateContent>"},
		{&Run{}, "<w:r>", "<x>"},
		{&Body{}, "<w:body>", "<x>"},
		{&WordprocessingGroup{}, "<g>", "<wpc><wgp>"},
		{&WordprocessingGroup{}, "<g>", "<grpSp>"},
		{&Body{}, "<w:body>", "<p><r><drawing><inline><graphic><graphicData><wsp><txbx><txbxContent>"},
		{&Body{}, "<w:body>", "<tbl><tr><tc>"},
		{&Text{}, "<w:t>", "<x>a"},
		{&Tabs{}, "<w:tabs>", "<x>"},
	} {
		m := n
		if !h.thorough && !strings.Contains(c.body, "Choice") {
			m = 100000
		}
		h.evalCase("deep nesting", fmt.Sprintf("%s then %d times %s", c.head, m, c.body), true, func() string {
			if err := xml.NewDecoder(&vRepeat{head: c.head, body: c.body, n: m}).Decode(c.v); err == nil {
				return "truncated markup was accepted"
			}
			return ""
		})
	}
}

func vZipCase(h *vH) {
	x, ok := h.encode(reflect.TypeOf(Body{}), 3+h.r.Intn(7))
	if !ok {
		return
	}
	if h.r.Intn(2) == 0 {
		x = h.mutate(x)
	}
	x = strings.TrimSuffix(strings.TrimPrefix(x, "<Body>"), "</Body>")
	rels := []vRel{{"rId1", REL_IMAGE, "media/a.png", ""}, {[]string{"rId2", "", "rId", "x", "r", "rI", "rId-5"}[h.r.Intn(7)], REL_HYPERLINK, "t", "External"}}[:h.r.Intn(3)]
	es := vPack(x, rels, []vEnt{{"a.png", []byte("a")}}, []vEnt{{"[Content_Types].xml", []byte("x")}})
	switch h.r.Intn(6) {
	case 0:
		es = es[h.r.Intn(len(es)):]
	case 1:
		es = append(es, es[h.r.Intn(len(es))])
	case 2:
		es = append(es, vEnt{[]string{"", "/", "word/media", "word/media/", "../x", "word\\media\\x", "word/document.xml/"}[h.r.Intn(7)], nil})
	}
	z := vMakeZip(es)
	for k := h.r.Intn(4); k > 0; k-- {
		switch h.r.Intn(3) {
		case 0:
			z[h.r.Intn(len(z))] = byte(h.r.Intn(256))
		case 1:
			z = z[:1+h.r.Intn(len(z))]
		case 2:
			i := h.r.Intn(len(z))
			z = append(append([]byte{}, z[:i]...), z[i+h.r.Intn(len(z)-i):]...)
		}
		if len(z) == 0 {
			break
		}
	}
	size := int64(len(z))
	if h.r.Intn(20) == 0 {
		size = int64(h.r.Intn(3)*1000) - 1000
	}
	h.evalCase("open a package", fmt.Sprintf("size %d: %q", size, z), true, func() string {
		d, err := Parse(bytes.NewReader(z), size)
		if err != nil {
			return ""
		}
		// an opened document is usable
		for _, it := range d.Document.Body.Items {
			switch o := it.(type) {
			case *Paragraph:
				_ = o.String()
			case *Table:
				_ = o.String()
			}
		}
		_ = d.Media("a.png")
		_, _ = vSave(d)
		return ""
	})
}
