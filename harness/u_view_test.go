package docx

import (
	"crypto/md5"
	"encoding/hex"
	"fmt"
	"reflect"
	"strings"
)

func vSum(b []byte) string { x := md5.Sum(b); return hex.EncodeToString(x[:]) }

// vView renders items with every reference replaced by what it resolves to in doc. With drop set,
// hyperlinks that do not resolve are left out and pictures that do not are blanked (they cannot be copied).
func vView(doc *Docx, items []interface{}, drop bool) string {
	c := vCloneOf(&Body{Items: items}).(*Body)
	vWalk(reflect.ValueOf(c), func(p interface{}) {
		switch x := p.(type) {
		case *Paragraph:
			var k []interface{}
			for _, ch := range x.Children {
				if l, ok := ch.(*Hyperlink); ok {
					t, err := doc.ReferTarget(l.ID)
					if err != nil {
						if drop {
							continue
						}
						l.ID = "unresolved " + l.ID
					} else {
						l.ID = "-> " + t
					}
				}
				k = append(k, ch)
			}
			x.Children = k
		case *Drawing:
			g := vGraphic(x)
			if g == nil || g.GraphicData == nil {
				return
			}
			gd := g.GraphicData
			if gd.Pic == nil {
				if gd.Shape == nil && gd.Canvas == nil && drop { // not carried over
					x.Inline, x.Anchor = nil, nil
				}
				return
			}
			if id, ok := vEmbed(x); ok {
				if b, ok := vBytesOf(doc, id); ok {
					gd.Pic.BlipFill.Blip.Embed = "bytes " + vSum(b)
					dp := &WPDocPr{}
					if x.Inline != nil {
						x.Inline.DocPr = dp
					} else {
						x.Anchor.DocPr = dp
					}
					nv := gd.Pic.NonVisualPicProperties
					if nv == nil {
						nv = &PICNonVisualPicProperties{}
					}
					nv.NonVisualDrawingProperties = NonVisualProperties{}
					gd.Pic.NonVisualPicProperties = nv
					return
				}
			}
			if drop {
				x.Inline, x.Anchor = nil, nil
			}
		}
	})
	return vDump(c)
}

// vState is everything observable of a document.
func vState(d *Docx) string {
	s := vDump(d.Document) + fmt.Sprint(vRels(d))
	for _, r := range vRels(d) {
		if strings.HasPrefix(r.Target, "media/") {
			if m := d.Media(r.Target[6:]); m != nil {
				s += m.Name + vSum(m.Data)
			}
		}
	}
	return s
}

// vBreak makes some references of a document dangle.
func (h *vH) vBreak(d *Docx, log *[]string) {
	vWalk(reflect.ValueOf(d.Document.Body.Items), func(p interface{}) {
		switch x := p.(type) {
		case *Hyperlink:
			if h.r.Intn(8) == 0 {
				x.ID = "rId777"
				*log = append(*log, "dangling link")
			}
		case *Drawing:
			if _, ok := vEmbed(x); ok && h.r.Intn(8) == 0 {
				vGraphic(x).GraphicData.Pic.BlipFill.Blip.Embed = "rId778"
				*log = append(*log, "dangling picture")
			}
		}
	})
}

