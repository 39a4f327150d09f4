package docx

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"testing"
)

func TestVerifC12(t *testing.T) {
	vRun(t, "C12", "random documents built by the API, saved and parsed, or parsed from encodings of random element trees, rendered; non-trivial: the text has a link, picture or table", func(h *vH) {
		for n := 0; h.more(n, 400); n++ {
			vTextDocCase(h)
			vTextTreeCase(h)
			vTableTextCase(h)
		}
	})
}

func vPicMark(d *Docx, kind string, name string, embed string) string {
	tgt, err := d.ReferTarget(embed)
	tail := ""
	if err != nil {
		tail = err.Error()
	} else if b, ok := vBytesOf(d, embed); ok {
		tail = vSum(b)
	} else {
		tail = ErrRefTargetNotFound.Error()
	}
	_ = tgt
	return "![" + kind + "im " + name + "](" + tail + ")"
}

// vWantText renders a paragraph by the definition; drawings only with a full graphic.
func vWantText(d *Docx, p *Paragraph) string {
	var sb strings.Builder
	for _, c := range p.Children {
		switch x := c.(type) {
		case *Hyperlink:
			t, err := d.ReferTarget(x.ID)
			if err != nil {
				t = x.ID
			}
			sb.WriteString("[" + x.Run.InstrText + "](" + t + ")")
		case *Run:
			for _, k := range x.Children {
				switch y := k.(type) {
				case *Text:
					sb.WriteString(y.Text)
				case *Tab:
					sb.WriteString("\t")
				case *BarterRabbet:
					sb.WriteString("\n")
				case *Drawing:
					kind := "inln"
					var dp *WPDocPr
					if y.Inline != nil {
						dp = y.Inline.DocPr
					} else if y.Anchor != nil {
						kind = "anch"
						dp = y.Anchor.DocPr
					} else {
						continue
					}
					g := vGraphic(y)
					if g == nil || g.GraphicData == nil {
						sb.WriteString("![" + kind + "?](unknown)")
						continue
					}
					gd := g.GraphicData
					switch {
					case gd.Pic != nil:
						name := ""
						switch {
						case dp != nil:
							name = dp.Name
						case gd.Pic.NonVisualPicProperties != nil:
							name = gd.Pic.NonVisualPicProperties.NonVisualDrawingProperties.Name
						case gd.Pic.BlipFill != nil:
							name = gd.Pic.BlipFill.Blip.Embed
						}
						if gd.Pic.BlipFill == nil {
							sb.WriteString("![" + kind + "im " + name + "]()")
						} else {
							sb.WriteString(vPicMark(d, kind, name, gd.Pic.BlipFill.Blip.Embed))
						}
					case gd.Shape != nil:
						prst := ""
						if gd.Shape.SpPr != nil {
							prst = gd.Shape.SpPr.PrstGeom.Prst
						}
						name := "nil"
						switch {
						case dp != nil:
							name = dp.Name
						case gd.Shape.CNvPr != nil:
							name = gd.Shape.CNvPr.Name
						case gd.Shape.SpPr != nil:
							name = prst
						}
						sb.WriteString("![" + kind + "sp " + name + "](" + prst + ")")
					case gd.Canvas != nil:
						name := "nil"
						if dp != nil {
							name = dp.Name
						}
						sb.WriteString("![" + kind + "cv " + name + "]()")
					default:
						sb.WriteString("![" + kind + "?](unknown)")
					}
				}
			}
		}
	}
	return sb.String()
}

func vWantTable(d *Docx, t *Table) string {
	if len(t.TableRows) == 0 || len(t.TableRows[0].TableCells) == 0 {
		return ""
	}
	var sb strings.Builder
	sb.WriteString("| " + strings.Repeat(" :----: |", len(t.TableRows[0].TableCells)))
	for _, r := range t.TableRows {
		sb.WriteString("\n|")
		for _, c := range r.TableCells {
			if len(c.Paragraphs) > 0 && len(c.Paragraphs[0].Children) > 0 {
				sb.WriteString(" " + vWantText(d, c.Paragraphs[0]))
			} else {
				sb.WriteString("       ")
			}
			sb.WriteString(" |")
		}
	}
	return sb.String()
}

func vCheckTexts(h *vH, d *Docx, in string) {
	for i, it := range d.Document.Body.Items {
		if len(h.Fails) > 2 {
			return
		}
		switch x := it.(type) {
		case *Paragraph:
			w := vWantText(d, x)
			h.evalCase("Paragraph.String", fmt.Sprintf("%s; item %d", in, i), strings.ContainsAny(w, "[!"), func() string {
				if g := x.String(); g != w {
					return fmt.Sprintf("got %q want %q", g, w)
				}
				return ""
			})
		case *Table:
			w := vWantTable(d, x)
			h.evalCase("Table.String", fmt.Sprintf("%s; item %d", in, i), len(x.TableRows) > 0, func() string {
				if g := x.String(); g != w {
					return fmt.Sprintf("got %q want %q", g, w)
				}
				return ""
			})
		}
	}
}

func vTextDocCase(h *vH) {
	var log []string
	d := h.randDoc(1+h.r.Intn(5), &log)
	if h.r.Intn(3) == 0 {
		h.vBreak(d, &log)
	}
	vCheckTexts(h, d, strings.Join(log, ";"))
}

// arbitrary trees, parsed, so that every element belongs to the document
func vTextTreeCase(h *vH) {
	b := &Body{}
	h.gen(reflect.ValueOf(b).Elem(), 4+h.r.Intn(12))
	vWalk(reflect.ValueOf(b), func(p interface{}) {
		switch x := p.(type) {
		case *Hyperlink:
			x.ID = fmt.Sprintf("rId%d", h.r.Intn(5))
		case *Drawing:
			if _, ok := vEmbed(x); ok {
				vGraphic(x).GraphicData.Pic.BlipFill.Blip.Embed = fmt.Sprintf("rId%d", h.r.Intn(5))
			}
		case *Tab:
		}
	})
	rels := []vRel{{"rId1", REL_HYPERLINK, h.str(), "External"}, {"rId2", REL_IMAGE, "media/a.png", ""}, {"rId3", REL_IMAGE, "media/missing.png", ""}}
	var log []string
	e := New().WithDefaultTheme()
	e.Document.Body.Items = b.Items
	sv, err := vSave(e)
	if err != nil {
		h.fail("save", vDump(b), err.Error())
		return
	}
	es, _ := vReadZip(sv)
	var doc []byte
	for _, x := range es {
		if x.Name == "word/document.xml" {
			doc = x.Data
		}
	}
	pk := vPack("", rels, []vEnt{{"a.png", []byte("bytes of a")}}, nil)
	pk[0].Data = doc
	d, err := vOpen(vMakeZip(pk))
	if err != nil {
		h.fail("open", string(doc), err.Error())
		return
	}
	log = append(log, string(bytes.TrimSpace(doc)))
	vCheckTexts(h, d, strings.Join(log, ";"))
}

func vTableTextCase(h *vH) {
	var log []string
	d := New().WithDefaultTheme()
	t := d.AddTable(h.r.Intn(4), h.r.Intn(4), 0, nil)
	for _, r := range t.TableRows {
		if h.r.Intn(5) == 0 {
			r.TableCells = r.TableCells[:h.r.Intn(len(r.TableCells)+1)]
		}
		for _, c := range r.TableCells {
			for k := h.r.Intn(3); k > 0; k-- {
				p := c.AddParagraph()
				if h.r.Intn(3) > 0 {
					p.AddText(h.str())
					p.AddLink("l", "t")
				}
			}
		}
	}
	vCheckTexts(h, d, strings.Join(log, ";")+vDump(t))
}
