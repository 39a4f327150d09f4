package docx

import (
	"fmt"
	"reflect"
	"strings"
	"testing"
)

func TestVerifC11(t *testing.T) {
	vRun(t, "C11", "random bodies, paragraphs and runs with drawings of every kind (inline and anchored; picture, shape, canvas, group, empty, none), filtered; non-trivial: a drawing is present or a name is given", func(h *vH) {
		for n := 0; h.more(n, 2000); n++ {
			vKeepCase(h)
			vDropCase(h)
		}
	})
}

var vKindNames = []string{"*docx.Paragraph", "*docx.Table", "*docx.SectPr", "*docx.Run", "*docx.Hyperlink", "*docx.RunProperties", "*docx.Text", "*docx.Tab", "*docx.Drawing", "*docx.BarterRabbet", "docx.Text", "Text", "", "*docx.Tex", "*docx.Texts"}

func vKindOf(x interface{}) string { return fmt.Sprintf("%T", x) }

func (h *vH) drawing() *Drawing {
	d := &Drawing{}
	if h.r.Intn(8) == 0 {
		return d
	}
	var g *AGraphic
	if h.r.Intn(8) != 0 {
		g = &AGraphic{}
		if h.r.Intn(8) != 0 {
			g.GraphicData = &AGraphicData{}
			switch h.r.Intn(5) {
			case 0:
				g.GraphicData.Pic = &Picture{}
			case 1:
				g.GraphicData.Shape = &WordprocessingShape{}
			case 2:
				g.GraphicData.Canvas = &WordprocessingCanvas{}
			case 3:
				g.GraphicData.Group = &WordprocessingGroup{}
			}
			if h.r.Intn(6) == 0 {
				g.GraphicData.Shape = &WordprocessingShape{}
			}
		}
	}
	if h.r.Intn(2) == 0 {
		d.Inline = &WPInline{Graphic: g}
	} else {
		d.Anchor = &WPAnchor{Graphic: g}
	}
	return d
}

func (h *vH) drawPara() *Paragraph {
	p := &Paragraph{}
	for i := h.r.Intn(4); i > 0; i-- {
		switch h.r.Intn(5) {
		case 0:
			p.Children = append(p.Children, &Hyperlink{ID: h.str(), Run: *h.drawRun()})
		case 1:
			p.Children = append(p.Children, &RunProperties{})
		default:
			p.Children = append(p.Children, h.drawRun())
		}
	}
	return p
}

func (h *vH) drawRun() *Run {
	r := &Run{}
	for j := h.r.Intn(6); j > 0; j-- {
		switch h.r.Intn(6) {
		case 0:
			r.Children = append(r.Children, &Text{Text: h.str()})
		case 1:
			r.Children = append(r.Children, &Tab{})
		case 2:
			r.Children = append(r.Children, &BarterRabbet{})
		default:
			r.Children = append(r.Children, h.drawing())
		}
	}
	return r
}

func (h *vH) drawBody() *Body {
	b := &Body{}
	for i := h.r.Intn(5); i > 0; i-- {
		switch h.r.Intn(4) {
		case 0:
			t := &Table{}
			for r := h.r.Intn(3); r > 0; r-- {
				tr := &WTableRow{}
				for c := h.r.Intn(3); c > 0; c-- {
					tc := &WTableCell{}
					for k := h.r.Intn(3); k > 0; k-- {
						tc.Paragraphs = append(tc.Paragraphs, h.drawPara())
					}
					tr.TableCells = append(tr.TableCells, tc)
				}
				t.TableRows = append(t.TableRows, tr)
			}
			b.Items = append(b.Items, t)
		case 1:
			b.Items = append(b.Items, &SectPr{})
		default:
			b.Items = append(b.Items, h.drawPara())
		}
	}
	return b
}

func vSeq(xs []interface{}) string {
	var s []string
	for _, x := range xs {
		s = append(s, fmt.Sprintf("%T@%p", x, x))
	}
	return strings.Join(s, " ")
}

func vKeepCase(h *vH) {
	var names []string
	for i := h.r.Intn(4); i > 0; i-- {
		names = append(names, vKindNames[h.r.Intn(len(vKindNames))])
	}
	keep := func(xs []interface{}) []interface{} {
		var r []interface{}
		for _, x := range xs {
			for _, n := range names {
				if n == vKindOf(x) {
					r = append(r, x)
					break
				}
			}
		}
		return r
	}
	one := func(what string, obj interface{}, list *[]interface{}, do func(...string)) {
		orig := append([]interface{}{}, *list...)
		want := keep(orig)
		rest := vDump(orig)
		h.evalCase(what, fmt.Sprintf("%v of %s", names, vDump(obj)), len(names) > 0, func() string {
			do(names...)
			if a, b := vSeq(want), vSeq(*list); a != b {
				return fmt.Sprintf("kept %s, want %s", b, a)
			}
			if vDump(orig) != rest {
				return "items changed"
			}
			return ""
		})
	}
	b := h.drawBody()
	one("Body.KeepElements", b, &b.Items, b.KeepElements)
	p := h.drawPara()
	h.gen(reflect.ValueOf(&p.Properties).Elem(), 2)
	pp := p.Properties
	one("Paragraph.KeepElements", p, &p.Children, p.KeepElements)
	if p.Properties != pp {
		h.fail("Paragraph.KeepElements", "", "properties changed")
	}
	r := h.drawRun()
	one("Run.KeepElements", r, &r.Children, r.KeepElements)
}

var vDrops = map[string]struct {
	do  func(p *Paragraph)
	hit func(g *AGraphicData) bool
}{
	"Shape":                  {(*Paragraph).DropShape, func(g *AGraphicData) bool { return g != nil && g.Shape != nil }},
	"Canvas":                 {(*Paragraph).DropCanvas, func(g *AGraphicData) bool { return g != nil && g.Canvas != nil }},
	"Group":                  {(*Paragraph).DropGroup, func(g *AGraphicData) bool { return g != nil && g.Group != nil }},
	"ShapeAndCanvas":         {(*Paragraph).DropShapeAndCanvas, func(g *AGraphicData) bool { return g != nil && (g.Shape != nil || g.Canvas != nil) }},
	"ShapeAndCanvasAndGroup": {(*Paragraph).DropShapeAndCanvasAndGroup, func(g *AGraphicData) bool { return g != nil && (g.Shape != nil || g.Canvas != nil || g.Group != nil) }},
	"NilPicture":             {(*Paragraph).DropNilPicture, func(g *AGraphicData) bool { return g == nil || g.Pic == nil }},
}

// vExpect removes by the definition and gives the expected identities below each run.
func vExpect(p *Paragraph, hit func(*AGraphicData) bool) string {
	var sb strings.Builder
	for _, c := range p.Children {
		fmt.Fprintf(&sb, "%T@%p{", c, c)
		r, ok := c.(*Run)
		if hl, isl := c.(*Hyperlink); isl {
			sb.WriteString(vSeq(hl.Run.Children))
		}
		if ok {
			var k []interface{}
			for _, x := range r.Children {
				if d, ok := x.(*Drawing); ok && hit != nil {
					var gd *AGraphicData
					if g := vGraphic(d); g != nil {
						gd = g.GraphicData
					}
					if hit(gd) {
						continue
					}
				}
				k = append(k, x)
			}
			sb.WriteString(vSeq(k))
		}
		sb.WriteString("}")
	}
	return sb.String()
}

func vExpectBody(b *Body, hit func(*AGraphicData) bool) string {
	var sb strings.Builder
	for _, it := range b.Items {
		fmt.Fprintf(&sb, "%T@%p:", it, it)
		switch x := it.(type) {
		case *Paragraph:
			sb.WriteString(vExpect(x, hit))
		case *Table:
			for _, r := range x.TableRows {
				for _, c := range r.TableCells {
					for _, p := range c.Paragraphs {
						fmt.Fprintf(&sb, "%p:", p)
						sb.WriteString(vExpect(p, hit))
					}
				}
			}
		}
		sb.WriteString("\n")
	}
	return sb.String()
}

func vDropCase(h *vH) {
	ns := []string{"Shape", "Canvas", "Group", "ShapeAndCanvas", "ShapeAndCanvasAndGroup", "NilPicture"}
	n := ns[h.r.Intn(len(ns))]
	dr := vDrops[n]
	p := h.drawPara()
	in := vDump(p)
	want := vExpect(p, dr.hit)
	var ds []interface{}
	vWalk(reflect.ValueOf(p), func(x interface{}) {
		if d, ok := x.(*Drawing); ok {
			ds = append(ds, d)
		}
	})
	dd := vDump(ds)
	h.evalCase("Paragraph.Drop"+n, in, strings.Contains(in, "Drawing"), func() string {
		dr.do(p)
		if got := vExpect(p, nil); got != want {
			return vDiff(want, got)
		}
		if vDump(ds) != dd {
			return "a drawing changed"
		}
		return ""
	})
	b := h.drawBody()
	name := n
	hit := dr.hit
	if h.r.Intn(8) == 0 {
		name, hit = []string{"Nothing", "", "shape", "Pictures"}[h.r.Intn(4)], nil
	}
	in = name + " " + vDump(b)
	want = vExpectBody(b, hit)
	h.evalCase("Body.DropDrawingOf", in, strings.Contains(in, "Drawing"), func() string {
		b.DropDrawingOf(name)
		if got := vExpectBody(b, nil); got != want {
			return vDiff(want, got)
		}
		return ""
	})
}
