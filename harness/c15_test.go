package docx

import (
	"fmt"
	"reflect"
	"testing"
)

type vSetter struct {
	name  string
	nargs int
	call  func(x interface{}, a []string) interface{}
	want  func(x interface{}, a []string)
}

func vrp(x interface{}) *RunProperties {
	r := x.(*Run)
	if r.RunProperties == nil {
		r.RunProperties = &RunProperties{}
	}
	return r.RunProperties
}

func vpp(x interface{}) *ParagraphProperties {
	p := x.(*Paragraph)
	if p.Properties == nil {
		p.Properties = &ParagraphProperties{}
	}
	return p.Properties
}

func vprp(x interface{}) *RunProperties {
	p := vpp(x)
	if p.RunProperties == nil {
		p.RunProperties = &RunProperties{}
	}
	return p.RunProperties
}

var vRunSetters = []vSetter{
	{"Color", 1, func(x interface{}, a []string) interface{} { return x.(*Run).Color(a[0]) }, func(x interface{}, a []string) { vrp(x).Color = &Color{Val: a[0]} }},
	{"Size", 1, func(x interface{}, a []string) interface{} { return x.(*Run).Size(a[0]) }, func(x interface{}, a []string) { vrp(x).Size = &Size{Val: a[0]} }},
	{"SizeCs", 1, func(x interface{}, a []string) interface{} { return x.(*Run).SizeCs(a[0]) }, func(x interface{}, a []string) { vrp(x).SizeCs = &SizeCs{Val: a[0]} }},
	{"Shade", 3, func(x interface{}, a []string) interface{} { return x.(*Run).Shade(a[0], a[1], a[2]) }, func(x interface{}, a []string) { vrp(x).Shade = &Shade{Val: a[0], Color: a[1], Fill: a[2]} }},
	{"Bold", 0, func(x interface{}, a []string) interface{} { return x.(*Run).Bold() }, func(x interface{}, a []string) { vrp(x).Bold = &Bold{} }},
	{"Italic", 0, func(x interface{}, a []string) interface{} { return x.(*Run).Italic() }, func(x interface{}, a []string) { vrp(x).Italic = &Italic{} }},
	{"Underline", 1, func(x interface{}, a []string) interface{} { return x.(*Run).Underline(a[0]) }, func(x interface{}, a []string) { vrp(x).Underline = &Underline{Val: a[0]} }},
	{"Highlight", 1, func(x interface{}, a []string) interface{} { return x.(*Run).Highlight(a[0]) }, func(x interface{}, a []string) { vrp(x).Highlight = &Highlight{Val: a[0]} }},
	{"Font", 4, func(x interface{}, a []string) interface{} { return x.(*Run).Font(a[0], a[1], a[2], a[3]) }, func(x interface{}, a []string) {
		vrp(x).Fonts = &RunFonts{ASCII: a[0], EastAsia: a[1], HAnsi: a[2], Hint: a[3]}
	}},
}

var vParaSetters = []vSetter{
	{"Justification", 1, func(x interface{}, a []string) interface{} { return x.(*Paragraph).Justification(a[0]) }, func(x interface{}, a []string) { vpp(x).Justification = &Justification{Val: a[0]} }},
	{"Style", 1, func(x interface{}, a []string) interface{} { return x.(*Paragraph).Style(a[0]) }, func(x interface{}, a []string) { vpp(x).Style = &Style{Val: a[0]} }},
	{"NumPr", 2, func(x interface{}, a []string) interface{} { return x.(*Paragraph).NumPr(a[0], a[1]) }, func(x interface{}, a []string) {
		vprp(x)
		vpp(x).NumProperties = &NumProperties{NumID: &NumID{Val: a[0]}, Ilvl: &Ilevel{Val: a[1]}}
	}},
	{"NumFont", 4, func(x interface{}, a []string) interface{} { return x.(*Paragraph).NumFont(a[0], a[1], a[2], a[3]) }, func(x interface{}, a []string) {
		vprp(x).Fonts = &RunFonts{ASCII: a[0], EastAsia: a[1], HAnsi: a[2], Hint: a[3]}
	}},
	{"NumSize", 1, func(x interface{}, a []string) interface{} { return x.(*Paragraph).NumSize(a[0]) }, func(x interface{}, a []string) { vprp(x).Size = &Size{Val: a[0]} }},
}

func TestVerifC15(t *testing.T) {
	vRun(t, "C15", "each setter on a random run or paragraph (with, without and with full properties), compared with the same object with only that property replaced; each Add call on a random paragraph or document. Non-trivial: the object has content or properties", func(h *vH) {
		for n := 0; h.more(n, 3000); n++ {
			vSetCase(h, vRunSetters[n%len(vRunSetters)], &Run{})
			vSetCase(h, vParaSetters[n%len(vParaSetters)], &Paragraph{})
			vSpacingStrike(h)
			vAddCase(h)
		}
	})
}

func vSetCase(h *vH, s vSetter, x interface{}) {
	h.gen(reflect.ValueOf(x).Elem(), h.r.Intn(9))
	if h.r.Intn(4) == 0 {
		if r, ok := x.(*Run); ok {
			r.RunProperties = nil
		} else {
			x.(*Paragraph).Properties = nil
		}
	}
	a := make([]string, s.nargs)
	for i := range a {
		a[i] = h.str() + fmt.Sprint(i)
	}
	want := vCloneOf(x)
	// an object that shares the old property values must not change
	var shared interface{}
	if r, ok := x.(*Run); ok && r.RunProperties != nil {
		c := *r.RunProperties
		shared = &Run{RunProperties: &c, Children: r.Children}
	} else if p, ok := x.(*Paragraph); ok && p.Properties != nil {
		c := *p.Properties
		if c.RunProperties != nil {
			d := *c.RunProperties
			c.RunProperties = &d
		}
		shared = &Paragraph{Properties: &c, Children: p.Children}
	}
	sb := vDump(shared)
	in := fmt.Sprintf("%s(%q) on %s", s.name, a, vDump(x))
	h.evalCase("setter "+s.name, in, len(in) > 40, func() string {
		res := s.call(x, a)
		s.want(want, a)
		if res != x {
			return "does not return its receiver"
		}
		if w, g := vDump(want), vDump(x); w != g {
			return vDiff(w, g)
		}
		if g := vDump(shared); g != sb {
			return "changed another object: " + vDiff(sb, g)
		}
		return ""
	})
}

func vSpacingStrike(h *vH) {
	r := &Run{}
	h.gen(reflect.ValueOf(r).Elem(), h.r.Intn(6))
	want := vCloneOf(r).(*Run)
	line := int(h.int64())
	on := h.r.Intn(2) == 0
	in := fmt.Sprintf("Spacing(%d).Strike(%v) on %s", line, on, vDump(r))
	h.evalCase("setter Spacing/Strike", in, true, func() string {
		if r.Spacing(line) != r {
			return "Spacing does not return its receiver"
		}
		vrp(want).Spacing = &Spacing{Line: line}
		if w, g := vDump(want), vDump(r); w != g {
			return vDiff(w, g)
		}
		if r.Strike(on) != r {
			return "Strike does not return its receiver"
		}
		want.RunProperties.Strike = r.RunProperties.Strike
		if w, g := vDump(want), vDump(r); w != g {
			return vDiff(w, g)
		}
		if r.RunProperties.Strike == nil {
			return "no strike set"
		}
		v := r.RunProperties.Strike.Val
		if on != (v != "false" && v != "0" && v != "off") {
			return "strike value " + v
		}
		return ""
	})
}

func vAddCase(h *vH) {
	f := New()
	for i := h.r.Intn(4); i > 0; i-- {
		f.AddParagraph().AddText(h.str())
	}
	p := f.AddParagraph()
	for i := h.r.Intn(4); i > 0; i-- {
		p.AddText(h.str())
	}
	op := h.r.Intn(7)
	items := append([]interface{}{}, f.Document.Body.Items...)
	kids := append([]interface{}{}, p.Children...)
	before, kb := vDump(items), vDump(kids)
	a, b := h.str(), h.str()
	in := fmt.Sprintf("op %d (%q,%q) on %s", op, a, b, before)
	h.evalCase("add", in, true, func() string {
		one := func(was, now []interface{}, dumpWas string) (interface{}, string) {
			if len(now) != len(was)+1 {
				return nil, fmt.Sprintf("%d elements became %d", len(was), len(now))
			}
			for i := range was {
				if now[i] != was[i] {
					return nil, fmt.Sprintf("element %d replaced", i)
				}
			}
			if g := vDump(now[:len(was)]); g != dumpWas {
				return nil, "an existing element changed: " + vDiff(dumpWas, g)
			}
			return now[len(was)], ""
		}
		switch op {
		case 0:
			q := f.AddParagraph()
			x, e := one(items, f.Document.Body.Items, before)
			if e != "" || x != interface{}(q) || len(q.Children) != 0 || q.Properties != nil {
				return "AddParagraph: " + e + " " + vDump(x)
			}
		case 1:
			r := p.AddPageBreaks()
			x, e := one(kids, p.Children, kb)
			if e != "" || x != interface{}(r) || vDump(r.Children) != vDump([]interface{}{&BarterRabbet{Type: "page"}}) {
				return "AddPageBreaks: " + e + " " + vDump(x)
			}
		case 2:
			l := p.AddLink(a, b)
			x, e := one(kids, p.Children, kb)
			if e != "" || x != interface{}(l) || l.Run.InstrText != a {
				return "AddLink: " + e + " " + vDump(x)
			}
			if t, err := f.ReferTarget(l.ID); err != nil || t != b {
				return fmt.Sprintf("AddLink: target %q, %v", t, err)
			}
			// the link is formatted like any other run
			l.Run.Bold().Size("20")
			if l.Run.RunProperties.Bold == nil || l.Run.RunProperties.Size.Val != "20" {
				return "link run not formatted"
			}
		case 3, 4:
			var r *Docx
			w, ht := 16838, 23811
			if op == 3 {
				r = f.WithA3Page()
			} else {
				r = f.WithA4Page()
				w, ht = 11906, 16838
			}
			x, e := one(items, f.Document.Body.Items, before)
			if e != "" || r != f || vDump(x) != vDump(&SectPr{PgSz: &PgSz{W: w, H: ht}}) {
				return "page size: " + e + " " + vDump(x)
			}
		case 5:
			r := p.AddTab()
			x, e := one(kids, p.Children, kb)
			if e != "" || x != interface{}(r) || vDump(r.Children) != vDump([]interface{}{&Tab{}}) {
				return "AddTab: " + e + " " + vDump(x)
			}
		case 6:
			t := f.AddTable(1, 1, 0, nil)
			c := t.TableRows[0].TableCells[0]
			q := c.AddParagraph()
			if len(c.Paragraphs) != 1 || c.Paragraphs[0] != q {
				return "cell paragraph not added"
			}
			q.AddText(a)
			q2 := c.AddParagraph()
			if len(c.Paragraphs) != 2 || c.Paragraphs[0] != q || c.Paragraphs[1] != q2 || q2 == q {
				return "second cell paragraph"
			}
			l := q2.AddLink(a, b)
			if tg, err := f.ReferTarget(l.ID); err != nil || tg != b {
				return "link in table cell does not resolve"
			}
		}
		return ""
	})
}
