package docx

import (
	"fmt"
	"reflect"
	"strings"
	"testing"
)

func TestVerifC10(t *testing.T) {
	vRun(t, "C10", "random paragraphs (runs with texts, empty texts, tabs, breaks, drawings; links; other children) merged with all, equal-property, named-property, arbitrary and never rules; non-trivial: at least two neighbouring runs", func(h *vH) {
		for n := 0; h.more(n, 3000); n++ {
			vMergeCase(h)
		}
	})
}

// vFlat reads a paragraph: text joined inside each group of runs, every other child by identity.
func vFlat(p *Paragraph) string {
	var sb strings.Builder
	for _, c := range p.Children {
		r, ok := c.(*Run)
		if !ok {
			fmt.Fprintf(&sb, "<%p>", c)
			continue
		}
		for _, k := range r.Children {
			if t, ok := k.(*Text); ok {
				sb.WriteString(t.Text)
			} else {
				fmt.Fprintf(&sb, "<%T %p>", k, k)
			}
		}
	}
	return sb.String()
}

func vMergeCase(h *vH) {
	p := &Paragraph{}
	h.gen(reflect.ValueOf(&p.Properties).Elem(), h.r.Intn(4))
	props := []*RunProperties{nil, {}, {}, {Bold: &Bold{}}, {Bold: &Bold{}}, {Size: &Size{Val: "24"}}, {Size: &Size{Val: "28"}, Bold: &Bold{}}, {Color: &Color{Val: "red"}, Size: &Size{Val: "24"}}}
	pairs := 0
	for i := h.r.Intn(7); i > 0; i-- {
		switch h.r.Intn(7) {
		case 0:
			p.Children = append(p.Children, &Hyperlink{ID: h.str(), Run: Run{InstrText: h.str()}})
		case 1:
			if h.r.Intn(2) == 0 {
				p.Children = append(p.Children, &RunProperties{Bold: &Bold{}})
			} else {
				p.Children = append(p.Children, &ParagraphProperties{})
			}
		default:
			r := &Run{RunProperties: props[h.r.Intn(len(props))]}
			for j := h.r.Intn(6); j > 0; j-- {
				switch h.r.Intn(8) {
				case 0, 1, 2:
					r.Children = append(r.Children, &Text{Text: h.str()})
				case 3:
					r.Children = append(r.Children, &Text{})
				case 4:
					r.Children = append(r.Children, &Tab{Val: h.str()})
				case 5:
					r.Children = append(r.Children, &BarterRabbet{Type: h.str()})
				case 6:
					r.Children = append(r.Children, &Drawing{Inline: &WPInline{}})
				case 7:
					r.Children = append(r.Children, &Hyperlink{ID: h.str()})
				}
			}
			if n := len(p.Children); n > 0 {
				if _, ok := p.Children[n-1].(*Run); ok {
					pairs++
				}
			}
			p.Children = append(p.Children, r)
		}
	}
	var rule RunMergeRule
	name := ""
	salt := h.r.Intn(1000)
	switch k := h.r.Intn(6); k {
	case 0:
		rule, name = MergeAllRuns, "all"
	case 1:
		rule, name = MergeSamePropRuns, "same properties"
	case 2:
		rule, name = MergeSamePropRunsOf("Bold"), "same Bold"
	case 3:
		rule, name = MergeSamePropRunsOf("Size", "Color"), "same Size, Color"
	case 4:
		rule, name = func(a, b *Run) bool { return false }, "never"
	default:
		rule, name = func(a, b *Run) bool {
			x := 0
			for i, q := range props {
				if q == a.RunProperties {
					x += 7 * i
				}
				if q == b.RunProperties {
					x += 31 * i
				}
			}
			return (x+salt)%3 != 0
		}, fmt.Sprintf("arbitrary %d", salt)
	}
	type grp struct {
		run   *Run // first run
		other interface{}
		flat  string
	}
	var want []grp
	for _, c := range p.Children {
		r, ok := c.(*Run)
		if !ok {
			want = append(want, grp{other: c})
			continue
		}
		f := vFlat(&Paragraph{Children: []interface{}{r}})
		if n := len(want); n > 0 && want[n-1].run != nil && rule(want[n-1].run, r) {
			want[n-1].flat += f
		} else {
			want = append(want, grp{run: r, flat: f})
		}
	}
	before := vDump(p)
	ident := fmt.Sprint(p.Children)
	h.evalCase("merge", name+" "+before, pairs > 0, func() string {
		np := p.MergeText(rule)
		if vDump(p) != before || fmt.Sprint(p.Children) != ident {
			return "the source changed: " + vDiff(before, vDump(p))
		}
		if a, b := vFlat(p), vFlat(&np); a != b {
			return fmt.Sprintf("reads %q want %q", b, a)
		}
		q1, q2 := *p, np
		q1.Children, q2.Children = nil, nil
		if a, b := vDump(&q1), vDump(&q2); a != b {
			return "properties: " + vDiff(a, b)
		}
		if len(np.Children) != len(want) {
			return fmt.Sprintf("%d children, want %d", len(np.Children), len(want))
		}
		for i, w := range want {
			if w.run == nil {
				if np.Children[i] != w.other {
					return fmt.Sprintf("child %d is not the original one", i)
				}
				continue
			}
			r, ok := np.Children[i].(*Run)
			if !ok {
				return fmt.Sprintf("child %d is no run", i)
			}
			if f := vFlat(&Paragraph{Children: []interface{}{r}}); f != w.flat {
				return fmt.Sprintf("run %d reads %q want %q", i, f, w.flat)
			}
			r1, r2 := *w.run, *r
			r1.Children, r2.Children = nil, nil
			if a, b := vDump(&r1), vDump(&r2); a != b {
				return "run: " + vDiff(a, b)
			}
			for j, k := range r.Children {
				if t, ok := k.(*Text); ok {
					if j > 0 {
						if _, ok := r.Children[j-1].(*Text); ok {
							return "two adjacent text pieces"
						}
					}
					_ = t
				}
			}
		}
		return ""
	})
	h.evalCase("the source stays unchanged when the result is merged again", name+" "+before, pairs > 0, func() string {
		np := p.MergeText(rule)
		np2 := np.MergeText(MergeAllRuns)
		np3 := np2.MergeText(MergeAllRuns)
		if vFlat(&np3) != vFlat(p) {
			return fmt.Sprintf("reads %q want %q", vFlat(&np3), vFlat(p))
		}
		if vDump(p) != before {
			return vDiff(before, vDump(p))
		}
		return ""
	})
}
