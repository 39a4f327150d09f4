package docx

import (
	"fmt"
	"regexp"
	"strings"
	"testing"
)

func TestVerifC08(t *testing.T) {
	vRun(t, "C08", "random documents split by random rules (by position, by text, always, never); non-trivial: at least two pieces", func(h *vH) {
		for n := 0; h.more(n, 250); n++ {
			vSplitCase(h)
		}
	})
}

func vSplitCase(h *vH) {
	var log []string
	d := h.randDoc(h.r.Intn(9), &log)
	if h.r.Intn(6) == 0 {
		h.vBreak(d, &log)
	}
	hold := map[*Paragraph]bool{}
	mode := h.r.Intn(4)
	for _, it := range d.Document.Body.Items {
		if p, ok := it.(*Paragraph); ok {
			switch mode {
			case 0:
				hold[p] = true
			case 1:
				hold[p] = false
			default:
				hold[p] = h.r.Intn(3) == 0
			}
		}
	}
	var rule ParagraphSplitRule = func(p *Paragraph) bool { return hold[p] }
	if h.r.Intn(4) == 0 {
		re := regexp.MustCompile([]string{"a", "^$", "\\[", "x y"}[h.r.Intn(4)])
		rule = SplitDocxByPlainTextRegex(re)
		for p := range hold {
			hold[p] = re.MatchString(p.String())
		}
		log = append(log, "rule: regular expression "+re.String())
	}
	items := append([]interface{}{}, d.Document.Body.Items...)
	// expected pieces
	var want [][]interface{}
	for _, it := range items {
		p, isp := it.(*Paragraph)
		if len(want) == 0 || isp && hold[p] {
			want = append(want, nil)
		}
		want[len(want)-1] = append(want[len(want)-1], it)
	}
	var hs []int
	for i, it := range items {
		if p, ok := it.(*Paragraph); ok && hold[p] {
			hs = append(hs, i)
		}
	}
	in := strings.Join(log, ";") + fmt.Sprintf("; %d items, rule holds at %v", len(items), hs)
	before := vState(d)
	var docs []*Docx
	h.evalCase("split", in, len(want) > 1, func() string {
		docs = d.SplitByParagraph(rule)
		if len(docs) != len(want) {
			return fmt.Sprintf("%d pieces, want %d", len(docs), len(want))
		}
		for i, p := range docs {
			if len(p.Document.Body.Items) == 0 {
				return "empty piece"
			}
			w := vView(d, want[i], true)
			if g := vView(p, p.Document.Body.Items, false); g != w {
				return fmt.Sprintf("piece %d: %s", i, vDiff(w, g))
			}
		}
		if x := vState(d); x != before {
			return "the source changed: " + vDiff(before, x)
		}
		if len(d.Document.Body.Items) != len(items) {
			return "items of the source changed"
		}
		for i := range items {
			if d.Document.Body.Items[i] != items[i] {
				return "items of the source changed"
			}
		}
		return ""
	})
	if len(h.Fails) > 0 {
		return
	}
	h.evalCase("pieces are independent documents", in, len(want) > 1, func() string {
		for i, p := range docs {
			b, err := vSave(p)
			if err != nil {
				return err.Error()
			}
			r, err := vOpen(b)
			if err != nil {
				return fmt.Sprintf("piece %d: %v", i, err)
			}
			if u, v := vView(p, p.Document.Body.Items, false), vView(r, r.Document.Body.Items, false); u != v {
				return vDiff(u, v)
			}
		}
		if len(docs) > 0 {
			k := h.r.Intn(len(docs))
			var st []string
			for _, p := range docs {
				st = append(st, vState(p))
			}
			q := docs[k].AddParagraph()
			if _, err := q.AddInlineDrawing(h.pic()); err != nil {
				return err.Error()
			}
			q.AddLink("x", "https://z/")
			for _, it := range docs[k].Document.Body.Items {
				if pp, ok := it.(*Paragraph); ok {
					l := pp.AddLink("y", "https://y/")
					if t, err := docs[k].ReferTarget(l.ID); err != nil || t != "https://y/" {
						return "a link added to a copied paragraph does not resolve in its piece"
					}
					break
				}
			}
			for i, p := range docs {
				if i != k && vState(p) != st[i] {
					return "adding to one piece changed another"
				}
			}
			if x := vState(d); x != before {
				return "adding to a piece changed the source: " + vDiff(before, x)
			}
		}
		return ""
	})
}
