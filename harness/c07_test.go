package docx

import (
	"fmt"
	"reflect"
	"strings"
	"testing"
)

func TestVerifC07(t *testing.T) {
	vRun(t, "C07", "random documents B (with links, pictures, tables; new or parsed; some references broken) appended to random documents A; non-trivial: B has a link or picture", func(h *vH) {
		for n := 0; h.more(n, 300); n++ {
			vAppendCase(h)
		}
	})
}

func vAppendCase(h *vH) {
	log := []string{"A:"}
	a := h.randDoc(1+h.r.Intn(4), &log)
	log = append(log, "B:")
	b := h.randDoc(1+h.r.Intn(5), &log)
	if h.r.Intn(4) == 0 {
		h.vBreak(b, &log)
	}
	in := strings.Join(log, ";")
	na := len(a.Document.Body.Items)
	aItems := append([]interface{}{}, a.Document.Body.Items...)
	aBefore := vView(a, a.Document.Body.Items, false)
	aRels := vRels(a)
	bBefore := vState(b)
	bItems := append([]interface{}{}, b.Document.Body.Items...)
	want := vView(b, b.Document.Body.Items, true)
	h.evalCase("append", in, len(vRels(b)) > 3, func() string {
		a.AppendFile(b)
		items := a.Document.Body.Items
		if len(items) != na+len(bItems) {
			return fmt.Sprintf("%d items, want %d+%d", len(items), na, len(bItems))
		}
		for i, x := range aItems {
			if items[i] != x {
				return fmt.Sprintf("item %d of A was replaced", i)
			}
		}
		if x := vView(a, items[:na], false); x != aBefore {
			return "A changed: " + vDiff(aBefore, x)
		}
		if x := vRels(a); fmt.Sprint(x[:len(aRels)]) != fmt.Sprint(aRels) {
			return fmt.Sprintf("relationships of A changed: %v -> %v", aRels, x)
		}
		if x := vView(a, items[na:], false); x != want {
			return "appended part: " + vDiff(want, x)
		}
		ids := map[string]bool{}
		for _, r := range aRels {
			ids[r.ID] = true
		}
		e := ""
		vWalk(reflect.ValueOf(items[na:]), func(p interface{}) {
			if l, ok := p.(*Hyperlink); ok {
				if ids[l.ID] {
					e = "link shares relationship " + l.ID
				}
				ids[l.ID] = true
			}
		})
		if e != "" {
			return e
		}
		if x := vState(b); x != bBefore {
			return "B changed: " + vDiff(bBefore, x)
		}
		for i, x := range b.Document.Body.Items {
			if i >= len(bItems) || bItems[i] != x {
				return "items of B changed"
			}
		}
		return ""
	})
	if len(h.Fails) > 0 {
		return
	}
	h.evalCase("the result saves and reads back", in, len(vRels(b)) > 3, func() string {
		x, err := vSave(a)
		if err != nil {
			return err.Error()
		}
		r, err := vOpen(x)
		if err != nil {
			return err.Error()
		}
		if u, v := vView(a, a.Document.Body.Items, false), vView(r, r.Document.Body.Items, false); u != v {
			return vDiff(u, v)
		}
		return ""
	})
	h.evalCase("further additions to the result work", in, true, func() string {
		before := vView(a, a.Document.Body.Items, false)
		n := len(a.Document.Body.Items)
		p := a.AddParagraph()
		if _, err := p.AddInlineDrawing(h.pic()); err != nil {
			return err.Error()
		}
		p.AddLink("x", "https://z/")
		for _, it := range a.Document.Body.Items[na:n] {
			if q, ok := it.(*Paragraph); ok { // copied paragraphs belong to A
				before = ""
				l := q.AddLink("y", "https://y/")
				if t, err := a.ReferTarget(l.ID); err != nil || t != "https://y/" {
					return "a link added to a copied paragraph does not resolve in A"
				}
				break
			}
		}
		if before != "" {
			if x := vView(a, a.Document.Body.Items[:n], false); x != before {
				return vDiff(before, x)
			}
		}
		if x := vState(b); x != bBefore {
			return "B changed: " + vDiff(bBefore, x)
		}
		return ""
	})
}
