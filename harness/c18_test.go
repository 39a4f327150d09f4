package docx

import (
	"fmt"
	"reflect"
	"strings"
	"testing"
)

func TestVerifC18(t *testing.T) {
	vRun(t, "C18", "random sequences of counter calls for several names mixed with drawings of all four kinds, on new, parsed, loaded and split documents; non-trivial: at least two names or drawings", func(h *vH) {
		for n := 0; h.more(n, 600); n++ {
			vCountCase(h)
		}
	})
}

func vCountCase(h *vH) {
	var log []string
	var d *Docx
	switch h.r.Intn(4) {
	case 0:
		d = New()
	case 1:
		d = LoadBodyItems(nil, []Media{{Name: "a", Data: []byte("x")}})
		log = append(log, "loaded")
	case 2:
		var err error
		d, err = vOpen(vMakeZip(vPack("<w:p/>", nil, nil, nil)))
		if err != nil {
			h.fail("open", "", err.Error())
			return
		}
		log = append(log, "parsed")
	case 3:
		e := New()
		e.AddParagraph()
		d = e.SplitByParagraph(func(*Paragraph) bool { return true })[0]
		log = append(log, "split")
	}
	names := []string{"a", "b", "", "图片", "图", "A", "a "}
	last := map[string]uintptr{}
	known := map[string]bool{}
	p := d.AddParagraph()
	drawn := map[string]bool{}
	for i := 2 + h.r.Intn(12); i > 0; i-- {
		n := names[h.r.Intn(len(names))]
		k := h.r.Intn(6)
		log = append(log, fmt.Sprintf("%d:%s", k, n))
		h.evalCase("count", strings.Join(log, ";"), len(log) > 2, func() string {
			if k < 2 {
				v := d.IncreaseID(n)
				if known[n] && v != last[n]+1 {
					return fmt.Sprintf("%q gave %d after %d", n, v, last[n])
				}
				known[n], last[n] = true, v
				return ""
			}
			var r *Run
			var err error
			cn := "图片"
			switch k {
			case 2:
				r, err = p.AddInlineDrawing(h.pic())
			case 3:
				r, err = p.AddAnchorDrawing(h.pic())
			case 4:
				r = p.AddInlineShape(1, 1, n, "auto", "rect", nil)
				cn = n
			case 5:
				r = p.AddAnchorShape(1, 1, n, "auto", "rect", nil)
				cn = n
			}
			if err != nil {
				return err.Error()
			}
			g := r.Children[0].(*Drawing)
			var dp *WPDocPr
			if g.Inline != nil {
				dp = g.Inline.DocPr
			} else {
				dp = g.Anchor.DocPr
			}
			key := fmt.Sprint("id ", dp.ID)
			if drawn[key] {
				return "drawing number used twice: " + key
			}
			drawn[key] = true
			if drawn["name "+dp.Name] && cn != "a " && cn != "a" {
				return "drawing name used twice: " + dp.Name
			}
			drawn["name "+dp.Name] = true
			if known[cn] {
				last[cn]++
				if want := fmt.Sprintf("%s %d", cn, last[cn]); dp.Name != want {
					return fmt.Sprintf("named %q want %q", dp.Name, want)
				}
			}
			return ""
		})
	}
	h.evalCase("drawing numbers in the document are pairwise different", strings.Join(log, ";"), len(drawn) > 1, func() string {
		seen := map[int]bool{}
		e := ""
		vWalk(reflect.ValueOf(d.Document.Body.Items), func(x interface{}) {
			if dp, ok := x.(*WPDocPr); ok {
				if seen[dp.ID] {
					e = fmt.Sprint("twice: ", dp.ID)
				}
				seen[dp.ID] = true
			}
		})
		return e
	})
}
