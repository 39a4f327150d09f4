package docx

import (
	"fmt"
	"strings"
	"testing"
)

func TestVerifC04(t *testing.T) {
	vRun(t, "C04", "random documents (new, and parsed from packages with random relationship lists) to which links and pictures are added; non-trivial: at least one relationship was created", func(h *vH) {
		for n := 0; h.more(n, 500); n++ {
			vRelCase(h)
		}
	})
}

func vRelCase(h *vH) {
	var log []string
	var d *Docx
	if h.r.Intn(2) == 0 {
		d = New().WithDefaultTheme()
		log = append(log, "new")
	} else {
		var rels []vRel
		ids := h.r.Perm(40)
		for i := h.r.Intn(6); i > 0; i-- {
			id := fmt.Sprintf("rId%d", ids[i])
			if h.r.Intn(6) == 0 {
				id = fmt.Sprintf("rId0%d", ids[i])
			}
			rels = append(rels, vRel{id, REL_HYPERLINK, vLinkPool[h.r.Intn(len(vLinkPool))], "External"})
		}
		if h.r.Intn(3) == 0 {
			rels = append(rels, vRel{fmt.Sprintf("rId%d", 1000+h.r.Intn(1<<40)), REL_IMAGE, "media/x.png", ""})
		}
		h.r.Shuffle(len(rels), func(i, j int) { rels[i], rels[j] = rels[j], rels[i] })
		b := vMakeZip(vPack("<w:p/>", rels, nil, nil))
		var err error
		d, err = vOpen(b)
		log = append(log, fmt.Sprintf("parsed with %v", rels))
		if err != nil {
			h.fail("open", strings.Join(log, ";"), err.Error())
			return
		}
		if fmt.Sprint(vRels(d)) != fmt.Sprint(rels) {
			h.fail("a parsed document has the relationships of its package", strings.Join(log, ";"), fmt.Sprint(vRels(d)))
			return
		}
	}
	p := d.AddParagraph()
	for i := 1 + h.r.Intn(6); i > 0; i-- {
		before := vRels(d)
		var id, want string
		if h.r.Intn(2) == 0 {
			l := vLinkPool[h.r.Intn(len(vLinkPool))] + fmt.Sprint(h.r.Intn(3))
			log = append(log, "link "+l)
			h.guard("AddLink", strings.Join(log, ";"), func() { id, want = p.AddLink("t", l).ID, l })
		} else {
			log = append(log, "picture")
			h.guard("AddInlineDrawing", strings.Join(log, ";"), func() {
				r, err := p.AddInlineDrawing(h.pic())
				if err != nil {
					h.fail("AddInlineDrawing", strings.Join(log, ";"), err.Error())
					return
				}
				id, _ = vEmbed(r.Children[0].(*Drawing))
			})
		}
		after := vRels(d)
		in := strings.Join(log, ";")
		h.evalCase("a new relationship has a new ID and keeps the others", in, true, func() string {
			if len(after) != len(before)+1 || fmt.Sprint(after[:len(before)]) != fmt.Sprint(before) {
				return fmt.Sprintf("before %v after %v", before, after)
			}
			for _, r := range before {
				if r.ID == id {
					return "ID " + id + " already used"
				}
			}
			if after[len(before)].ID != id {
				return "ID returned " + id + " stored " + after[len(before)].ID
			}
			if want != "" && after[len(before)].Target != want {
				return "target " + after[len(before)].Target
			}
			return ""
		})
		h.evalCase("looking up IDs and targets", in, true, func() string {
			for _, r := range after {
				tg, err := d.ReferTarget(r.ID)
				if err != nil || tg != r.Target {
					return fmt.Sprintf("ReferTarget(%q)=%q,%v want %q", r.ID, tg, err, r.Target)
				}
				i2, err := d.ReferID(r.Target)
				if err != nil {
					return fmt.Sprintf("ReferID(%q): %v", r.Target, err)
				}
				ok := false
				for _, q := range after {
					ok = ok || q.ID == i2 && q.Target == r.Target
				}
				if !ok {
					return fmt.Sprintf("ReferID(%q)=%q which has another target", r.Target, i2)
				}
			}
			for _, s := range []string{"rId", "nope", "rId99999999999999", "media/", "xmedia/image1.png", h.str(), "RID1", " rId1"} {
				has, hast := false, false
				for _, q := range after {
					has = has || q.ID == s
					hast = hast || q.Target == s
				}
				if tg, err := d.ReferTarget(s); (err == nil) != has {
					return fmt.Sprintf("ReferTarget(%q)=%q,%v", s, tg, err)
				}
				if id, err := d.ReferID(s); (err == nil) != hast {
					return fmt.Sprintf("ReferID(%q)=%q,%v", s, id, err)
				}
			}
			return ""
		})
		h.evalCase("the saved package has the same relationships", in, true, func() string {
			b, err := vSave(d)
			if err != nil {
				return err.Error()
			}
			e, err := vOpen(b)
			if err != nil {
				return err.Error()
			}
			if x := fmt.Sprint(vRels(e)); x != fmt.Sprint(after) {
				return x + " want " + fmt.Sprint(after)
			}
			return ""
		})
		h.evalCase("ranging stops at an error", in, true, func() string {
			k := h.r.Intn(len(after))
			c := 0
			myerr := fmt.Errorf("stop")
			err := d.RangeRelationships(func(*Relationship) error {
				c++
				if c == k+1 {
					return myerr
				}
				return nil
			})
			if err != myerr || c != k+1 {
				return fmt.Sprintf("stopped after %d of %d with %v", c, k+1, err)
			}
			return ""
		})
	}
}
