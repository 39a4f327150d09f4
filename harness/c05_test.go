package docx

import (
	"bytes"
	"fmt"
	"strings"
	"testing"
)

func TestVerifC05(t *testing.T) {
	vRun(t, "C05", "documents new, parsed from packages with media under awkward names, or loaded from items, to which pictures are added and which are saved and parsed again in between; non-trivial: a picture was added to a document that had media", func(h *vH) {
		for n := 0; h.more(n, 500); n++ {
			vMediaCase(h)
		}
	})
}

func vMediaCase(h *vH) {
	var log []string
	have := map[string][]byte{}
	var d *Docx
	names := []string{"image1.png", "image2.png", "image3.gif", "image100001.png", "image100002.gif", "image100003.png", "a/b.png", "x", "图.png", "IMAGE1.png", " image1.png", "image01.png", "media/image1.png"}
	h.r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	names = names[:h.r.Intn(7)]
	switch h.r.Intn(3) {
	case 0:
		d = New().WithDefaultTheme()
		log = append(log, "new")
	case 1:
		var ms []vEnt
		for _, n := range names {
			ms = append(ms, vEnt{n, h.pic()})
			have[n] = ms[len(ms)-1].Data
		}
		log = append(log, fmt.Sprint("parsed with media ", names))
		var err error
		d, err = vOpen(vMakeZip(vPack("<w:p/>", nil, ms, nil)))
		if err != nil {
			h.fail("open", strings.Join(log, ";"), err.Error())
			return
		}
	case 2:
		var ms []Media
		for _, n := range names {
			ms = append(ms, Media{Name: n, Data: h.pic()})
			have[n] = ms[len(ms)-1].Data
		}
		log = append(log, fmt.Sprint("loaded with media ", names))
		d = LoadBodyItems(nil, ms).WithDefaultTheme()
	}
	check := func(o string) {
		in := strings.Join(log, ";")
		h.evalCase(o, in, len(have) > 0, func() string {
			for n, b := range have {
				m := d.Media(n)
				if m == nil {
					return "no media named " + n
				}
				if m.Name != n || !bytes.Equal(m.Data, b) {
					return fmt.Sprintf("media %q is %q with other bytes: %q want %q", n, m.Name, m.Data, b)
				}
				if m.String() != "word/media/"+n {
					return "path " + m.String()
				}
			}
			for _, n := range []string{"", "nope", "image", "image1", "word/media/image1.png", "image1.pn", "mage1.png"} {
				if _, ok := have[n]; !ok && d.Media(n) != nil {
					return fmt.Sprintf("media found under %q", n)
				}
			}
			return ""
		})
	}
	check("media are found under their names")
	for i := 1 + h.r.Intn(4); i > 0; i-- {
		if h.r.Intn(3) == 0 {
			log = append(log, "save and parse")
			b, err := vSave(d)
			if err != nil {
				h.fail("save", strings.Join(log, ";"), err.Error())
				return
			}
			es, err := vReadZip(b)
			if err != nil {
				h.fail("saved package reads", strings.Join(log, ";"), err.Error())
				return
			}
			c := 0
			for _, e := range es {
				if strings.HasPrefix(e.Name, "word/media/") {
					c++
					if w, ok := have[e.Name[11:]]; !ok || !bytes.Equal(w, e.Data) {
						h.fail("saved media have their bytes", strings.Join(log, ";"), e.Name)
					}
				}
			}
			if c != len(have) {
				h.fail("every media is saved", strings.Join(log, ";"), fmt.Sprint(vEntNames(es)))
			}
			if d, err = vOpen(b); err != nil {
				h.fail("open", strings.Join(log, ";"), err.Error())
				return
			}
			check("media survive saving")
			continue
		}
		p := d.AddParagraph()
		pic := h.pic()
		inl := h.r.Intn(2) == 0
		log = append(log, fmt.Sprintf("add picture inline=%v", inl))
		old := map[string]bool{}
		for k := range have {
			old[k] = true
		}
		h.evalCase("the new picture has its own media and the relationship points to it", strings.Join(log, ";"), len(have) > 0, func() string {
			var r *Run
			var err error
			if inl {
				r, err = p.AddInlineDrawing(pic)
			} else {
				r, err = p.AddAnchorDrawing(pic)
			}
			if err != nil {
				return err.Error()
			}
			id, ok := vEmbed(r.Children[0].(*Drawing))
			if !ok {
				return "no reference"
			}
			tg, err := d.ReferTarget(id)
			if err != nil || !strings.HasPrefix(tg, "media/") {
				return fmt.Sprint(tg, err)
			}
			if _, ok := have[tg[6:]]; ok {
				return "name " + tg + " was taken"
			}
			m := d.Media(tg[6:])
			if m == nil || !bytes.Equal(m.Data, pic) {
				return fmt.Sprintf("media %v", m)
			}
			have[tg[6:]] = pic
			return ""
		})
		check("adding a picture keeps the other media")
		if len(h.Fails) > 0 {
			return
		}
	}
}
