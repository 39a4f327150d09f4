package docx

import (
	"bytes"
	"fmt"
	"math/big"
	"os"
	"reflect"
	"strings"
	"testing"
)

func TestVerifC14(t *testing.T) {
	vRun(t, "C14", "pictures of random, extreme and boundary sizes, truncated and empty pictures and missing files added inline and anchored; resizing of random drawings; non-trivial: the picture has a size or must be refused", func(h *vH) {
		for n := 0; h.more(n, 2500); n++ {
			vPicCase(h)
			vSizeCase(h)
		}
	})
}

func vPicCase(h *vH) {
	var log []string
	d := New()
	if h.r.Intn(8) == 0 {
		d = h.randDoc(2, &log)
	}
	p := d.AddParagraph()
	p.AddText("before")
	var w, ht int64
	bad := false
	var pic []byte
	switch k := h.r.Intn(10); {
	case k < 2: // the boundary of "wide": 6:5
		m := int64(1 + h.r.Intn(3000))
		w, ht = 6*m+int64(h.r.Intn(3)-1), 5*m
	case k < 4:
		w, ht = int64(1+h.r.Intn(1<<31-1)), int64(1+h.r.Intn(1<<31-1))
	case k < 5:
		w, ht = int64(1+h.r.Intn(3)), int64(1+h.r.Intn(1<<20))
	case k < 6:
		w, ht = int64(1+h.r.Intn(1<<20)), int64(1+h.r.Intn(3))
	default:
		w, ht = int64(1+h.r.Intn(5000)), int64(1+h.r.Intn(5000))
	}
	if w < 1 {
		w = 1
	}
	vSalt++
	pic = vPNGOf(uint32(w), uint32(ht), fmt.Sprint("s", vSalt))
	if w < 65536 && ht < 65536 && h.r.Intn(3) == 0 {
		pic = vGIFOf(uint16(w), uint16(ht), fmt.Sprint("s", vSalt))
		if h.r.Intn(6) == 0 {
			bad = true
			pic = [][]byte{vGIFOf(0, uint16(ht), ""), vGIFOf(uint16(w), 0, ""), vGIFOf(0, 0, "")}[h.r.Intn(3)]
		}
	}
	if h.r.Intn(6) == 0 {
		bad = true
		pic = [][]byte{nil, {}, []byte("no picture"), pic[:h.r.Intn(10)], []byte("\x89PNG\r\n\x1a\n"), []byte("GIF89"), []byte("\xff\xd8\xff")}[h.r.Intn(7)]
	}
	inl := h.r.Intn(2) == 0
	file := h.r.Intn(6) == 0
	miss := file && h.r.Intn(3) == 0
	if miss {
		bad = true
	}
	name := "pic.bin"
	if file {
		if !miss {
			_ = os.WriteFile(name, pic, 0o600)
		} else {
			_ = os.Remove(name)
		}
	}
	before := vState(d)
	kids := append([]interface{}{}, p.Children...)
	media := len(vRels(d))
	in := fmt.Sprintf("%s; %dx%d inline=%v file=%v missing=%v bad=%v %q", strings.Join(log, ";"), w, ht, inl, file, miss, bad, vCut(pic))
	h.evalCase("add picture", in, true, func() string {
		var r *Run
		var err error
		switch {
		case inl && file:
			r, err = p.AddInlineDrawingFrom(name)
		case inl:
			r, err = p.AddInlineDrawing(pic)
		case file:
			r, err = p.AddAnchorDrawingFrom(name)
		default:
			r, err = p.AddAnchorDrawing(pic)
		}
		if bad {
			if err == nil {
				return "accepted"
			}
			if x := vState(d); x != before {
				return "something was added: " + vDiff(before, x)
			}
			return ""
		}
		if err != nil {
			return err.Error()
		}
		if len(p.Children) != len(kids)+1 || p.Children[len(kids)] != interface{}(r) {
			return "not appended exactly once"
		}
		if len(vRels(d)) != media+1 {
			return "one relationship expected"
		}
		if len(r.Children) != 1 {
			return "one drawing expected"
		}
		g, ok := r.Children[0].(*Drawing)
		if !ok || (g.Inline != nil) != inl || (g.Anchor != nil) == inl {
			return "not the requested kind"
		}
		var ext *WPExtent
		if inl {
			ext = g.Inline.Extent
		} else {
			ext = g.Anchor.Extent
		}
		// width and height by exact arithmetic
		const page = 5274310
		ww, hh := int64(page), new(big.Int).Div(new(big.Int).Mul(big.NewInt(page), big.NewInt(ht)), big.NewInt(w)).Int64()
		if !(10*w > 12*ht) {
			ww, hh = ww/2, hh/2
		}
		if ext.CX != ww || ext.CY < hh-1 || ext.CY > hh+1 {
			return fmt.Sprintf("frame %dx%d, want %dx%d", ext.CX, ext.CY, ww, hh)
		}
		x := vGraphic(g).GraphicData.Pic.SpPr.Xfrm.Ext
		if x.CX != ext.CX || x.CY != ext.CY {
			return fmt.Sprintf("picture %dx%d in frame %dx%d", x.CX, x.CY, ext.CX, ext.CY)
		}
		id, _ := vEmbed(g)
		if b, ok := vBytesOf(d, id); !ok || !bytes.Equal(b, pic) {
			return "the reference does not resolve to the picture"
		}
		return ""
	})
}

func vCut(b []byte) []byte {
	if len(b) > 40 {
		return b[:40]
	}
	return b
}

func vSizeCase(h *vH) {
	w, ht := h.int64(), h.int64()
	il := &WPInline{}
	an := &WPAnchor{}
	h.gen(reflect.ValueOf(il).Elem(), h.r.Intn(9))
	h.gen(reflect.ValueOf(an).Elem(), h.r.Intn(9))
	set := func(e *WPExtent, g *AGraphic) {
		if e != nil {
			e.CX, e.CY = w, ht
		}
		if g != nil && g.GraphicData != nil && g.GraphicData.Pic != nil && g.GraphicData.Pic.SpPr != nil {
			g.GraphicData.Pic.SpPr.Xfrm.Ext.CX, g.GraphicData.Pic.SpPr.Xfrm.Ext.CY = w, ht
		}
	}
	h.evalCase("WPInline.Size", fmt.Sprint(w, ht, vDump(il)), il.Extent != nil, func() string {
		c := vCloneOf(il).(*WPInline)
		set(c.Extent, c.Graphic)
		il.Size(w, ht)
		if a, b := vDump(c), vDump(il); a != b {
			return vDiff(a, b)
		}
		return ""
	})
	h.evalCase("WPAnchor.Size", fmt.Sprint(w, ht, vDump(an)), an.Extent != nil, func() string {
		c := vCloneOf(an).(*WPAnchor)
		set(c.Extent, c.Graphic)
		an.Size(w, ht)
		if a, b := vDump(c), vDump(an); a != b {
			return vDiff(a, b)
		}
		return ""
	})
}
