package docx

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"strings"
	"testing"
	"testing/fstest"
	"time"
)

func TestVerifC06(t *testing.T) {
	vRun(t, "C06", "random documents with the built-in, a custom or a parsed package as template, saved to a writer that fails at a chosen byte, with a template file system that fails to open or read, or with an element that cannot be encoded; non-trivial: a fault was injected or media are present", func(h *vH) {
		for n := 0; h.more(n, 400); n++ {
			vSaveCase(h)
		}
	})
}

type vFailW struct {
	n    int
	seen bool
}

var errVFail = errors.New("injected failure")

func (w *vFailW) Write(p []byte) (int, error) {
	if w.seen || len(p) > w.n {
		w.seen = true
		return 0, errVFail
	}
	w.n -= len(p)
	return len(p), nil
}

type vFailFS struct {
	fs.FS
	open, read string
	at         int
	hit        bool
}

type vFailFile struct {
	fs.File
	o *vFailFS
	n int
}

func (f *vFailFile) Read(p []byte) (int, error) {
	if f.n >= f.o.at {
		f.o.hit = true
		return 0, errVFail
	}
	if len(p) > f.o.at-f.n {
		p = p[:f.o.at-f.n]
	}
	n, err := f.File.Read(p)
	f.n += n
	if err == io.EOF {
		f.o.hit = true
		err = errVFail
	}
	return n, err
}

func (f *vFailFS) Open(name string) (fs.File, error) {
	if name == f.open {
		f.hit = true
		return nil, errVFail
	}
	x, err := f.FS.Open(name)
	if err == nil && name == f.read {
		return &vFailFile{x, f, 0}, nil
	}
	return x, err
}

func vSaveCase(h *vH) {
	var log []string
	d := New()
	var tmpl []vEnt // the files the template has
	var ffs *vFailFS
	switch h.r.Intn(3) {
	case 0:
		d.WithDefaultTheme()
		for _, n := range DefaultTemplateFilesList {
			b, err := TemplateXMLFS.ReadFile("xml/default/" + n)
			if err != nil {
				h.fail("template", n, err.Error())
				return
			}
			tmpl = append(tmpl, vEnt{n, b})
		}
		log = append(log, "default theme")
	case 1:
		m := fstest.MapFS{}
		var l []string
		pre := ""
		if h.r.Intn(2) == 0 {
			pre = "t" + fmt.Sprint(h.r.Intn(9))
		}
		for i := h.r.Intn(6); i > 0; i-- {
			n := []string{"a.xml", "word/b.xml", "word/sub/c.bin", "[Content_Types].xml", "empty", "word/mediax", "big"}[h.r.Intn(7)]
			b := bytes.Repeat([]byte(n), h.r.Intn(3)*h.r.Intn(20))
			if n == "big" {
				b = make([]byte, 100000)
				h.r.Read(b)
			}
			k := n
			if pre != "" {
				k = "xml/" + pre + "/" + n
			}
			if _, ok := m[k]; ok {
				continue
			}
			m[k] = &fstest.MapFile{Data: b, Mode: 0o444, ModTime: time.Unix(1e9, 0)}
			l = append(l, n)
			tmpl = append(tmpl, vEnt{n, b})
		}
		ffs = &vFailFS{FS: m}
		d.UseTemplate(pre, l, ffs)
		log = append(log, fmt.Sprintf("template %q %v", pre, l))
	case 2:
		rest := []vEnt{{"[Content_Types].xml", []byte("ct")}, {"docProps/app.xml", []byte("<a/>")}, {"word/styles.xml", []byte(h.str())}, {"custom/x.bin", h.pic()}, {"media/y", []byte("y")}}
		h.r.Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
		rest = rest[:h.r.Intn(len(rest)+1)]
		var err error
		d, err = vOpen(vMakeZip(vPack("<w:p/>", nil, []vEnt{{"m.png", h.pic()}}, rest)))
		if err != nil {
			h.fail("open", "", err.Error())
			return
		}
		tmpl = rest
		log = append(log, fmt.Sprint("parsed with ", vEntNames(rest)))
	}
	h.fill(d, h.r.Intn(5), &log)
	want := map[string][]byte{}
	for _, e := range tmpl {
		want[e.Name] = e.Data
	}
	var media []string
	for _, r := range vRels(d) {
		if strings.HasPrefix(r.Target, "media/") && r.Type == REL_IMAGE {
			if m := d.Media(r.Target[6:]); m != nil {
				want["word/media/"+m.Name] = m.Data
				media = append(media, m.Name)
			}
		}
	}
	if m := d.Media("m.png"); m != nil {
		want["word/media/m.png"] = m.Data
	}
	in := strings.Join(log, ";")
	var good []byte
	h.evalCase("a successful save is complete", in, len(media) > 0, func() string {
		b, err := vSave(d)
		if err != nil {
			return err.Error()
		}
		good = b
		es, err := vReadZip(b)
		if err != nil {
			return "the package does not read: " + err.Error()
		}
		got := map[string]bool{}
		for _, e := range es {
			if got[e.Name] {
				return "twice: " + e.Name
			}
			got[e.Name] = true
			if e.Name == "word/document.xml" || e.Name == "word/_rels/document.xml.rels" {
				continue
			}
			w, ok := want[e.Name]
			if !ok {
				return "unexpected part " + e.Name
			}
			if !bytes.Equal(w, e.Data) {
				return fmt.Sprintf("part %s has %d bytes, want %d", e.Name, len(e.Data), len(w))
			}
		}
		if len(es) != len(want)+2 {
			return fmt.Sprintf("parts %v want %d", vEntNames(es), len(want)+2)
		}
		if !got["word/document.xml"] || !got["word/_rels/document.xml.rels"] {
			return "the document part is missing"
		}
		e, err := vOpen(b)
		if err != nil {
			return "reopen: " + err.Error()
		}
		if x, y := vDump(d.Document.Body), vDump(e.Document.Body); x != y {
			return vDiff(x, y)
		}
		if x, y := fmt.Sprint(vRels(d)), fmt.Sprint(vRels(e)); x != y {
			return vDiff(x, y)
		}
		return ""
	})
	if good == nil {
		return
	}
	// every write may fail, the last bytes more often
	for i := 0; i < 6; i++ {
		at := h.r.Intn(len(good))
		if i < 3 {
			at = len(good) - 1 - h.r.Intn(60)
			if at < 0 {
				at = 0
			}
		}
		h.evalCase("a failing writer makes the save fail", fmt.Sprintf("%s; writer fails after %d of about %d bytes", in, at, len(good)), true, func() string {
			w := &vFailW{n: at}
			_, err := d.WriteTo(w)
			if w.seen && err == nil {
				return "the save reported success"
			}
			return ""
		})
	}
	if ffs != nil && len(tmpl) > 0 {
		pick := func() string {
			for n := range ffs.FS.(fstest.MapFS) {
				return n
			}
			return ""
		}
		for i := 0; i < 3; i++ {
			n := pick()
			mode := h.r.Intn(2)
			h.evalCase("a failing template makes the save fail", fmt.Sprintf("%s; template file %s fails (open: %v)", in, n, mode == 0), true, func() string {
				ffs.hit, ffs.open, ffs.read = false, "", ""
				if mode == 0 {
					ffs.open = n
				} else {
					ffs.read, ffs.at = n, h.r.Intn(50)
				}
				_, err := vSave(d)
				ffs.open, ffs.read = "", ""
				if err == nil {
					return fmt.Sprintf("the save reported success (fault reached: %v)", ffs.hit)
				}
				return ""
			})
		}
		h.evalCase("a missing template file makes the save fail", in, true, func() string {
			m := ffs.FS.(fstest.MapFS)
			n := pick()
			x := m[n]
			delete(m, n)
			_, err := vSave(d)
			m[n] = x
			if err == nil {
				return "the save reported success"
			}
			return ""
		})
	}
	h.evalCase("an element that cannot be encoded makes the save fail", in, true, func() string {
		old := d.Document.Body.Items
		d.Document.Body.Items = append(append([]interface{}{}, old...), make(chan int))
		_, err := vSave(d)
		d.Document.Body.Items = old
		if err == nil {
			return "the save reported success"
		}
		return ""
	})
}
