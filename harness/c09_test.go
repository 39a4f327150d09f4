package docx

import (
	"fmt"
	"reflect"
	"strings"
	"testing"
)

func TestVerifC09(t *testing.T) {
	vRun(t, "C09", "random strings over letters, spaces, tabs, line breaks, carriage returns and multi-byte characters added to random paragraphs; non-trivial: the string has a tab or a line break", func(h *vH) {
		fixed := []string{"", "\t", "\n", "\t\t", "\n\n", "\t\n", "\n\t", "a", "a\tb", "a\nb", "a\t\tb", "a\n\nb", "\ta", "a\t", "\na", "a\n", "a\r\nb", "\r", " ", " a ", "\v\f", "a\u2028b", "\x00", "a\tb\nc\td\n"}
		for n := 0; h.more(n, 3000); n++ {
			var s string
			if n < len(fixed) {
				s = fixed[n]
			} else {
				al := []string{"a", "b", " ", "\t", "\n", "\r", "é", "图", "\t", "\n", "xyz"}
				for i := h.r.Intn(12); i > 0; i-- {
					s += al[h.r.Intn(len(al))]
				}
			}
			vTextCase(h, s, h.r.Intn(2) == 0)
		}
	})
}

func vTextCase(h *vH, s string, parsed bool) {
	d := New().WithDefaultTheme()
	p := &Paragraph{}
	if parsed {
		h.gen(reflect.ValueOf(p).Elem(), h.r.Intn(6))
	} else {
		p = d.AddParagraph()
		if h.r.Intn(2) == 0 {
			p.AddText("before")
			p.AddLink("l", "t")
		}
	}
	check := func(o string, add func() *Run, want string) {
		before := append([]interface{}{}, p.Children...)
		dumps := vDump(p)
		old := vCloneOf(p).(*Paragraph)
		h.evalCase(o, fmt.Sprintf("%q on %s", s, dumps), strings.ContainsAny(s, "\t\n"), func() string {
			r := add()
			if r == nil {
				return "no run returned"
			}
			if len(p.Children) != len(before)+1 {
				return fmt.Sprintf("%d children, want %d", len(p.Children), len(before)+1)
			}
			for i, c := range before {
				if p.Children[i] != c {
					return fmt.Sprintf("child %d replaced", i)
				}
			}
			if p.Children[len(before)] != interface{}(r) {
				return "the last child is not the returned run"
			}
			for _, c := range before {
				if c == interface{}(r) {
					return "not a new run"
				}
			}
			old.Children = append(old.Children, r)
			if a, b := vDump(old), vDump(p); a != b {
				return vDiff(a, b)
			}
			got := ""
			for _, c := range r.Children {
				switch x := c.(type) {
				case *Text:
					if x.Text == "" {
						return "empty text piece"
					}
					if strings.ContainsAny(x.Text, "\t\n") {
						return fmt.Sprintf("text piece %q", x.Text)
					}
					got += x.Text
				case *Tab:
					got += "\t"
				case *BarterRabbet:
					if x.Type != "" {
						return "break of type " + x.Type
					}
					got += "\n"
				default:
					return fmt.Sprintf("child of type %T", c)
				}
			}
			if got != want {
				return fmt.Sprintf("spells %q, want %q", got, want)
			}
			return ""
		})
	}
	check("AddText", func() *Run { return p.AddText(s) }, s)
	check("Paragraph.AddTab", p.AddTab, "\t")
	// a run keeps what it has and gets a tab
	r := p.AddText(s)
	kids := append([]interface{}{}, r.Children...)
	h.evalCase("Run.AddTab", fmt.Sprintf("%q", s), true, func() string {
		q := r.AddTab()
		if q != r || len(r.Children) != len(kids)+1 {
			return fmt.Sprintf("%d children", len(r.Children))
		}
		for i := range kids {
			if r.Children[i] != kids[i] {
				return "child replaced"
			}
		}
		if _, ok := r.Children[len(kids)].(*Tab); !ok {
			return "no tab added"
		}
		return ""
	})
	if parsed || strings.Contains(s, "\x00") {
		return
	}
	h.evalCase("the text survives saving", fmt.Sprintf("%q", s), strings.ContainsAny(s, "\t\n"), func() string {
		want := p.String()
		b, err := vSave(d)
		if err != nil {
			return err.Error()
		}
		e, err := vOpen(b)
		if err != nil {
			return err.Error()
		}
		fix := func(s string) string { // carriage returns and characters XML cannot hold are not kept by XML itself
			return strings.NewReplacer("\v", "", "\f", "", "\uFFFD", "").Replace(s)
		}
		if got := e.Document.Body.Items[0].(*Paragraph).String(); fix(got) != fix(want) {
			return fmt.Sprintf("%q want %q", got, want)
		}
		return ""
	})
}
