package docx

import (
	"encoding/xml"
	"reflect"
	"regexp"
	"strings"
	"testing"
)

func TestVerifC03(t *testing.T) {
	vRun(t, "C03", "encodings of random trees of every modelled type with unknown elements (holding modelled names), unknown attributes, white space, comments and processing instructions inserted at random places; non-trivial: something was inserted", func(h *vH) {
		vAltCases(h)
		ts := vTypes()
		for n := 0; h.more(n, 9000); n++ {
			vForeignCase(h, ts[n%len(ts)])
			if n%4 == 0 {
				vForeignCase(h, reflect.TypeOf(Body{}))
			}
		}
	})
}

var vAttrVal = regexp.MustCompile(`="[^"]*"`)

// vSubtrees has the short elements below each kind of element.
func vSubtrees(ts []vTok) map[string][]string {
	r := map[string][]string{}
	var at []int
	for i, tk := range ts {
		switch tk.kind {
		case '<':
			at = append(at, i)
		case 'e', '/':
			b := i
			if tk.kind == '/' && len(at) > 0 {
				b = at[len(at)-1]
				at = at[:len(at)-1]
			}
			if len(at) > 0 && i-b < 20 {
				l := vLocal(ts[at[len(at)-1]].s)
				if len(r[l]) < 20 {
					r[l] = append(r[l], vJoin(ts[b:i+1]))
				}
			}
		}
	}
	return r
}

// elements whose character data is content
var vTextual = map[string]bool{"t": true, "instrText": true, "posOffset": true, "pctWidth": true, "pctHeight": true, "align": true}

func vLocal(tag string) string {
	s := strings.Trim(tag, "</>")
	if i := strings.IndexAny(s, " /"); i >= 0 {
		s = s[:i]
	}
	return s[strings.IndexByte(s, ':')+1:]
}

func (h *vH) foreign(space bool) string {
	kinds := []string{
		"<x:foreign/>",
		"<x:foreign a=\"1\">text</x:foreign>",
		"<x:foreign><w:p><w:r><w:t>no</w:t></w:r></w:p></x:foreign>",
		"<x:foreign><x:foreign></x:foreign><w:t>no</w:t><w:tab/></x:foreign>",
		"<x:foreign><w:rPr><w:b/></w:rPr><a:ext cx=\"1\" cy=\"2\"/><w:jc w:val=\"no\"/></x:foreign>",
		"<x:foreign><mc:Choice Requires=\"wps\"><w:t>no</w:t></mc:Choice><w:drawing/></x:foreign>",
		"<x:bookmarkStart w:id=\"0\" w:name=\"rId1\"/>",
		"<!-- comment <w:t>no</w:t> -->",
		"<?pi <w:t>no</w:t>?>",
	}
	ws := []string{"\n", "  ", "\t\n "}
	if space && h.r.Intn(3) == 0 {
		return ws[h.r.Intn(len(ws))]
	}
	return kinds[h.r.Intn(len(kinds))]
}

func vForeignCase(h *vH, t reflect.Type) {
	x, ok := h.encode(t, 2+h.r.Intn(9))
	if !ok || len(x) > 60000 {
		return
	}
	want := reflect.New(t)
	if err := xml.Unmarshal([]byte(x), want.Interface()); err != nil {
		return // left to C01
	}
	ts := vScan(x)
	var out []vTok
	var stack []string
	ins := 0
	rate := 1 + h.r.Intn(8)
	subs := vSubtrees(ts)
	raw := 0 // inside an element kept verbatim
	for i, tk := range ts {
		in := ""
		if len(stack) > 0 {
			in = stack[len(stack)-1]
		}
		if i > 0 && len(stack) > 0 && raw == 0 && h.r.Intn(rate) == 0 {
			f := h.foreign(!vTextual[in])
			if ss := subs[in]; len(ss) > 0 && h.r.Intn(3) == 0 {
				f = "<x:foreign>" + vAttrVal.ReplaceAllString(ss[h.r.Intn(len(ss))], "=\"7\"") + "</x:foreign>"
			}
			if !(vTextual[in] && in != "t" && in != "instrText") {
				out = append(out, vTok{f, '?'})
				ins++
			}
		}
		switch tk.kind {
		case '<', 'e':
			l := vLocal(tk.s)
			if h.r.Intn(rate) == 0 && raw == 0 {
				at := []string{" x:foreign=\"1\"", " rsidR=\"00\"", " x:unknown=\"abc\""}[h.r.Intn(3)]
				// an unknown attribute comes first, in the middle or last
				p := strings.IndexAny(tk.s, " >/")
				if h.r.Intn(2) == 0 {
					p = len(tk.s) - 1
					if tk.kind == 'e' {
						p--
					}
				}
				tk.s = tk.s[:p] + at + tk.s[p:]
				ins++
			}
			if tk.kind == '<' {
				stack = append(stack, l)
				if vRawKept[l] {
					raw++
				}
			}
		case '/':
			if n := len(stack); n > 0 {
				if vRawKept[stack[n-1]] {
					raw--
				}
				stack = stack[:n-1]
			}
		}
		out = append(out, tk)
	}
	y := vJoin(out)
	h.evalCase("unknown markup in "+t.Name(), y, ins > 0, func() string {
		got := reflect.New(t)
		if err := xml.Unmarshal([]byte(y), got.Interface()); err != nil {
			return "error: " + err.Error()
		}
		if a, b := vDump(want.Interface()), vDump(got.Interface()); a != b {
			return vDiff(a, b)
		}
		return ""
	})
}

// elements whose inner markup is kept as it is
var vRawKept = map[string]bool{}

func vAltCases(h *vH) {
	dr := "<w:drawing><wp:inline distT=\"5\"><wp:extent cx=\"1\" cy=\"2\"/></wp:inline></w:drawing>"
	plain := "<w:r>" + "<w:t>a</w:t>" + dr + "<w:t>b</w:t></w:r>"
	var want Run
	if err := xml.Unmarshal([]byte(plain), &want); err != nil {
		h.fail("plain", plain, err.Error())
		return
	}
	fb := "<mc:Fallback><w:pict><w:t>no</w:t></w:pict></mc:Fallback>"
	for _, req := range []string{"wps", "wpc", "wpg"} {
		for _, s := range []string{"", "\n ", "<!--c-->", "<?p?>", "<x:foreign><w:t>no</w:t></x:foreign>"} {
			for _, alt := range []string{
				"<mc:AlternateContent>" + s + "<mc:Choice Requires=\"" + req + "\">" + s + dr + s + "</mc:Choice>" + s + fb + s + "</mc:AlternateContent>",
				"<mc:AlternateContent>" + s + "<mc:Choice Requires=\"zz\"><w:t>no</w:t></mc:Choice>" + s + "<mc:Choice x=\"1\" Requires=\"" + req + "\">" + s + dr + "</mc:Choice>" + fb + "</mc:AlternateContent>",
				"<mc:AlternateContent>" + s + "<mc:Choice Requires=\"" + req + "\">" + s + dr + "</mc:Choice><mc:Choice Requires=\"wps\"><w:t>no</w:t></mc:Choice></mc:AlternateContent>",
			} {
				x := "<w:r>" + s + "<w:t>a</w:t>" + alt + s + "<w:t>b</w:t></w:r>"
				h.evalCase("alternative content", x, true, func() string {
					var r Run
					if err := xml.Unmarshal([]byte(x), &r); err != nil {
						return err.Error()
					}
					if a, b := vDump(&want), vDump(&r); a != b {
						return vDiff(a, b)
					}
					return ""
				})
			}
		}
	}
	// no supported choice: the element adds nothing
	for _, alt := range []string{
		"<mc:AlternateContent><mc:Choice Requires=\"zz\">" + dr + "</mc:Choice>" + fb + "</mc:AlternateContent>",
		"<mc:AlternateContent/>", "<mc:AlternateContent>" + fb + "</mc:AlternateContent>",
		"<mc:AlternateContent><mc:Choice>" + dr + "</mc:Choice></mc:AlternateContent>",
		"<mc:AlternateContent><mc:Choice Requires=\"wps\"/>" + fb + "</mc:AlternateContent>",
		"<mc:AlternateContent><mc:Choice Requires=\"wps\"> </mc:Choice>" + fb + "</mc:AlternateContent>",
	} {
		x := "<w:body><w:p><w:r><w:t>a</w:t>" + alt + "<w:t>b</w:t></w:r><w:r><w:t>c</w:t></w:r></w:p><w:p/></w:body>"
		y := "<w:body><w:p><w:r><w:t>a</w:t><w:t>b</w:t></w:r><w:r><w:t>c</w:t></w:r></w:p><w:p/></w:body>"
		h.evalCase("unsupported alternative content", x, true, func() string {
			var a, b Body
			if err := xml.Unmarshal([]byte(y), &a); err != nil {
				return err.Error()
			}
			if err := xml.Unmarshal([]byte(x), &b); err != nil {
				return err.Error()
			}
			if p, q := vDump(&a), vDump(&b); p != q {
				return vDiff(p, q)
			}
			return ""
		})
	}
}
