package docx

import (
	"encoding/xml"
	"reflect"
	"sort"
	"strings"
)

// vTypes lists every modelled element type (everything reachable from a document), by name.
func vTypes() []reflect.Type {
	seen := map[reflect.Type]bool{}
	var out []reflect.Type
	var visit func(t reflect.Type)
	visit = func(t reflect.Type) {
		switch t.Kind() {
		case reflect.Ptr, reflect.Slice:
			visit(t.Elem())
		case reflect.Struct:
			if seen[t] || t == reflect.TypeOf(Docx{}) || t == reflect.TypeOf(xml.Name{}) {
				return
			}
			seen[t] = true
			if t.Name() != "" {
				out = append(out, t)
			}
			for i := 0; i < t.NumField(); i++ {
				f := t.Field(i)
				if f.PkgPath != "" {
					continue
				}
				for _, k := range vKids[t.Name()+"."+f.Name] {
					visit(reflect.TypeOf(k))
				}
				visit(f.Type)
			}
		}
	}
	visit(reflect.TypeOf(Document{}))
	visit(reflect.TypeOf(Relationships{}))
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

// vTok is a piece of markup: a tag, or the text between tags.
type vTok struct {
	s    string
	kind byte // '<' start, '/' end, 'e' empty element, 't' text, '?' other
}

// vScan cuts encoder output (no comments, no raw '>' in values) into pieces.
func vScan(x string) []vTok {
	var r []vTok
	for len(x) > 0 {
		if x[0] != '<' {
			i := strings.IndexByte(x, '<')
			if i < 0 {
				i = len(x)
			}
			r = append(r, vTok{x[:i], 't'})
			x = x[i:]
			continue
		}
		i := strings.IndexByte(x, '>')
		if i < 0 {
			return append(r, vTok{x, '?'})
		}
		t := vTok{x[:i+1], '<'}
		switch {
		case strings.HasPrefix(t.s, "</"):
			t.kind = '/'
		case strings.HasSuffix(t.s, "/>"):
			t.kind = 'e'
		case t.s[1] == '?' || t.s[1] == '!':
			t.kind = '?'
		}
		r = append(r, t)
		x = x[i+1:]
	}
	return r
}

func vJoin(ts []vTok) string {
	var sb strings.Builder
	for _, t := range ts {
		sb.WriteString(t.s)
	}
	return sb.String()
}

// vEncode gives the encoding of a random value of the type under its own element.
func (h *vH) encode(t reflect.Type, depth int) (string, bool) {
	v := reflect.New(t)
	h.gen(v.Elem(), depth)
	b, err := xml.Marshal(v.Interface())
	if err != nil {
		return "", false
	}
	return string(b), true
}
