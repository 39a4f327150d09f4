package docx

import (
	"reflect"
)

// kids lists, per container type, the element types its dynamic child list may hold.
var vKids = map[string][]interface{}{
	"Body.Items":                 {&Paragraph{}, &Table{}, &SectPr{}},
	"Paragraph.Children":         {&Run{}, &Run{}, &Hyperlink{}, &RunProperties{}},
	"Run.Children":               {&Text{}, &Text{}, &Tab{}, &BarterRabbet{}, &Drawing{}},
	"WordprocessingCanvas.Items": {&WordprocessingShape{}, &Picture{}, &WordprocessingGroup{}},
	"WordprocessingGroup.Elems":  {&Picture{}, &WordprocessingShape{}, &WordprocessingCanvas{}, &WPGGroupShape{}},
	"WPGGroupShape.Elems":        {&Picture{}, &WordprocessingShape{}, &WordprocessingCanvas{}},
}

// vGen fills v with a random document fragment of its type.
func (h *vH) gen(v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Ptr:
		if depth <= 0 || h.r.Intn(3) == 0 {
			return
		}
		n := reflect.New(v.Type().Elem())
		h.gen(n.Elem(), depth-1)
		v.Set(n)
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" || f.Name == "XMLName" {
				continue
			}
			if ks, ok := vKids[t.Name()+"."+f.Name]; ok {
				n := h.r.Intn(4)
				if depth <= 0 {
					n = 0
				}
				s := reflect.MakeSlice(f.Type, 0, n)
				for j := 0; j < n; j++ {
					k := reflect.New(reflect.TypeOf(ks[h.r.Intn(len(ks))]).Elem())
					if _, ok := k.Interface().(*Tab); !ok { // a tab character carries no attributes
						h.gen(k.Elem(), depth-1)
					}
					s = reflect.Append(s, k)
				}
				if n > 0 {
					v.Field(i).Set(s)
				}
				continue
			}
			if t.Name() == "WTableLook" && f.Name != "Val" {
				v.Field(i).SetInt(int64(h.r.Intn(2))) // on/off flags
				continue
			}
			h.gen(v.Field(i), depth-1)
		}
	case reflect.Slice:
		n := h.r.Intn(4)
		if depth <= 0 {
			n = 0
		}
		s := reflect.MakeSlice(v.Type(), 0, n)
		for j := 0; j < n; j++ {
			e := reflect.New(v.Type().Elem()).Elem()
			if e.Kind() == reflect.Ptr {
				k := reflect.New(e.Type().Elem())
				h.gen(k.Elem(), depth-1)
				e.Set(k)
			} else {
				h.gen(e, depth-1)
			}
			s = reflect.Append(s, e)
		}
		if n > 0 {
			v.Set(s)
		}
	case reflect.String:
		v.SetString(h.str())
	case reflect.Int, reflect.Int64:
		v.SetInt(h.int64())
	case reflect.Bool:
		v.SetBool(h.r.Intn(2) == 0)
	}
}
