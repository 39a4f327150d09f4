package docx

import (
	"encoding/xml"
	"fmt"
	"reflect"
	"testing"
)

func TestVerifC20(t *testing.T) {
	vRun(t, "C20", "pairs of runs with random properties: equal copies, copies with one changed field at any depth, unrelated ones, shared and missing properties; non-trivial: both have properties", func(h *vH) {
		for n := 0; h.more(n, 6000); n++ {
			vEqCase(h)
		}
	})
}

// vEqual compares values, ignoring the XML names kept from parsing.
func vEqual(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return vEqual(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if a.Type().Field(i).Name == "XMLName" {
				continue
			}
			if !vEqual(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.String:
		return a.String() == b.String()
	case reflect.Int, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	}
	return false
}

func vEqCase(h *vH) {
	mk := func() *RunProperties {
		p := &RunProperties{}
		v := reflect.ValueOf(p).Elem()
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).Name == "XMLName" || h.r.Intn(3) == 0 {
				continue
			}
			x := reflect.New(v.Field(i).Type().Elem())
			h.gen(x.Elem(), 2)
			v.Field(i).Set(x)
		}
		return p
	}
	p1 := mk()
	var p2 *RunProperties
	how := ""
	switch k := h.r.Intn(8); {
	case k == 0:
		p2, how = mk(), "unrelated"
	case k == 1:
		p2, how = p1, "shared"
	case k == 2:
		p2, how = nil, "second missing"
		if h.r.Intn(3) == 0 {
			p1 = nil
			how = "both missing"
		}
	case k == 3:
		p2, how = &RunProperties{}, "second empty"
		if h.r.Intn(2) == 0 {
			p1 = &RunProperties{}
			how = "both empty"
		}
	case k == 4:
		p2, how = vCloneOf(p1).(*RunProperties), "copy"
		vWalk(reflect.ValueOf(p2), func(x interface{}) { // names differ after parsing
			if f := reflect.ValueOf(x).Elem().FieldByName("XMLName"); f.IsValid() {
				f.Set(reflect.ValueOf(xml.Name{Space: XMLNS_W, Local: "x"}))
			}
		})
	default:
		p2, how = vCloneOf(p1).(*RunProperties), "copy with a change"
		v := reflect.ValueOf(p2).Elem()
		i := 1 + h.r.Intn(v.NumField()-1)
		f := v.Field(i)
		how += " in " + v.Type().Field(i).Name
		if f.IsNil() {
			f.Set(reflect.New(f.Type().Elem()))
		} else if h.r.Intn(4) == 0 {
			f.Set(reflect.Zero(f.Type()))
		} else if s := f.Elem(); s.NumField() > 1 {
			j := 1 + h.r.Intn(s.NumField()-1)
			how += "." + s.Type().Field(j).Name
			if s.Field(j).Kind() == reflect.String {
				s.Field(j).SetString(s.Field(j).String() + "x")
			} else if s.Field(j).Kind() == reflect.Ptr {
				s.Field(j).Set(reflect.Zero(s.Field(j).Type()))
			} else {
				s.Field(j).SetInt(s.Field(j).Int() + 1)
			}
		}
	}
	r1, r2 := &Run{RunProperties: p1, Children: []interface{}{&Text{Text: h.str()}}}, &Run{RunProperties: p2, InstrText: h.str()}
	if h.r.Intn(2) == 0 {
		r1, r2 = r2, r1
	}
	q1, q2 := r1.RunProperties, r2.RunProperties
	want := vEqual(reflect.ValueOf(q1), reflect.ValueOf(q2))
	in := fmt.Sprintf("%s: %s / %s", how, vDump(q1), vDump(q2))
	before := vDump(r1) + vDump(r2)
	h.evalCase("MergeSamePropRuns", in, p1 != nil && p2 != nil, func() string {
		if g := MergeSamePropRuns(r1, r2); g != want {
			return fmt.Sprintf("says %v", g)
		}
		if g := MergeSamePropRuns(r2, r1); g != want {
			return fmt.Sprintf("says %v the other way round", g)
		}
		if vDump(r1)+vDump(r2) != before {
			return "a run changed"
		}
		return ""
	})
	t := reflect.TypeOf(RunProperties{})
	var names []string
	for i := 1; i < t.NumField(); i++ {
		if h.r.Intn(5) == 0 {
			names = append(names, t.Field(i).Name)
		}
	}
	wantN := q1 == q2 || q1 != nil && q2 != nil
	if wantN && q1 != q2 {
		for _, n := range names {
			wantN = wantN && vEqual(reflect.ValueOf(q1).Elem().FieldByName(n), reflect.ValueOf(q2).Elem().FieldByName(n))
		}
	}
	h.evalCase("MergeSamePropRunsOf", fmt.Sprint(names, in), p1 != nil && p2 != nil && len(names) > 0, func() string {
		if g := MergeSamePropRunsOf(names...)(r1, r2); g != wantN {
			return fmt.Sprintf("says %v", g)
		}
		return ""
	})
	h.evalCase("missing runs", in, true, func() string {
		if MergeSamePropRuns(nil, r1) || MergeSamePropRuns(r1, nil) || MergeSamePropRunsOf(names...)(nil, r2) || MergeSamePropRunsOf(names...)(r2, nil) {
			return "a missing run is mergeable"
		}
		if !MergeAllRuns(r1, r2) {
			return "MergeAllRuns says no"
		}
		return ""
	})
}
