package docx

import "reflect"

// vClone deep-copies modelled values (exported and unexported fields; *Docx is shared).
func vClone(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || v.Type() == reflect.TypeOf((*Docx)(nil)) {
			return v
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(v.Elem())
		vCloneFields(n.Elem())
		return n
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		n.Set(vClone(v.Elem()))
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(vClone(v.Index(i)))
		}
		return n
	case reflect.Struct:
		n := reflect.New(v.Type()).Elem()
		n.Set(v)
		vCloneFields(n)
		return n
	}
	return v
}

func vCloneFields(s reflect.Value) {
	if s.Kind() != reflect.Struct {
		return
	}
	for i := 0; i < s.NumField(); i++ {
		if s.Type().Field(i).PkgPath == "" {
			s.Field(i).Set(vClone(s.Field(i)))
		}
	}
}

func vCloneOf(x interface{}) interface{} { return vClone(reflect.ValueOf(x)).Interface() }
