// Package copystructure is an offline stand-in for github.com/mitchellh/copystructure.
package copystructure

import "reflect"

// Copy returns a deep copy of v.
func Copy(v interface{}) (interface{}, error) {
	if v == nil {
		return nil, nil
	}
	return cp(reflect.ValueOf(v)).Interface(), nil
}

func cp(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeMapWithSize(v.Type(), v.Len())
		for _, k := range v.MapKeys() {
			n.SetMapIndex(k, cp(v.MapIndex(k)))
		}
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(cp(v.Index(i)))
		}
		return n
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		n.Set(cp(v.Elem()))
		return n
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(cp(v.Elem()))
		return n
	}
	return v
}
