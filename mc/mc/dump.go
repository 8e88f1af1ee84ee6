package mc

import (
	"fmt"
	"reflect"
	"strconv"
)

// Dump writes everything reachable from v through exported fields, one path per
// leaf; zero values are left out, so two values with equal dumps are equal to
// any observer (up to nil versus empty slices).
func Dump(v any) string {
	b := make([]byte, 0, 512)
	return string(dump(b, "", reflect.ValueOf(v)))
}

func dump(b []byte, path string, v reflect.Value) []byte {
	switch v.Kind() {
	case reflect.Invalid:
		return b
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			return b
		}
		if v.Kind() == reflect.Interface {
			path += "(" + v.Elem().Type().String() + ")"
		}
		b = append(append(b, path...), "!\n"...)
		return dump(b, path, v.Elem())
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < v.NumField(); i++ {
			if t.Field(i).IsExported() {
				if f := v.Field(i); !f.IsZero() {
					b = dump(b, path+"."+t.Field(i).Name, f)
				}
			}
		}
		return b
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			if v.Len() == 0 {
				return b
			}
			b = append(append(b, path...), '=')
			for i := 0; i < v.Len(); i++ {
				b = strconv.AppendUint(append(b, ' '), v.Index(i).Uint(), 16)
			}
			return append(b, '\n')
		}
		for i := 0; i < v.Len(); i++ {
			b = dump(b, path+"["+strconv.Itoa(i)+"]", v.Index(i))
		}
		return append(append(append(b, path...), "#"+strconv.Itoa(v.Len())...), '\n')
	case reflect.String:
		b = append(append(b, path...), '=')
		return append(strconv.AppendQuote(b, v.String()), '\n')
	default:
		b = append(append(b, path...), '=')
		return append(append(b, fmt.Sprint(v)...), '\n')
	}
}
