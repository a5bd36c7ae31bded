package h

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
)

// AnyTree describes any Go value; widths are dropped. Maps are sorted by their keys' text.
func AnyTree(v interface{}) Tree {
	if v == nil {
		return Tree{"n"}
	}
	return valTree(reflect.ValueOf(v))
}

func valTree(r reflect.Value) Tree {
	switch r.Kind() {
	case reflect.Invalid:
		return Tree{"n"}
	case reflect.Bool:
		return Tree{"b", r.Bool()}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return Tree{"i", strconv.FormatInt(r.Int(), 10)}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return Tree{"u", strconv.FormatUint(r.Uint(), 10)}
	case reflect.Float32, reflect.Float64:
		return Tree{"f", FloatBits(r.Float())}
	case reflect.String:
		return Tree{"s", StrText(r.String())}
	case reflect.Interface:
		if r.IsNil() {
			return Tree{"n"}
		}
		return valTree(r.Elem())
	case reflect.Ptr:
		if r.IsNil() {
			return Tree{"n"}
		}
		return Tree{"p", fmt.Sprintf("%p", r.Interface())}
	case reflect.Slice, reflect.Array:
		l := []interface{}{}
		for i := 0; i < r.Len(); i++ {
			l = append(l, valTree(r.Index(i)))
		}
		return Tree{"a", l}
	case reflect.Map:
		l := []interface{}{}
		for _, k := range r.MapKeys() {
			l = append(l, []interface{}{valTree(k), valTree(r.MapIndex(k))})
		}
		sort.Slice(l, func(i, j int) bool { return fmt.Sprint(l[i]) < fmt.Sprint(l[j]) })
		return Tree{"m", l}
	case reflect.Struct:
		l := []interface{}{}
		for i := 0; i < r.NumField(); i++ {
			l = append(l, valTree(r.Field(i)))
		}
		return Tree{"st", l}
	}
	return Tree{"?", r.Type().String()}
}

// AnyTrees describes all values.
func AnyTrees(vs []interface{}) []interface{} {
	l := []interface{}{}
	for _, v := range vs {
		l = append(l, AnyTree(v))
	}
	return l
}
