package sim

import (
	"fmt"
	"iter"
	"reflect"
	"strings"
)

// structural renders a value by content, following pointers, so that keys
// sort the same way in every process.
func structural(v any) string {
	var b strings.Builder
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		if depth > 8 || !v.IsValid() {
			b.WriteString("?")
			return
		}
		switch v.Kind() {
		case reflect.Pointer, reflect.Interface:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			b.WriteString(v.Elem().Type().String())
			walk(v.Elem(), depth+1)
		case reflect.Struct:
			b.WriteString("{")
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), depth+1)
				b.WriteString(",")
			}
			b.WriteString("}")
		case reflect.Slice, reflect.Array:
			b.WriteString("[")
			for i := 0; i < v.Len() && i < 64; i++ {
				walk(v.Index(i), depth+1)
				b.WriteString(",")
			}
			b.WriteString("]")
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			fmt.Fprintf(&b, "%020d", uint64(v.Int())+1<<63)
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			fmt.Fprintf(&b, "%020d", v.Uint())
		case reflect.String:
			b.WriteString(v.String())
		case reflect.Bool:
			fmt.Fprint(&b, v.Bool())
		case reflect.Float32, reflect.Float64:
			fmt.Fprint(&b, v.Float())
		case reflect.Chan, reflect.Func, reflect.Map, reflect.UnsafePointer:
			b.WriteString(v.Type().String())
		default:
			b.WriteString(v.Kind().String())
		}
	}
	walk(reflect.ValueOf(v), 0)
	return b.String()
}

// RangeMap performs for k, v := range m in an order the run decides.
func RangeMap[K comparable, V any, M ~map[K]V](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		ks := sortedKeys(map[K]V(m))
		if w := W; w != nil && !w.dying && len(ks) > 1 {
			// Start anywhere, and sometimes shuffle.
			if w.Src.Chance(0.5) {
				for i := len(ks) - 1; i > 0; i-- {
					j := i - w.Src.Intn(i+1)
					ks[i], ks[j] = ks[j], ks[i]
				}
			}
		}
		for _, k := range ks {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// RangeKeys performs for k := range m.
func RangeKeys[K comparable, V any, M ~map[K]V](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range RangeMap[K, V](m) {
			if !yield(k) {
				return
			}
		}
	}
}

// RangeValues replaces maps.Values.
func RangeValues[K comparable, V any, M ~map[K]V](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range RangeMap[K, V](m) {
			if !yield(v) {
				return
			}
		}
	}
}
