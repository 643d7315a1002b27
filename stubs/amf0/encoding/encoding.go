// Package encoding reads and writes structs as sequences of AMF0 values, one
// for each field.
package encoding

import (
	"bytes"
	"fmt"
	"io"
	"reflect"

	"github.com/WatchBeam/amf0"
)

// Marshal returns the fields of the struct that t points to.
func Marshal(t interface{}) ([]byte, error) {
	buf := new(bytes.Buffer)
	v := reflect.ValueOf(t).Elem()
	for i := 0; i < v.NumField(); i++ {
		value, err := wrap(v.Field(i))
		if err != nil {
			return nil, err
		}
		if _, err = value.Encode(buf); err != nil {
			return nil, err
		}
	}
	return buf.Bytes(), nil
}

func wrap(f reflect.Value) (amf0.AmfType, error) {
	switch f.Kind() {
	case reflect.Float64:
		return amf0.NewNumber(f.Float()), nil
	case reflect.Bool:
		return amf0.NewBool(f.Bool()), nil
	case reflect.String:
		return amf0.NewString(f.String()), nil
	case reflect.Ptr:
		if f.IsNil() {
			return amf0.NewNull(), nil
		}
		if f.CanInterface() {
			if v, ok := f.Interface().(amf0.AmfType); ok {
				return v, nil
			}
		}
	case reflect.Struct:
		if f.CanInterface() {
			switch v := f.Interface().(type) {
			case amf0.Object:
				return &v, nil
			case amf0.Array:
				return &v, nil
			}
		}
	}
	return nil, fmt.Errorf("amf0/encoding: cannot marshal %v", f.Type())
}

// Unmarshal fills the fields of the struct that t points to. A null leaves its
// field as it is.
func Unmarshal(r io.Reader, t interface{}) error {
	v := reflect.ValueOf(t).Elem()
	for i := 0; i < v.NumField(); i++ {
		value, err := amf0.Decode(r)
		if err != nil {
			return err
		}
		if err = assign(v.Field(i), value); err != nil {
			return err
		}
	}
	return nil
}

func assign(f reflect.Value, value amf0.AmfType) error {
	if value.Marker() == amf0.NullMarker || !f.CanSet() {
		return nil
	}
	switch v := value.(type) {
	case *amf0.Number:
		if f.Kind() == reflect.Float64 {
			f.SetFloat(float64(*v))
			return nil
		}
	case *amf0.Bool:
		if f.Kind() == reflect.Bool {
			f.SetBool(bool(*v))
			return nil
		}
	case *amf0.String:
		if f.Kind() == reflect.String {
			f.SetString(string(*v))
			return nil
		}
	}
	if w := reflect.ValueOf(value); w.Type() == f.Type() {
		f.Set(w)
		return nil
	} else if w.Elem().Type() == f.Type() {
		f.Set(w.Elem())
		return nil
	}
	return fmt.Errorf("amf0/encoding: cannot put %T into %v", value, f.Type())
}
