package ref

import (
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"strings"
)

// AMF0 values are float64, bool, string, Long, nil, Undefined, *Obj.

// Long is a string with the long encoding.
type Long string

// Undefined is the undefined value.
type Undefined struct{}

// Obj is an ordered object or array.
type Obj struct {
	Array bool
	Keys  []string
	Vals  []any
}

// Set appends a pair.
func (o *Obj) Set(k string, v any) *Obj {
	o.Keys, o.Vals = append(o.Keys, k), append(o.Vals, v)
	return o
}

// AMF appends the encoding of values.
func AMF(b []byte, vs ...any) []byte {
	for _, v := range vs {
		switch v := v.(type) {
		case float64:
			b = binary.BigEndian.AppendUint64(append(b, 0), math.Float64bits(v))
		case bool:
			b = append(b, 1, 0)
			if v {
				b[len(b)-1] = 1
			}
		case string:
			b = append(append(b, 2, byte(len(v)>>8), byte(len(v))), v...)
		case nil:
			b = append(b, 5)
		case *Obj:
			if v.Array {
				b = binary.BigEndian.AppendUint32(append(b, 8), uint32(len(v.Keys)))
			} else {
				b = append(b, 3)
			}
			for i, k := range v.Keys {
				b = append(append(b, byte(len(k)>>8), byte(len(k))), k...)
				b = AMF(b, v.Vals[i])
			}
			b = append(b, 0, 0, 9)
		default:
			panic(fmt.Sprintf("ref: no AMF0 for %T", v))
		}
	}
	return b
}

var errAMF = errors.New("ref: malformed AMF0")

// UnAMF reads one value. It returns the rest.
func UnAMF(b []byte) (any, []byte, error) {
	if len(b) == 0 {
		return nil, nil, errAMF
	}
	m, b := b[0], b[1:]
	need := func(n int) bool { return len(b) >= n }
	switch m {
	case 0:
		if !need(8) {
			return nil, nil, errAMF
		}
		return math.Float64frombits(binary.BigEndian.Uint64(b)), b[8:], nil
	case 1:
		if !need(1) {
			return nil, nil, errAMF
		}
		return b[0] != 0, b[1:], nil
	case 2:
		if !need(2) || !need(2+int(b[0])<<8+int(b[1])) {
			return nil, nil, errAMF
		}
		n := 2 + int(b[0])<<8 + int(b[1])
		return string(b[2:n]), b[n:], nil
	case 12:
		if !need(4) || len(b)-4 < int(binary.BigEndian.Uint32(b)) {
			return nil, nil, errAMF
		}
		n := 4 + int(binary.BigEndian.Uint32(b))
		return Long(b[4:n]), b[n:], nil
	case 5:
		return nil, b, nil
	case 6:
		return Undefined{}, b, nil
	case 3, 8:
		o := &Obj{Array: m == 8}
		if o.Array {
			if !need(4) {
				return nil, nil, errAMF
			}
			b = b[4:]
		}
		for {
			if !need(2) || !need(2+int(b[0])<<8+int(b[1])) {
				return nil, nil, errAMF
			}
			n := 2 + int(b[0])<<8 + int(b[1])
			k := string(b[2:n])
			b = b[n:]
			if k == "" {
				if !need(1) || b[0] != 9 {
					return nil, nil, errAMF
				}
				return o, b[1:], nil
			}
			v, rest, err := UnAMF(b)
			if err != nil {
				return nil, nil, err
			}
			o.Set(k, v)
			b = rest
		}
	}
	return nil, nil, errAMF
}

// quote quotes s, or what tells it from others if it is long.
func quote(s string) string {
	if len(s) < 300 {
		return fmt.Sprintf("%q", s)
	}
	return fmt.Sprintf("%q... (%d bytes, hash %x)", s[:20], len(s), sha256.Sum256([]byte(s)))
}

// Show writes a value out.
func Show(v any) string {
	switch v := v.(type) {
	case nil:
		return "null"
	case string:
		return quote(v)
	case Long:
		return "long " + quote(string(v))
	case Undefined:
		return "undefined"
	case *Obj:
		var s []string
		for i, k := range v.Keys {
			s = append(s, fmt.Sprintf("%q:%s", k, Show(v.Vals[i])))
		}
		if v.Array {
			return "[" + strings.Join(s, " ") + "]"
		}
		return "{" + strings.Join(s, " ") + "}"
	}
	return fmt.Sprint(v)
}
