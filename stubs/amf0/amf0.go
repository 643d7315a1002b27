// Package amf0 stands in for github.com/WatchBeam/amf0, which is not available
// in this sandbox. It covers the part of the library that the RTMP packages
// use: AMF0 values, their decoding and their encoding.
package amf0

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
)

// AmfType is an AMF0 value.
type AmfType interface {
	Marker() byte
	// Encode writes the value with its marker.
	Encode(w io.Writer) (int, error)
	// Decode reads the value without its marker.
	Decode(r io.Reader) error
}

type (
	Number     float64
	Bool       bool
	String     string
	LongString string
	Null       struct{}
	Undefined  struct{}
	Object     struct{ *Paired }
	Array      struct{ *Paired }
	// Paired is an ordered list of names and values.
	Paired struct{ pairs []pair }
	pair   struct {
		key   string
		value AmfType
	}
)

const (
	NumberMarker     = 0x00
	BoolMarker       = 0x01
	StringMarker     = 0x02
	ObjectMarker     = 0x03
	NullMarker       = 0x05
	UndefinedMarker  = 0x06
	ArrayMarker      = 0x08
	ObjectEndMarker  = 0x09
	LongStringMarker = 0x0c
)

var (
	ErrMarker  = errors.New("amf0: unknown marker")
	ErrEnd     = errors.New("amf0: bad end of object")
	ErrLong    = errors.New("amf0: string too long")
	ErrHuge    = errors.New("amf0: string of a huge length")
	ErrNesting = errors.New("amf0: nested too deeply")
)

func NewNumber(f float64) *Number { v := Number(f); return &v }
func NewBool(b bool) *Bool        { v := Bool(b); return &v }
func NewString(s string) *String  { v := String(s); return &v }
func NewNull() *Null              { return new(Null) }
func NewPaired() *Paired          { return new(Paired) }
func NewObject() *Object          { return &Object{NewPaired()} }
func NewArray() *Array            { return &Array{NewPaired()} }

// Add appends a pair.
func (p *Paired) Add(key string, v AmfType) *Paired {
	p.pairs = append(p.pairs, pair{key, v})
	return p
}

// Get returns the value of a name.
func (p *Paired) Get(key string) (AmfType, error) {
	for _, q := range p.pairs {
		if q.key == key {
			return q.value, nil
		}
	}
	return nil, fmt.Errorf("amf0: no such key: %s", key)
}

// Size returns the number of pairs.
func (p *Paired) Size() int {
	if p == nil {
		return 0
	}
	return len(p.pairs)
}

// Pair returns the pair at an index.
func (p *Paired) Pair(i int) (string, AmfType) { return p.pairs[i].key, p.pairs[i].value }

func (*Number) Marker() byte     { return NumberMarker }
func (*Bool) Marker() byte       { return BoolMarker }
func (*String) Marker() byte     { return StringMarker }
func (*LongString) Marker() byte { return LongStringMarker }
func (*Null) Marker() byte       { return NullMarker }
func (*Undefined) Marker() byte  { return UndefinedMarker }
func (*Object) Marker() byte     { return ObjectMarker }
func (*Array) Marker() byte      { return ArrayMarker }

func (v *Number) Encode(w io.Writer) (int, error) {
	b := make([]byte, 9)
	binary.BigEndian.PutUint64(b[1:], math.Float64bits(float64(*v)))
	return w.Write(b)
}

func (v *Bool) Encode(w io.Writer) (int, error) {
	b := []byte{BoolMarker, 0}
	if *v {
		b[1] = 1
	}
	return w.Write(b)
}

func text(s string) ([]byte, error) {
	if len(s) > math.MaxUint16 {
		return nil, ErrLong
	}
	return append([]byte{byte(len(s) >> 8), byte(len(s))}, s...), nil
}

func (v *String) Encode(w io.Writer) (int, error) {
	b, err := text(string(*v))
	if err != nil {
		return 0, err
	}
	return w.Write(append([]byte{StringMarker}, b...))
}

func (v *LongString) Encode(w io.Writer) (int, error) {
	b := binary.BigEndian.AppendUint32([]byte{LongStringMarker}, uint32(len(*v)))
	return w.Write(append(b, *v...))
}

func (*Null) Encode(w io.Writer) (int, error)      { return w.Write([]byte{NullMarker}) }
func (*Undefined) Encode(w io.Writer) (int, error) { return w.Write([]byte{UndefinedMarker}) }

func (v *Object) Encode(w io.Writer) (int, error) {
	n, err := w.Write([]byte{ObjectMarker})
	if err != nil {
		return n, err
	}
	m, err := v.Paired.encode(w)
	return n + m, err
}

func (v *Array) Encode(w io.Writer) (int, error) {
	n, err := w.Write(binary.BigEndian.AppendUint32([]byte{ArrayMarker}, uint32(v.Paired.Size())))
	if err != nil {
		return n, err
	}
	m, err := v.Paired.encode(w)
	return n + m, err
}

func (p *Paired) encode(w io.Writer) (int, error) {
	total := 0
	for i := 0; i < p.Size(); i++ {
		key, err := text(p.pairs[i].key)
		if err != nil {
			return total, err
		}
		n, err := w.Write(key)
		total += n
		if err != nil {
			return total, err
		}
		n, err = p.pairs[i].value.Encode(w)
		total += n
		if err != nil {
			return total, err
		}
	}
	n, err := w.Write([]byte{0, 0, ObjectEndMarker})
	return total + n, err
}

func take(r io.Reader, n int) ([]byte, error) {
	b := make([]byte, n)
	if _, err := io.ReadFull(r, b); err != nil {
		return nil, err
	}
	return b, nil
}

func (v *Number) Decode(r io.Reader) error {
	b, err := take(r, 8)
	if err == nil {
		*v = Number(math.Float64frombits(binary.BigEndian.Uint64(b)))
	}
	return err
}

func (v *Bool) Decode(r io.Reader) error {
	b, err := take(r, 1)
	if err == nil {
		*v = b[0] != 0
	}
	return err
}

func (v *String) Decode(r io.Reader) error {
	b, err := take(r, 2)
	if err != nil {
		return err
	}
	if b, err = take(r, int(b[0])<<8|int(b[1])); err == nil {
		*v = String(b)
	}
	return err
}

func (v *LongString) Decode(r io.Reader) error {
	b, err := take(r, 4)
	if err != nil {
		return err
	}
	n := binary.BigEndian.Uint32(b)
	if n > 1<<24 {
		return ErrHuge
	}
	if b, err = take(r, int(n)); err == nil {
		*v = LongString(b)
	}
	return err
}

func (*Null) Decode(io.Reader) error      { return nil }
func (*Undefined) Decode(io.Reader) error { return nil }

func (v *Object) Decode(r io.Reader) error { return v.decode(r, 0) }

func (v *Object) decode(r io.Reader, depth int) error {
	p, err := pairs(r, depth)
	if err == nil {
		v.Paired = p
	}
	return err
}

func (v *Array) Decode(r io.Reader) error { return v.decode(r, 0) }

func (v *Array) decode(r io.Reader, depth int) error {
	if _, err := take(r, 4); err != nil {
		return err
	}
	p, err := pairs(r, depth)
	if err == nil {
		v.Paired = p
	}
	return err
}

func pairs(r io.Reader, depth int) (*Paired, error) {
	if depth > 64 {
		return nil, ErrNesting
	}
	p := NewPaired()
	for {
		var key String
		if err := key.Decode(r); err != nil {
			return nil, err
		}
		if key == "" {
			b, err := take(r, 1)
			if err != nil {
				return nil, err
			}
			if b[0] != ObjectEndMarker {
				return nil, ErrEnd
			}
			return p, nil
		}
		v, err := decode(r, depth+1)
		if err != nil {
			return nil, err
		}
		p.Add(string(key), v)
	}
}

// Decode reads one value.
func Decode(r io.Reader) (AmfType, error) { return decode(r, 0) }

func decode(r io.Reader, depth int) (AmfType, error) {
	b, err := take(r, 1)
	if err != nil {
		return nil, err
	}
	switch b[0] {
	case ObjectMarker:
		v := NewObject()
		return v, v.decode(r, depth)
	case ArrayMarker:
		v := NewArray()
		return v, v.decode(r, depth)
	}
	v := New(b[0])
	if v == nil {
		return nil, ErrMarker
	}
	return v, v.Decode(r)
}

// New returns an empty value for a marker, or nil.
func New(marker byte) AmfType {
	switch marker {
	case NumberMarker:
		return new(Number)
	case BoolMarker:
		return new(Bool)
	case StringMarker:
		return new(String)
	case LongStringMarker:
		return new(LongString)
	case NullMarker:
		return new(Null)
	case UndefinedMarker:
		return new(Undefined)
	case ObjectMarker:
		return NewObject()
	case ArrayMarker:
		return NewArray()
	}
	return nil
}
