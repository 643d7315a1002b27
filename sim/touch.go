package sim

import (
	"bufio"
	"bytes"
	"container/list"
	"io"
	"math/rand"
	rand2 "math/rand/v2"
	"strings"
	"unsafe"
)

// stdObject is the address that stands for an object of the standard library
// that only one goroutine may use at a time.
func stdObject(x any) unsafe.Pointer {
	switch v := x.(type) {
	case *bytes.Buffer:
		return unsafe.Pointer(v)
	case *bytes.Reader:
		return unsafe.Pointer(v)
	case *strings.Builder:
		return unsafe.Pointer(v)
	case *strings.Reader:
		return unsafe.Pointer(v)
	case *bufio.Reader:
		return unsafe.Pointer(v)
	case *bufio.Writer:
		return unsafe.Pointer(v)
	case *bufio.ReadWriter:
		return unsafe.Pointer(v)
	case *bufio.Scanner:
		return unsafe.Pointer(v)
	case *list.List:
		return unsafe.Pointer(v)
	case *rand.Rand:
		return unsafe.Pointer(v)
	case *rand2.Rand:
		return unsafe.Pointer(v)
	case *io.LimitedReader:
		return unsafe.Pointer(v)
	}
	return nil
}

// Touch notes that a library object is worked on and returns it.
func Touch[T any](x T, write bool) T {
	if w := racing(); w != nil {
		if p := stdObject(x); p != nil {
			w.access1(p, write, caller())
		}
	}
	return x
}

func (w *World) bytes(b []byte, write bool, pc uintptr) {
	for i := 0; i < len(b); i++ {
		w.access1(unsafe.Pointer(&b[i]), write, pc)
		if i >= 8 && i+64 < len(b) {
			i += 63
		} else if i >= 8 && i < len(b)-2 {
			i = len(b) - 2
		}
	}
}

// Bytes notes an access to the bytes of b and returns it.
func Bytes[S ~[]byte](b S, write bool) S {
	if w := racing(); w != nil {
		w.bytes(b, write, caller())
	}
	return b
}

// Append is append(dst, src...), which reads src and may write behind dst.
func Append[S ~[]byte, B ~[]byte | ~string](dst S, src B) S {
	if w := racing(); w != nil {
		if b, ok := any(src).([]byte); ok {
			w.bytes(b, false, caller())
		}
		if n := len(dst) + len(src); n <= cap(dst) {
			w.bytes(dst[len(dst):n], true, caller())
		} else {
			w.bytes(dst, false, caller())
		}
	}
	return append(dst, src...)
}
