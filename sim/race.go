package sim

import (
	"fmt"
	"reflect"
	"runtime"
	"unsafe"
)

// vclock is a vector clock indexed by goroutine id.
type vclock []uint32

func (v vclock) clone() vclock { return append(vclock(nil), v...) }

func (v *vclock) tick(i int) {
	for len(*v) <= i {
		*v = append(*v, 0)
	}
	(*v)[i]++
}

func (v *vclock) join(o vclock) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}

func (v vclock) get(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

type access struct {
	g   *G
	clk uint32
	pc  uintptr
}

type shadowCell struct {
	w     access
	reads []access
}

var leafCache = map[reflect.Type][]uintptr{}

// leaves lists the offsets of the scalar fields of t (nil for one scalar).
func leaves(t reflect.Type) []uintptr {
	if l, ok := leafCache[t]; ok {
		return l
	}
	var out []uintptr
	var walk func(t reflect.Type, off uintptr)
	walk = func(t reflect.Type, off uintptr) {
		switch t.Kind() {
		case reflect.Struct:
			if t.PkgPath() == "verif/sim" {
				return // the simulator's own
			}
			for i := 0; i < t.NumField(); i++ {
				f := t.Field(i)
				walk(f.Type, off+f.Offset)
			}
		case reflect.Array:
			if t.Len() <= 32 {
				for i := 0; i < t.Len(); i++ {
					walk(t.Elem(), off+uintptr(i)*t.Elem().Size())
				}
			} else {
				out = append(out, off)
			}
		default:
			if t.Size() > 0 {
				out = append(out, off)
			}
		}
	}
	walk(t, 0)
	leafCache[t] = out
	return out
}

func (w *World) access(p unsafe.Pointer, t reflect.Type, write bool, pc uintptr) {
	if t.Kind() == reflect.Struct || t.Kind() == reflect.Array {
		if t.PkgPath() == "verif/sim" {
			return
		}
		for _, off := range leaves(t) {
			w.access1(unsafe.Pointer(uintptr(p)+off), write, pc)
		}
		return
	}
	w.access1(p, write, pc)
}

func (w *World) access1(p unsafe.Pointer, write bool, pc uintptr) {
	g := w.cur
	c := w.shadow[p]
	if c == nil {
		c = &shadowCell{}
		w.shadow[p] = c
	}
	bad := func(a access, kind string) {
		if w.Race == "" {
			now := "read"
			if write {
				now = "write"
			}
			w.Race = fmt.Sprintf("data race: %s at %s by goroutine %s, concurrent with %s at %s by goroutine %s",
				now, where(pc), g.name, kind, where(a.pc), a.g.name)
		}
	}
	if c.w.g != nil && c.w.g != g && c.w.clk > g.vc.get(c.w.g.id) {
		bad(c.w, "write")
	}
	if write {
		for _, a := range c.reads {
			if a.g != g && a.clk > g.vc.get(a.g.id) {
				bad(a, "read")
			}
		}
		c.reads = c.reads[:0]
		c.w = access{g, g.vc.get(g.id), pc}
	} else {
		for i := range c.reads {
			if c.reads[i].g == g {
				c.reads[i].clk = g.vc.get(g.id)
				c.reads[i].pc = pc
				return
			}
		}
		c.reads = append(c.reads, access{g, g.vc.get(g.id), pc})
	}
}

func where(pc uintptr) string {
	fr, _ := runtime.CallersFrames([]uintptr{pc}).Next()
	return fmt.Sprintf("%s (%s:%d)", fr.Function, fr.File, fr.Line)
}

func caller() uintptr {
	if !W.cfg.Places {
		return 0
	}
	var pcs [1]uintptr
	runtime.Callers(3, pcs[:])
	return pcs[0]
}

func racing() *World {
	w := W
	if w == nil || !w.cfg.Races || w.cur == nil || w.dying {
		return nil
	}
	return w
}

// R notes a read of *p and returns p.
func R[T any](p *T) *T {
	if w := racing(); w != nil {
		w.access(unsafe.Pointer(p), reflect.TypeFor[T](), false, caller())
	}
	return p
}

// Wr notes a write of *p and returns p.
func Wr[T any](p *T) *T {
	if w := racing(); w != nil {
		w.access(unsafe.Pointer(p), reflect.TypeFor[T](), true, caller())
	}
	return p
}

// MR notes a read of the map m and returns m.
func MR[K comparable, V any, M ~map[K]V](m M) M {
	if w := racing(); w != nil && m != nil {
		w.access1(*(*unsafe.Pointer)(unsafe.Pointer(&m)), false, caller())
	}
	return m
}

// MW notes a write of the map m and returns m.
func MW[K comparable, V any, M ~map[K]V](m M) M {
	if w := racing(); w != nil && m != nil {
		w.access1(*(*unsafe.Pointer)(unsafe.Pointer(&m)), true, caller())
	}
	return m
}

// acqRel makes an operation on an object acquire and release its clock.
func (w *World) acqRel(vc *vclock) {
	if w.cfg.Races && w.cur != nil {
		g := w.cur
		g.vc.join(*vc)
		vc.join(g.vc)
		g.vc.tick(g.id)
	}
}

func (w *World) acquire(vc vclock) {
	if w.cfg.Races && w.cur != nil {
		w.cur.vc.join(vc)
	}
}

func (w *World) release(vc *vclock) {
	if w.cfg.Races && w.cur != nil {
		vc.join(w.cur.vc)
		w.cur.vc.tick(w.cur.id)
	}
}

// Atomic wraps a function or method of sync/atomic: every atomic operation
// synchronises with every other.
func Atomic[F any](f F) F {
	if w := W; w != nil && w.cur != nil && !w.dying {
		w.acqRel(&w.atomVC)
	}
	return f
}
