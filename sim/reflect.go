package sim

import "reflect"

// ReflectSelect stands in for reflect.Select.
func ReflectSelect(cases []reflect.SelectCase) (int, reflect.Value, bool) {
	w := need()
	wt := &wait{}
	var index []int
	dflt := -1
	for i, c := range cases {
		k := waitCase{w: wt}
		switch c.Dir {
		case reflect.SelectDefault:
			dflt = i
			continue
		case reflect.SelectSend:
			k.send, k.ok = true, true
			if c.Chan.IsValid() {
				k.c = w.chanOf(c.Chan.UnsafePointer(), c.Chan.Cap())
				v := reflect.New(c.Chan.Type().Elem()).Elem()
				v.Set(c.Send)
				k.v = v.Interface()
			}
		default:
			if c.Chan.IsValid() {
				k.c = w.chanOf(c.Chan.UnsafePointer(), c.Chan.Cap())
				ch := c.Chan
				k.poll = func() (any, bool, bool) {
					v, ok := ch.TryRecv()
					if !v.IsValid() {
						return nil, false, false
					}
					return v.Interface(), ok, true
				}
			}
		}
		wt.cases = append(wt.cases, k)
		index = append(index, i)
	}
	i := w.exec(wt, dflt >= 0)
	if i < 0 {
		return dflt, reflect.Value{}, false
	}
	c, k := cases[index[i]], &wt.cases[i]
	if k.send {
		return index[i], reflect.Value{}, false
	}
	v := reflect.New(c.Chan.Type().Elem()).Elem()
	if k.v != nil {
		v.Set(reflect.ValueOf(k.v))
	}
	return index[i], v, k.ok
}
