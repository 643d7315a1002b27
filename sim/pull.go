package sim

import "iter"

type pulled[V any] struct {
	v  V
	ok bool
}

// Pull replaces iter.Pull: the sequence runs in a simulated goroutine of its
// own, which takes turns with its user.
func Pull[V any](seq iter.Seq[V]) (next func() (V, bool), stop func()) {
	w := W
	if w == nil || w.cur == nil {
		return iter.Pull(seq)
	}
	ask, give := make(chan bool), make(chan pulled[V])
	started, done := false, false
	var failed any
	turn := func(more bool) (V, bool) {
		var none V
		if done {
			return none, false
		}
		if !started {
			if !more {
				done = true
				return none, false
			}
			started = true
			w.spawn("sequence of "+w.cur.name, func() {
				defer func() {
					if e := recover(); e != nil {
						if _, is := e.(kill); is {
							panic(e)
						}
						failed = e
					}
					done = true
					if !w.dying {
						To(give).Send(pulled[V]{})
					}
				}()
				if !Recv((<-chan bool)(ask)) {
					return
				}
				seq(func(v V) bool {
					To(give).Send(pulled[V]{v, true})
					return Recv((<-chan bool)(ask))
				})
			}, false)
		}
		To(ask).Send(more)
		p := Recv((<-chan pulled[V])(give))
		if e := failed; e != nil {
			failed = nil
			panic(e)
		}
		return p.v, p.ok
	}
	return func() (V, bool) { return turn(true) }, func() { turn(false) }
}

// Pull2 replaces iter.Pull2.
func Pull2[K, V any](seq iter.Seq2[K, V]) (next func() (K, V, bool), stop func()) {
	type pair struct {
		k K
		v V
	}
	n, stop := Pull(func(yield func(pair) bool) {
		seq(func(k K, v V) bool { return yield(pair{k, v}) })
	})
	return func() (K, V, bool) {
		p, ok := n()
		return p.k, p.v, ok
	}, stop
}
