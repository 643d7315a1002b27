package sim

import (
	"context"
	"fmt"
	"io"
	"testing"
	"testing/iotest"
	"time"
)

func TestDeterminism(t *testing.T) {
	run := func(s uint64) *World {
		return Run(NewSource(s), Config{Trace: true}, func(w *World) {
			ch := make(chan int)
			done := make(chan bool, 2)
			var mu Mutex
			n := 0
			for i := 0; i < 3; i++ {
				Go(func() {
					for j := 0; j < 5; j++ {
						Y()
						To(ch).Send(i*10 + j)
					}
					mu.Lock()
					n++
					if n == 3 {
						Close(ch)
					}
					mu.Unlock()
				})
			}
			w.Go("r", func() {
				for v := range Range(ch) {
					w.Logf("got %d", v)
				}
				To(done).Send(true)
			})
			<-func() <-chan struct{} { c := make(chan struct{}); close(c); return c }()
			w.Logf("done %v", Recv(done))
		})
	}
	seen := map[uint64]bool{}
	for s := uint64(0); s < 300; s++ {
		a, b := run(s), run(s)
		if a.Hash != b.Hash || a.EvHash != b.EvHash || a.Hung || a.Crash != nil {
			t.Fatal(s, a.Hung, a.Crash, a.Hash, b.Hash)
		}
		c := Run(NewReplay(a.Src.Rec), Config{}, func(w *World) {})
		_ = c
		seen[a.EvHash] = true
	}
	fmt.Println(len(seen))
}

func BenchmarkSwitch(b *testing.B) {
	Run(NewReplay(nil), Config{MaxSteps: 1 << 60}, func(w *World) {
		ch := make(chan int)
		w.Go("s", func() {
			for {
				To(ch).Send(1)
			}
		})
		for i := 0; i < b.N; i++ {
			Recv(ch)
		}
	})
}

func TestContextAndPipe(t *testing.T) {
	var errs []string
	w := Run(NewSource(7), Config{}, func(w *World) {
		ctx, cancel := WithTimeout(context.Background(), time.Second)
		defer cancel()
		kid, kc := WithCancel(context.WithValue(ctx, "a", 1))
		defer kc()
		other, oc := WithCancel(kid)
		oc()
		ran := make(chan bool, 1)
		CtxAfterFunc(kid, func() { To(ran).Send(true) })
		Recv(kid.Done())
		Recv((<-chan bool)(ran))
		errs = append(errs, fmt.Sprint(kid.Err(), ctx.Err(), other.Err(), Now().Sub(Epoch)))
		r, wr := IOPipe()
		Go(func() { wr.Write([]byte("hello")); wr.Write([]byte(" you")); wr.Close() })
		b, err := io.ReadAll(iotest.OneByteReader(r))
		errs = append(errs, fmt.Sprint(string(b), err))
	})
	if w.Hung || w.Crash != nil || fmt.Sprint(errs) != "[context deadline exceeded context deadline exceeded context canceled 1.000006s hello you<nil>]" {
		t.Fatal(w.Hung, w.Crash, errs)
	}
}

func TestPull(t *testing.T) {
	for s := uint64(0); s < 200; s++ {
		w := Run(NewSource(s), Config{Trace: true}, func(w *World) {
			ch := make(chan int)
			Go(func() {
				for i := range 5 {
					To(ch).Send(i)
				}
				Close(ch)
			})
			next, stop := Pull(Range(ch))
			sum := 0
			for {
				v, ok := next()
				if !ok {
					break
				}
				sum += v
			}
			if sum != 10 {
				panic(sum)
			}
			stop()
			n2, stop2 := Pull2(func(yield func(int, string) bool) {
				for i := 0; yield(i, "x"); i++ {
					Y()
				}
			})
			n2()
			if i, x, ok := n2(); i != 1 || x != "x" || !ok {
				panic(i)
			}
			stop2()
			stop2()
			if _, _, ok := n2(); ok {
				panic("more")
			}
		})
		if w.Crash != nil || w.Hung {
			t.Fatal(s, w.Crash, w.Hung)
		}
	}
}
