package sim

import (
	crand "crypto/rand"
	mrand "math/rand"
	mrand2 "math/rand/v2"
)

// randSource feeds math/rand from the run's generator. The bytes are a pure
// function of the run's choices (one recorded draw seeds each source).
type randSource struct{ r rng }

func (s *randSource) Int63() int64    { return int64(s.r.next() >> 1) }
func (s *randSource) Uint64() uint64  { return s.r.next() }
func (s *randSource) Seed(seed int64) { s.r = rng{uint64(seed)} }

func (w *World) randSeed() uint64 {
	if w == nil {
		return 1
	}
	w.randN++
	return Mix(uint64(w.Src.Intn(1<<30)), w.randN)
}

// Rand replaces the global generator of math/rand: instrumented code calls
// its methods.
func Rand() *mrand.Rand {
	w := W
	if w == nil {
		return mrand.New(&randSource{rng{1}})
	}
	if w.rand1 == nil {
		w.rand1 = mrand.New(&randSource{rng{w.randSeed()}})
	}
	return w.rand1
}

// Rand2 replaces the global generator of math/rand/v2.
func Rand2() *mrand2.Rand {
	w := W
	if w == nil {
		return mrand2.New(&randSource{rng{1}})
	}
	if w.rand2 == nil {
		w.rand2 = mrand2.New(&randSource{rng{w.randSeed()}})
	}
	return w.rand2
}

// CryptoReader stands in for crypto/rand.Reader. What was read is recorded,
// so that oracles can tell where a challenge came from.
type cryptoReader struct{}

func (cryptoReader) Read(p []byte) (int, error) {
	w := W
	if w == nil {
		for i := range p {
			p[i] = byte(i*7 + 1)
		}
		return len(p), nil
	}
	r := rng{w.randSeed()}
	for i := range p {
		p[i] = byte(r.next() >> 13)
	}
	w.Secure = append(w.Secure, append([]byte(nil), p...))
	return len(p), nil
}

func init() { crand.Reader = cryptoReader{} }
