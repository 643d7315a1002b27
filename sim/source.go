// Package sim is a deterministic cooperative simulator for Go programs.
//
// Instrumented code (see ../instr) performs every goroutine start, channel
// operation, lock, clock read and random draw through this package. One
// Source of choices decides every interleaving, delay, fault and generated
// input, so a run is a pure function of its choice sequence and the code.
package sim

// rng is splitmix64.
type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *rng) intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.next() % uint64(n))
}

func (r *rng) float() float64 { return float64(r.next()>>11) / (1 << 53) }

// Mix hashes its arguments into one 64-bit seed.
func Mix(xs ...uint64) uint64 {
	r := rng{0x1234567}
	for _, x := range xs {
		r.s ^= x * 0xff51afd7ed558ccd
		r.s = r.next()
	}
	return r.next()
}

// HashString hashes s to 64 bits (FNV-1a).
func HashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// Source yields every nondeterministic choice of a run. In random mode the
// choices come from a seeded generator and are recorded; in replay mode they
// come from a recorded list, and zero (always the plainest option) past its
// end.
type Source struct {
	r         rng
	replay    []uint32
	replaying bool
	pos       int
	Rec       []uint32
}

// NewSource returns a Source seeded with seed.
func NewSource(seed uint64) *Source { return &Source{r: rng{seed}} }

// NewReplay returns a Source that replays the given choices.
func NewReplay(choices []uint32) *Source {
	return &Source{replay: choices, replaying: true}
}

// Draw returns a choice in [0, n), computed by f in random mode.
func (s *Source) Draw(n int, f func(r *rng) int) int {
	v := 0
	if s.replaying {
		if s.pos < len(s.replay) {
			v = int(s.replay[s.pos])
		}
		s.pos++
		if v >= n {
			v %= n
		}
	} else {
		v = f(&s.r)
	}
	s.Rec = append(s.Rec, uint32(v))
	return v
}

// Intn draws uniformly from [0, n).
func (s *Source) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return s.Draw(n, func(r *rng) int { return r.intn(n) })
}

// Range draws uniformly from [lo, hi].
func (s *Source) Range(lo, hi int) int { return lo + s.Intn(hi-lo+1) }

// Chance is true with probability p; false is the plain option.
func (s *Source) Chance(p float64) bool {
	if p <= 0 {
		return false
	}
	return s.Draw(2, func(r *rng) int {
		if r.float() < p {
			return 1
		}
		return 0
	}) == 1
}

// countdown draws a geometric-like gap with the given mean; 0 stands for
// "never".
func (s *Source) countdown(mean int) int {
	if mean <= 0 {
		return 0
	}
	return s.Draw(1<<16, func(r *rng) int {
		// A sum of two uniforms spreads the gaps around the mean.
		v := 1 + r.intn(mean) + r.intn(mean)
		if v >= 1<<16 {
			v = 1<<16 - 1
		}
		return v
	})
}
