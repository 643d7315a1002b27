package main

import "time"

// horizon is how much simulated time a run is given to come to rest.
const horizon = 10000 * time.Hour

// timeScale stretches all delays of a run, so that whatever the library might
// do after a while gets to happen, too.
var timeScale = 1

func us(n int) time.Duration { return time.Duration(n*timeScale) * time.Microsecond }

// history makes a few runs much longer than the others, for what happens only
// after so many messages, requests, connections or errors.
var history = 1

// longMedia lets a few messages of a run be long.
var longMedia = false

// longOften makes long messages frequent in a few runs, so that several meet.
var longOften = false

// long reports, for one in n messages, that this one may be long.
func long(t *T, n int) bool {
	if longOften {
		n = 3
	}
	return history == 1 && t.Src.Intn(n) == 0
}

// lots draws how many there are of something.
func lots(t *T, from, to int) int {
	n := t.Src.Range(from, to)
	if history > 1 {
		n = min(max(n, to/2)*history, endless)
	}
	return n
}

// endless is how many there are of something at most: enough to wrap a 16-bit
// counter.
const endless = 100000

// canBeEndless names the properties whose runs may get that long.
var canBeEndless = map[string]bool{"C01": true, "C02": true, "C11": true}

// stretched draws the time scale of a run.
func stretched(id string, scenario func(*T)) func(*T) {
	return func(t *T) {
		timeScale = pick(t, 1, 1, 1, 1000, 20000)
		history = 1
		longMedia = false
		if t.Src.Intn(250) == 0 {
			history = pick(t, 10, 25, 60, 200)
			t.Probe("long history")
			if canBeEndless[id] && t.Src.Intn(40) == 0 {
				history = endless / 4
				t.World.MoreSteps(600000000)
				t.Probe("endless history")
			}
		}
		longOften = history == 1 && t.Src.Intn(60) == 0
		scenario(t)
	}
}
