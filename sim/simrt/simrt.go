// Package simrt is called by the instrumented code under test.
package simrt

// Hook, if set, is called at every yield point (the concurrency simulator).
var Hook func()

// Steps counts yield points; when it reaches Limit, Exceeded is called: the code under test does not make progress.
var (
	Steps    int64
	Limit    int64 = 1 << 62
	Exceeded func()
)

// Y is a yield point: it precedes every statement of the code under test.
//
//go:norace
func Y() {
	if Hook != nil {
		Hook()
		return
	}
	Steps++
	if Steps > Limit && Exceeded != nil {
		Exceeded()
	}
}

const unlimited = 1 << 62

// Bound limits the steps to n from now on, unless they are limited already or the concurrency simulator counts them.
//
//go:norace
func Bound(n int64) bool {
	if Hook != nil || Limit != unlimited {
		return false
	}
	Steps, Limit = 0, n
	return true
}

//go:norace
func Unbound() { Limit = unlimited }

// Spawned, if set, is called after every go statement of the code under test (the concurrency simulator).
var Spawned func()

// G follows every go statement of the code under test.
//
//go:norace
func G() {
	if Spawned != nil {
		Spawned()
	}
}
