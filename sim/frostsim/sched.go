package main

import (
	"runtime"
	"sync/atomic"
	"testing/synctest"
	"time"

	"frostsim.local/sim/engine"
	"frostsim.local/sim/simrt"
	"frostsim.local/sim/simsync"
)

// The cooperative scheduler of the concurrency simulation. Every goroutine that executes code under test is a client; exactly
// one client runs at a time, and gives up the processor only at yield points and locks. The hand-over is hidden from the race
// detector, so that it sees only the synchronisation that the code under test does itself.

const (
	cNew = iota
	cParked
	cRunning
	cDone
)

type client struct {
	goid   uint64
	grant  chan struct{}
	state  int
	cond   func() bool
	budget int
	prio   int
	timer  bool
	own    bool // a goroutine that the code under test started
	stream *engine.Stream
	async  *engine.CodePanic
	fireVT time.Duration // timers: when they fired
	retVT  time.Duration // timers: when they ended
	call   int64
	ret    int64
	seen   string // timers: the error of the session after they ended
}

const maxClients = 256

var (
	cls     [maxClients]client
	ncls    int
	mainG   uint64
	lclock  int64
	bubble0 time.Time
	onTimer func(c *client)
)

//go:norace
func tickClock() int64 { lclock++; return lclock }

//go:norace
func lookup() *client {
	g := runtime.SimGoid()
	for i := ncls - 1; i >= 0; i-- {
		if cls[i].goid == g && cls[i].state != cDone {
			return &cls[i]
		}
	}
	return nil
}

//go:norace
func newClient() *client {
	if ncls == maxClients {
		panic("too many clients")
	}
	c := &cls[ncls]
	*c = client{grant: make(chan struct{})}
	ncls++
	return c
}

//go:norace
func adopt(c *client) { c.goid = runtime.SimGoid() }

// current is the client that was granted the processor; one that wakes up from a channel of the code under test is not, and
// waits for its turn.
var current *client

//go:norace
func park(c *client, cond func() bool) {
	c.cond = cond
	c.state = cParked
	synctest.RaceDisable()
	<-c.grant
	synctest.RaceEnable()
	c.state = cRunning
}

// turn gives up the processor after a blocking call.
//
//go:norace
func turn() {
	if simrt.Hook != nil {
		simrt.Hook()
	}
}

var adopting int32

// adoptOwn makes a goroutine that the code under test has started a client. It is the first thing such a goroutine does, and
// the one that started it gives up the processor right afterwards (simrt.G), so that they come one at a time.
//
//go:norace
func adoptOwn() *client {
	synctest.RaceDisable()
	for !atomic.CompareAndSwapInt32(&adopting, 0, 1) {
		runtime.Gosched()
	}
	c := newClient()
	adopt(c)
	c.own = true
	c.state = cRunning
	if current != nil {
		c.stream = current.stream
	}
	atomic.StoreInt32(&adopting, 0)
	synctest.RaceEnable()
	return c
}

//go:norace
func schedHook() {
	if runtime.SimGoid() == mainG {
		return
	}
	c := lookup()
	if c == nil {
		c = adoptOwn()
	}
	if c.budget > 0 && c == current {
		c.budget--
		return
	}
	park(c, nil)
}

//go:norace
func schedBlock(free func() bool) {
	var c *client
	if runtime.SimGoid() != mainG {
		if c = lookup(); c == nil {
			c = adoptOwn()
		}
	}
	if c == nil {
		if !free() {
			panic("deadlock: a lock is held by a suspended goroutine")
		}
		return
	}
	if c.budget > 0 && c == current && free() {
		c.budget--
		return
	}
	park(c, free)
}

// schedSpawned follows a go statement of the code under test.
//
//go:norace
func schedSpawned() {
	if c := lookup(); c != nil && runtime.SimGoid() != mainG {
		park(c, nil)
	}
}

// ownClients returns how many goroutines the code under test has started.
//
//go:norace
func ownClients() (n int) {
	for i := 0; i < ncls; i++ {
		if cls[i].own {
			n++
		}
	}
	return
}

// timerClient runs the function of a timer as a client.
//
//go:norace
func timerClient(f func()) {
	c := newClient()
	adopt(c)
	c.timer = true
	c.fireVT = time.Since(bubble0)
	c.call = tickClock()
	park(c, nil)
	c.async = engine.Guard(f)
	c.ret, c.retVT = tickClock(), time.Since(bubble0)
	if onTimer != nil {
		onTimer(c)
	}
	endClient(c)
}

//go:norace
func endClient(c *client) { c.state = cDone }

// spawn starts f as a client.
func spawn(stream *engine.Stream, f func(c *client)) {
	if !scheduling() {
		return
	}
	c := newClient()
	setStream(c, stream)
	go func() {
		adopt(c)
		park(c, nil)
		f(c)
		endClient(c)
	}()
}

//go:norace
func setStream(c *client, s *engine.Stream) { c.stream = s }

//go:norace
func currentStream() *engine.Stream {
	if c := lookup(); c != nil {
		return c.stream
	}
	return nil
}

func schedStart() {
	mainG = runtime.SimGoid()
	ncls = 0
	lclock = 0
	current = nil
	bubble0 = time.Now()
	onTimer = nil
	prevGoFunc = time.SimGoFunc
	simrt.Hook = schedHook
	simrt.Spawned = schedSpawned
	simsync.Block = schedBlock
	time.SimGoFunc = timerClient
	rnd.Pick = currentStream
}

func schedStop() {
	simrt.Hook = nil
	simrt.Spawned = nil
	simsync.Block = nil
	rnd.Pick = nil
	time.SimGoFunc = prevGoFunc
}

//go:norace
func scheduling() bool { return simrt.Hook != nil }

var prevGoFunc func(func())

//go:norace
func settle() {
	synctest.RaceDisable()
	synctest.Wait()
	synctest.RaceEnable()
}

// runnable returns the clients that can be granted a step.
//
//go:norace
func runnable(buf []int) []int {
	for i := 0; i < ncls; i++ {
		if cls[i].state == cParked && (cls[i].cond == nil || cls[i].cond()) {
			buf = append(buf, i)
		}
	}
	return buf
}

// unfinished returns how many clients have not ended, and how many of them wait for a lock.
//
//go:norace
func unfinished() (n, locked int) {
	for i := 0; i < ncls; i++ {
		if cls[i].own && cls[i].state != cParked {
			continue // it has ended, or waits for something it may wait for
		}
		if cls[i].state != cDone {
			n++
			if cls[i].state == cParked {
				locked++
			}
		}
	}
	return
}

//go:norace
func grant(i, budget int) {
	c := &cls[i]
	c.budget = budget
	current = c
	synctest.RaceDisable()
	c.grant <- struct{}{}
	synctest.Wait()
	synctest.RaceEnable()
}

//go:norace
func prioOf(i int) int { return cls[i].prio }

//go:norace
func setPrio(i, p int) { cls[i].prio = p }

//go:norace
func isTimer(i int) bool { return cls[i].timer }

// schedule runs the clients until none can continue. advance, if set, lets time pass and says whether anything may come of it.
func schedule(r *Run, advance func(idle bool) bool) (steps int) {
	policy := r.Pick(3, 3, 2)
	r.Note([]string{"sched:random", "sched:priority", "sched:bursts"}[policy])
	prio := func(i int) int {
		if prioOf(i) == 0 {
			setPrio(i, 1+r.Choose(1000))
		}
		return prioOf(i)
	}
	changes := map[int]bool{}
	if policy == 1 {
		for i := 0; i < 3; i++ {
			changes[r.Choose(120)] = true
		}
	}
	var buf [maxClients]int
	settle()
	for ; ; steps++ {
		if steps > 200000 {
			r.Fail("livelock", "the session's callers do not finish within %d scheduling steps", steps)
		}
		run := runnable(buf[:0])
		if len(run) == 0 {
			if advance(true) {
				continue
			}
			return steps
		}
		if advance(false) {
			continue
		}
		i, budget := run[0], 0
		switch policy {
		case 0:
			i = run[r.Choose(len(run))]
			budget = []int{0, 0, 1, 3, 10, 40, 200}[r.Choose(7)]
		case 1:
			for _, j := range run {
				if prio(j) > prio(i) {
					i = j
				}
			}
			if changes[steps] {
				setPrio(i, 1)
			}
			budget = r.Choose(12)
		case 2:
			i = run[r.Choose(len(run))]
			budget = 5 + r.Choose(400)
		}
		r.Sched(i, budget)
		r.Events++
		grant(i, budget)
	}
}
