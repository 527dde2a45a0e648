package main

import (
	"errors"
	"fmt"
	"runtime"
	"testing/synctest"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/state"

	"frostsim.local/sim/ref"
	"frostsim.local/sim/simrt"
	"frostsim.local/sim/simsync"
)

func init() {
	register(&Check{ID: "C10", Scenario: scenC10, Quick: 15000, Thorough: 200000, Real: realLib + "; time.AfterFunc timers run on the simulated clock", Stub: stubNet,
		Rule: "one run drives a session through deliveries, ignored and refused messages and pauses placed just before and just after its deadline, which a model tracks"})
	register(&Check{ID: "C11", Scenario: scenC11, Quick: 12000, Thorough: 150000, Real: realLib + "; time.AfterFunc timers run on the simulated clock", Stub: stubNet,
		Rule: "one run follows the outcome of every session of an honest or attacked execution with timeouts, some of them in the middle of a call, after every step and long after its end, with waiting goroutines"})
}

// ---- C10

func scenC10(r *Run) {
	s := genSession(r, 5)
	self := s.signers[r.Choose(len(s.signers))]
	T := []time.Duration{0, 1, time.Microsecond, time.Millisecond, time.Second, 90 * time.Second, 10 * time.Hour, 40 * 24 * time.Hour, 1000 * 24 * time.Hour}[r.Pick(2, 2, 2, 4, 6, 4, 2, 1, 1)]
	if T > 1 && r.Chance(1, 2) {
		T = T + time.Duration(r.Choose(1000))*T/1000
	}
	peers := without(s.signers, self)
	// the peers' traffic, produced in advance by running them in lock-step with a twin of the session under test
	twin := s.canonical(r)
	var traffic []*Emit
	for _, id := range peers {
		for _, e := range twin[id].Out {
			if e.To == 0 || e.To == self {
				traffic = append(traffic, e)
			}
		}
	}
	x := s.create(r, self, T, "")
	lo, hi := time.Now().Add(T), time.Now().Add(T) // the deadline is within [lo, hi]
	r.Event("session %d timeout %v, %d messages to come", self, T, len(traffic))
	accepted := map[[2]int]bool{}
	started := false
	poll := func() { // lets a pending timer goroutine finish
		time.Sleep(0)
		synctest.Wait()
	}
	mainG := runtime.SimGoid()
	over := false // a terminal state was observed
	var finalOut, finalErr string
	check := func(when string) {
		st := x.Status()
		now := time.Now()
		if over {
			if o, e := x.OutputBytes(), fmt.Sprint(x.Err()); o != finalOut || e != finalErr {
				r.Fail("late-effect", "%s: the finished session changed from (%s, %s) to (%s, %s)", when, finalOut, finalErr, o, e)
			}
			return
		}
		timedOut := false
		if st == failed {
			var e *state.Error
			if !errors.As(x.Err(), &e) {
				r.Fail("error-type", "%s: the error is %T, not *state.Error: %v", when, x.Err(), x.Err())
			}
			if e.PartyID != 0 {
				r.Fail("named", "%s: a session with honest peers failed naming %d: %v", when, e.PartyID, x.Err())
			}
			timedOut = true
			if T == 0 {
				r.Fail("zero-timeout", "%s: a session without timeout aborted: %v", when, x.Err())
			}
			if now.Before(lo) {
				r.Fail("early", "%s: the session aborted %v before its deadline: %v", when, lo.Sub(now), x.Err())
			}
			if x.HasOutput() {
				r.Fail("output", "%s: a timed-out session has output", when)
			}
			if !x.DoneClosed() {
				r.Fail("done", "%s: a timed-out session does not signal completion", when)
			}
		}
		if st == running && T > 0 && now.After(hi) {
			r.Fail("late", "%s: the session is still running %v after its deadline (timeout %v)", when, now.Sub(hi), T)
		}
		if st != running {
			over, finalOut, finalErr = true, x.OutputBytes(), fmt.Sprint(x.Err())
			r.Event("%s: session is %s", when, x.Describe())
			if timedOut {
				r.Note("timed-out")
				r.Fault("timeout")
			}
		}
	}
	// inCall makes the clock jump over the deadline at the k-th statement of the call
	inCall := func(f func()) {
		if T == 0 || over || !lo.Equal(hi) || !r.Chance(1, 20) {
			f()
			return
		}
		duringCall(r, mainG, r.Choose(60), "timeout-during-call", func() time.Duration { return time.Until(hi) + 2 }, f)
	}
	deliver := func(i int) {
		e := traffic[i]
		key := [2]int{int(e.By.ID), int(e.Type)}
		acc := !over && !accepted[key]
		begin := time.Now()
		var err error
		inCall(func() { err = x.HandleBytes(e.Enc) })
		if acc = acc && err == nil; acc {
			accepted[key] = true
			lo, hi = begin.Add(T), time.Now().Add(T)
		}
		r.Event("deliver type %d from %d (%v)", e.Type, e.By.ID, acc)
		r.Sched(3, i)
	}
	process := func() {
		started = true
		inCall(func() { x.Process() })
		r.Event("process")
		r.Sched(2, 0)
	}
	pend := make([]int, len(traffic))
	for i := range pend {
		pend[i] = i
	}
	jumps := r.Chance(1, 3)
	for step := 0; step < 60 && !over; step++ {
		if jumps && r.Chance(1, 4) {
			r.ClockJump()
		}
		switch r.Pick(6, 6, 5, 4) {
		case 0: // progress
			if len(pend) == 0 {
				process()
				break
			}
			j := r.Choose(len(pend))
			i := pend[j]
			pend = append(pend[:j:j], pend[j+1:]...)
			deliver(i)
			poll()
			check("after a delivery")
			if r.Chance(3, 4) {
				process()
			}
		case 1: // a pause relative to the deadline
			var d time.Duration
			left := time.Until(lo)
			if T == 0 {
				d = time.Duration(r.Choose(1000)) * time.Hour
			} else {
				switch r.Choose(5) {
				case 0, 1:
					d = left - 1
				case 2:
					d = left / 2
				case 3:
					d = left * 9 / 10
				case 4:
					if r.Chance(1, 3) {
						d = time.Until(hi) + 1
					}
				}
			}
			if d > 0 {
				time.Sleep(d)
				r.Event("pause")
				r.Sched(4, step)
			}
		case 2: // something that must not extend the deadline
			var what string
			if !over && len(accepted) > 0 && r.Chance(1, 2) {
				// again, a message it has already
				var c []*Emit
				for _, e := range traffic {
					if accepted[[2]int{int(e.By.ID), int(e.Type)}] {
						c = append(c, e)
					}
				}
				x.HandleBytes(c[r.Choose(len(c))].Enc)
				what = "repetition"
			} else {
				b, w := s.noise(r, self, step)
				x.HandleBytes(b)
				what = w
			}
			r.Event("without effect: %s", what)
			r.Fault("ignored:" + what)
			r.Sched(5, len(what))
			if started && r.Chance(1, 2) {
				process()
			}
		case 3:
			if r.Chance(1, 2) {
				process()
			}
		}
		poll()
		check("in the middle")
	}
	if over && r.Chance(1, 2) {
		time.Sleep(time.Duration(1+r.Choose(5)) * (T + time.Minute))
		poll()
		process()
		poll()
		check("long after the end")
	}
	// the remaining deadline, exactly
	if !over && T > 0 {
		if d := time.Until(lo) - 1; d > 0 {
			time.Sleep(d)
			poll()
			check("just before the deadline")
		}
		time.Sleep(time.Until(hi) + 1)
		poll()
		check("just after the deadline")
		if !over {
			r.Fail("late", "the session has not aborted at its deadline")
		}
		process()
		for i := range traffic {
			x.HandleBytes(traffic[i].Enc)
		}
		time.Sleep(3 * T)
		poll()
		check("after the abort")
	}
	if T == 0 && !over {
		time.Sleep(1_000_000 * time.Hour)
		poll()
		check("after a million hours without timeout")
		for _, i := range pend {
			x.HandleBytes(traffic[i].Enc)
		}
		for i := 0; i < 3; i++ {
			x.Process()
		}
		poll()
		check("at the end")
		if x.Status() != success {
			r.Fail("zero-timeout", "a session without timeout is %s although it has received everything", x.Describe())
		}
	}
	r.Sample = fmt.Sprintf("kind=%d timeout=%v: ended %s", s.kind, T, x.Describe())
}

// duringCall runs f and lets d of simulated time pass at its k-th statement, so that timers fire while f holds its locks.
func duringCall(r *Run, mainG uint64, k int, fault string, d func() time.Duration, f func()) {
	old := simsync.Block
	waiting := 0
	simsync.Block = func(free func() bool) {
		waiting++
		for d := time.Duration(1); !free(); d *= 2 {
			time.Sleep(d)
		}
		waiting--
	}
	n := 0
	fired := false
	simrt.Hook = func() {
		if runtime.SimGoid() != mainG {
			return
		}
		n++
		if n == k+1 && !fired {
			fired = true
			r.Event("time passes during the call, at statement %d", k)
			r.Fault(fault)
			if d := d(); d > 0 {
				time.Sleep(d)
			}
		}
	}
	f()
	simrt.Hook = nil
	time.Sleep(3)
	for waiting > 0 {
		time.Sleep(time.Second)
	}
	synctest.Wait()
	simsync.Block = old
}

// noise is a well-formed message that a session has to ignore or refuse.
func (s *session) noise(r *Run, self uint16, salt int) ([]byte, string) {
	rs := randScalars(r.Seed, fmt.Sprintf("noise/%d", salt))
	peers := without(s.signers, self)
	peer := peers[r.Choose(len(peers))]
	mk := func(t byte, from, to uint16) []byte {
		switch t {
		case ref.KG1:
			return ref.EncKG1(from, rs(), rs(), ref.Poly{rs(), rs()}.Commit())
		case ref.KG2:
			return ref.EncKG2(from, to, rs())
		case ref.SG1:
			return ref.EncSG1(from, ref.Base(rs()), ref.Base(rs()))
		}
		return ref.EncSG2(from, rs())
	}
	ft := s.firstType()
	other := byte(ref.KG1+ref.SG1) - ft
	t := byte(r.Choose(2))
	switch r.Choose(4) {
	case 0:
		return mk(ft+t, self, self), "from-self"
	case 1:
		for id := uint16(1); ; id++ {
			if !has(s.signers, id) {
				return mk(ft+t, id, self), "outsider"
			}
		}
	case 2:
		to := uint16(1)
		for to == self {
			to++
		}
		return mk(ref.KG2, peer, to), "misaddressed"
	}
	return mk(other+t, peer, self), "other-protocol"
}

// ---- C11

type outcome struct {
	st, err, out string
	round        int
	culprit      uint16
}

type waiter struct {
	s    *Sess
	done bool
	err  error
}

// otherCallers lets goroutines wait for a lock that the main one holds.
func otherCallers() {
	simsync.Block = func(free func() bool) {
		for i := 0; !free(); i++ {
			if i > 1_000_000 {
				panic("deadlock: a lock is never released")
			}
			runtime.Gosched()
		}
	}
}

func scenC11(r *Run) {
	otherCallers()
	var net *Net
	var honest []uint16
	off := map[uint16]bool{}
	attacked := true
	switch r.Choose(4) {
	case 0:
		a := genKgAttack(r, r.Chance(1, 4))
		net, honest, off = a.net, a.honest, a.offenders()
	case 1:
		a := genSgAttack(r, func(n, t int) int { return t + 1 }, true)
		a.describe(r)
		net, honest = a.net, a.honest
	default:
		s := genSession(r, 5)
		net, honest = s.net(r, zeroTimeout), s.signers
		attacked = false
	}
	_ = off
	timeouts := map[int]time.Duration{}
	// recreate the sessions with timeouts that may fire
	for _, nd := range net.Nodes {
		if nd.Create == nil {
			continue
		}
		nd := nd
		T := []time.Duration{0, time.Second, time.Minute}[r.Choose(3)]
		timeouts[nd.Slot] = T
		old := nd.Create
		nd.Create = func() {
			createTimeout = &T
			old()
			createTimeout = nil
		}
	}
	net.Configure()
	if r.Chance(1, 2) {
		net.Jitter = []time.Duration{100 * time.Millisecond, 2 * time.Second, time.Minute}[r.Choose(3)]
	}
	mainG := runtime.SimGoid()
	jumped := false
	for _, nd := range net.Nodes {
		if nd.Create == nil || timeouts[nd.Slot] == 0 {
			continue
		}
		nd, old := nd, nd.Create
		nd.Create = func() {
			old()
			if nd.S == nil {
				return
			}
			nd.S.Around = func(what string, f func()) {
				if jumped || !r.Chance(1, 15) {
					f()
					return
				}
				jumped = true
				duringCall(r, mainG, r.Choose([]int{20, 200, 2000}[r.Choose(3)]), "timeout-during-call", func() time.Duration { return timeouts[nd.Slot] + 1 }, f)
			}
		}
	}
	final := map[int]*outcome{}
	var waiters []*waiter
	obs := func(nd *Node) outcome {
		o := outcome{st: nd.S.Status(), out: nd.S.OutputBytes()}
		if e := nd.S.Err(); e != nil {
			o.err = e.Error()
			var se *state.Error
			if !errors.As(e, &se) {
				r.Fail("error-type", "the error of %s is %T: %v", nd.S.Label, e, e)
			}
			o.round, o.culprit = se.RoundNumber, uint16(se.PartyID)
		}
		return o
	}
	check := func(nd *Node) {
		if nd.S == nil {
			return
		}
		o := obs(nd)
		done := nd.S.DoneClosed()
		f := final[nd.Slot]
		if f != nil {
			if o != *f {
				r.Fail("outcome-changed", "the outcome of %s changed from %+v to %+v", nd.S.Label, *f, o)
			}
			if !done {
				r.Fail("done", "the completion signal of %s was lowered", nd.S.Label)
			}
			return
		}
		switch o.st {
		case running:
			if done {
				r.Fail("done", "%s signals completion but is running", nd.S.Label)
			}
			if o.err != "" {
				r.Fail("error-while-running", "%s is running but reports %s", nd.S.Label, o.err)
			}
			if nd.S.HasOutput() {
				r.Fail("output-while-running", "%s is running but publishes output", nd.S.Label)
			}
			return
		case success:
			if !nd.S.HasOutput() || o.out == "partial" {
				r.Fail("no-output", "%s succeeded without complete output", nd.S.Label)
			}
			if o.err != "" {
				r.Fail("error-and-success", "%s succeeded with an error", nd.S.Label)
			}
		case failed:
			if nd.S.HasOutput() {
				r.Fail("output-and-error", "%s failed but publishes output: %s", nd.S.Label, o.err)
			}
			// the round is the number of rounds it had finished
			kinds := map[byte]bool{}
			for _, e := range nd.S.Out {
				kinds[e.Type] = true
			}
			if o.round != len(kinds) {
				r.Fail("round", "%s failed in round %d but its error says round %d: %s", nd.S.Label, len(kinds), o.round, o.err)
			}
			if o.culprit == nd.ID {
				r.Fail("culprit", "%s blames itself: %s", nd.S.Label, o.err)
			}
			if !attacked && o.culprit != 0 {
				r.Fail("culprit", "%s blames %d although nobody cheated: %s", nd.S.Label, o.culprit, o.err)
			}
		}
		if !done {
			r.Fail("done", "%s is %s but does not signal completion", nd.S.Label, o.st)
		}
		final[nd.Slot] = &o
		r.Event("%s ended: %s %s", nd.S.Label, o.st, o.err)
		r.Note("outcome:" + o.st)
	}
	checkAll := func() {
		synctest.Wait()
		for _, nd := range net.Nodes {
			check(nd)
		}
		for _, w := range waiters {
			fin := w.s.Finished()
			if w.done != fin {
				r.Fail("wait", "waiting for %s has returned: %v, but the session has finished: %v", w.s.Label, w.done, fin)
			}
			if w.done && fmt.Sprint(w.err) != fmt.Sprint(w.s.Err()) {
				r.Fail("wait", "waiting for %s returned %v, but its error is %v", w.s.Label, w.err, w.s.Err())
			}
		}
	}
	wait := func() {
		nd := net.Nodes[r.Choose(len(net.Nodes))]
		if nd.S == nil || (timeouts[nd.Slot] == 0 && final[nd.Slot] == nil) {
			return
		}
		w := &waiter{s: nd.S}
		waiters = append(waiters, w)
		r.Event("a caller waits for %s", nd.S.Label)
		go func() {
			w.err = w.s.St.WaitForError()
			w.done = true
		}()
	}
	net.OnStep = func() {
		if len(waiters) < 6 && r.Chance(1, 10) {
			wait()
		}
		checkAll()
	}
	emitted := map[int]int{}
	net.OnEmit = func(nd *Node, es []*Emit) {
		if final[nd.Slot] != nil {
			r.Fail("emitted", "%s is %s but emitted %d more messages", nd.S.Label, final[nd.Slot].st, len(es))
		}
		emitted[nd.Slot] += len(es)
	}
	net.Run(nil)
	checkAll()
	// time passes, then everything is delivered again and more
	net.finishByTimeout(time.Hour)
	checkAll()
	wait()
	for _, nd := range net.Nodes {
		if nd.S == nil {
			continue
		}
		if timeouts[nd.Slot] > 0 && final[nd.Slot] == nil {
			r.Discard("a session with a timeout has not ended")
		}
		if final[nd.Slot] == nil {
			continue
		}
		for i := 0; i < 4 && len(nd.Heard) > 0; i++ {
			if nd.S.HandleBytes(nd.Heard[r.Choose(len(nd.Heard))].Enc) == nil {
				r.Fail("accepted-late", "%s is %s but accepted a message", nd.S.Label, final[nd.Slot].st)
			}
			if es := nd.S.Process(); len(es) > 0 {
				r.Fail("emitted", "%s is %s but emitted %d more messages", nd.S.Label, final[nd.Slot].st, len(es))
			}
		}
	}
	time.Sleep(time.Duration(r.Choose(1000)) * time.Hour)
	// the callers use their lists for something else
	for _, nd := range net.Nodes {
		if nd.S != nil && final[nd.Slot] != nil {
			for i := range nd.S.List {
				nd.S.List[i] = party.ID(1 + r.Choose(65535))
			}
		}
	}
	checkAll()
	r.Trivial = len(final) == 0
	r.Sample = fmt.Sprintf("honest=%v attacked=%v: %d outcomes followed, %d waiters", honest, attacked, len(final), len(waiters))
}
