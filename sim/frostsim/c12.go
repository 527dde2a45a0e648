package main

import (
	"errors"
	"fmt"
	"strings"
	"testing/synctest"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/state"

	"frostsim.local/sim/engine"
	"frostsim.local/sim/ref"
)

func init() {
	register(&Check{ID: "C12", Scenario: scenC12, Quick: 3000, Thorough: 60000,
		Real: realLib + ", built with the race detector", Stub: "goroutine scheduling (one client runs at a time, chosen by the seed), sync (simulated locks around the real ones), clock, randomness",
		Rule: "one run lets 2..5 goroutines call one session while its timeout may fire, under one schedule of all statements; the history is checked for linearizability against a model, with data race and deadlock detection"})
}

type opKind int

const (
	opHandle opKind = iota
	opProcess
	opErr
	opFinished
	opDone
	opWait
	opTimeout
)

var opNames = [...]string{"handle", "process", "err", "finished", "done", "wait", "timeout"}

type opRec struct {
	kind      opKind
	msg       int // index of the message for opHandle
	call, ret int64
	vt0, vt1  time.Duration
	errClass  string // for handle, err, wait
	flag      bool   // for finished, done
	emit      [2]int // for process: number of messages of the first and second round
	client    int
}

func (o opRec) String() string {
	switch o.kind {
	case opHandle:
		return fmt.Sprintf("g%d[%d,%d] handle(%d)=%s", o.client, o.call, o.ret, o.msg, o.errClass)
	case opProcess:
		return fmt.Sprintf("g%d[%d,%d] process=%v", o.client, o.call, o.ret, o.emit)
	case opErr, opWait, opTimeout:
		return fmt.Sprintf("g%d[%d,%d] %s=%s", o.client, o.call, o.ret, opNames[o.kind], o.errClass)
	}
	return fmt.Sprintf("g%d[%d,%d] %s=%v", o.client, o.call, o.ret, opNames[o.kind], o.flag)
}

func classErr(err error) string {
	if err == nil {
		return "nil"
	}
	var e *state.Error
	if errors.As(err, &e) {
		if e.PartyID == 0 {
			return fmt.Sprintf("unattributed/%d", e.RoundNumber)
		}
		return fmt.Sprintf("culprit %d/%d", e.PartyID, e.RoundNumber)
	}
	return "error"
}

// linModel is the sequential specification of a session.
type linModel struct {
	n       int // parties
	msgs    []linMsg
	timeout time.Duration
	final   string // the error reported in the end
	perR    [2]int // messages handed out in each round
}

type linMsg struct {
	from  uint16
	round int  // 1 or 2
	bad   bool // processing it fails
}

type linState struct {
	got    uint64
	round  int // rounds finished
	status string
	err    string
	ackLo  time.Duration
	ackHi  time.Duration
}

func (m *linModel) count(s linState, round int) (n int, bad uint16) {
	seen := map[uint16]bool{}
	for i, x := range m.msgs {
		if s.got&(1<<i) != 0 && x.round == round {
			seen[x.from] = true
			if x.bad && (bad == 0 || m.final == fmt.Sprintf("culprit %d/%d", x.from, round)) {
				bad = x.from // of several cheaters any may be named
			}
		}
	}
	return len(seen), bad
}

// step returns whether the operation is possible in s, and the state after it.
func (m *linModel) step(s linState, o opRec) (bool, linState) {
	switch o.kind {
	case opHandle:
		x := m.msgs[o.msg]
		ok := s.status == running
		for i, y := range m.msgs {
			if s.got&(1<<i) != 0 && y.from == x.from && y.round == x.round {
				ok = false
			}
		}
		if ok != (o.errClass == "nil") {
			return false, s
		}
		if ok {
			s.got |= 1 << o.msg
			s.ackLo, s.ackHi = max(s.ackLo, o.vt0), max(s.ackHi, o.vt1)
		}
		return true, s
	case opProcess:
		var emit [2]int
		for s.status == running {
			if s.round > 0 {
				n, bad := m.count(s, s.round)
				if n < m.n-1 {
					break
				}
				if bad != 0 {
					s.status, s.err = failed, fmt.Sprintf("culprit %d/%d", bad, s.round)
					break
				}
			}
			if s.round < 2 {
				emit[s.round] += m.perR[s.round]
				s.round++
			} else {
				s.status, s.err = success, "nil"
			}
		}
		return emit == o.emit, s
	case opErr:
		want := "nil"
		if s.status == failed {
			want = s.err
		}
		return o.errClass == want, s
	case opFinished, opDone:
		return o.flag == (s.status != running), s
	case opWait:
		return s.status != running && o.errClass == s.err, s
	case opTimeout:
		// between o.vt0 and o.vt1 the timer fired and took its decision
		if o.flag {
			// it aborted the session
			if s.status != running || o.vt1 < s.ackLo+m.timeout {
				return false, s
			}
			s.status, s.err = failed, fmt.Sprintf("unattributed/%d", s.round)
			return true, s
		}
		return s.status != running || o.vt0 < s.ackHi+m.timeout, s
	}
	return false, s
}

// linearizable searches for an order of the operations that the model allows.
func (m *linModel) linearizable(ops []opRec, init linState) bool {
	type key struct {
		done uint64
		s    linState
	}
	bad := map[key]bool{}
	var rec func(done uint64, s linState) bool
	rec = func(done uint64, s linState) bool {
		if done == 1<<len(ops)-1 {
			return true
		}
		k := key{done, s}
		if bad[k] {
			return false
		}
		first := int64(1 << 62)
		for i, o := range ops {
			if done&(1<<i) == 0 && o.ret < first {
				first = o.ret
			}
		}
		for i, o := range ops {
			if done&(1<<i) != 0 || o.call > first {
				continue
			}
			if ok, t := m.step(s, o); ok && rec(done|1<<i, t) {
				return true
			}
			if o.kind == opTimeout {
				o.flag = true
				if ok, t := m.step(s, o); ok && rec(done|1<<i, t) {
					return true
				}
			}
		}
		bad[k] = true
		return false
	}
	return rec(0, init)
}

type c12client struct {
	plan  []opRec
	objs  []*messages.Message
	recs  [16]opRec
	n     int
	panic *engine.CodePanic
	bad   string
}

var timedState *state.State

// afterTimer notes the error of the session after a timer has fired.
//
//go:norace
func afterTimer(c *client) { c.seen = classErr(timedState.Err()) }

//go:norace
func vtNow() time.Duration { return time.Since(bubble0) }

func scenC12(r *Run) {
	s := genSession(r, 4)
	self := s.signers[r.Choose(len(s.signers))]
	twin := s.canonical(r)
	ft := s.firstType()
	m := &linModel{n: len(s.signers), perR: [2]int{1, 1}}
	if s.kind == kindKeygen {
		m.perR[1] = len(s.signers) - 1
	}
	var encs [][]byte
	bad := -1
	for _, id := range without(s.signers, self) {
		for _, e := range twin[id].Out {
			if e.To == 0 || e.To == self {
				m.msgs = append(m.msgs, linMsg{from: id, round: int(e.Type-ft) + 1})
				encs = append(encs, e.Enc)
			}
		}
	}
	if r.Chance(1, 4) {
		// one dishonest message
		bad = r.Choose(len(encs))
		x, _ := ref.Decode(encs[bad])
		rs := randScalars(r.Seed, "bad")
		switch x.Type {
		case ref.KG1:
			encs[bad] = ref.EncKG1(x.From, rs(), rs(), x.C)
		case ref.KG2:
			encs[bad] = ref.EncKG2(x.From, x.To, rs())
		case ref.SG1:
			encs[bad] = ref.EncSG1(x.From, ref.Identity(), x.E)
		case ref.SG2:
			encs[bad] = ref.EncSG2(x.From, rs())
		}
		m.msgs[bad].bad = true
		r.Fault("byzantine-message")
	}
	real := len(encs)
	if r.Chance(1, 3) {
		// a second message of a kind already known, with another content
		i := r.Choose(real)
		if i != bad {
			x, _ := ref.Decode(encs[i])
			if x.Type == ref.KG2 || x.Type == ref.SG2 {
				rs := randScalars(r.Seed, "second")
				e := ref.EncSG2(x.From, rs())
				if x.Type == ref.KG2 {
					e = ref.EncKG2(x.From, x.To, rs())
				}
				m.msgs = append(m.msgs, linMsg{from: x.From, round: 2, bad: true})
				encs = append(encs, e)
			}
		}
	}
	m.timeout = []time.Duration{0, time.Second, time.Minute}[r.Choose(3)]

	var x *Sess
	var peers []*Sess
	if m.timeout > 0 && r.Chance(1, 12) {
		m.timeout = 1 // fires at once
	}
	x = s.create(r, self, m.timeout, "shared/")
	// another party of the same process, which is handed the emitted objects
	usePeer := s.kind == kindKeygen && r.Chance(1, 2)
	if usePeer {
		pid := without(s.signers, self)[0]
		p := s.create(r, pid, 0, "peer/")
		p.Process()
		for _, id := range s.signers {
			if id == self || id == pid {
				continue
			}
			for _, e := range twin[id].Out {
				if e.To == 0 || e.To == pid {
					p.HandleBytes(e.Enc)
				}
			}
		}
		peers = append(peers, p)
	}

	// the callers
	g := 2 + r.Choose(4)
	cs := make([]*c12client, g)
	for i := range cs {
		cs[i] = &c12client{}
	}
	add := func(i int, o opRec) {
		c := cs[i]
		if len(c.plan) >= 14 {
			return
		}
		o.client = i
		var obj *messages.Message
		if o.kind == opHandle {
			var err error
			if obj, err = decode(r, encs[o.msg]); err != nil {
				r.Discard("a valid message does not decode")
			}
		}
		c.plan = append(c.plan, o)
		c.objs = append(c.objs, obj)
	}
	// deliveries in a random order over the callers, sometimes twice
	for _, i := range r.Perm(len(encs)) {
		if i < real && r.Chance(1, 16) {
			continue // lost
		}
		add(r.Choose(g), opRec{kind: opHandle, msg: i})
		if r.Chance(1, 6) {
			add(r.Choose(g), opRec{kind: opHandle, msg: i})
		}
		for r.Chance(1, 2) {
			add(r.Choose(g), opRec{kind: opProcess})
		}
		if r.Chance(1, 4) {
			add(r.Choose(g), opRec{kind: []opKind{opErr, opFinished, opDone}[r.Choose(3)]})
		}
	}
	for i := range cs {
		if r.Chance(1, 2) {
			add(i, opRec{kind: opProcess})
		}
		if m.timeout > 0 && r.Chance(1, 2) || r.Chance(1, 8) {
			add(i, opRec{kind: opWait})
		}
	}
	total := 0
	for _, c := range cs {
		total += len(c.plan)
		if r.Verbose {
			var p []string
			for _, o := range c.plan {
				p = append(p, fmt.Sprint(opNames[o.kind], o.msg))
			}
			r.Event("caller: %s", strings.Join(p, " "))
		}
	}
	r.Event("session %d timeout %v, %d callers, %d calls, bad message %d, peer %v", self, m.timeout, g, total, bad, usePeer)

	races := synctest.RaceErrors()
	schedStart()
	timedState = x.St
	onTimer = afterTimer
	use := func(ms []*messages.Message, c *c12client) {
		// handed-out messages are used by other goroutines while the session continues
		for _, msg := range ms {
			msg := msg
			spawn(nil, func(*client) {
				if cp := engine.Guard(func() {
					if _, err := msg.MarshalBinary(); err != nil {
						c.bad = "an emitted message cannot be encoded: " + err.Error()
					}
				}); cp != nil {
					c.panic = cp
				}
			})
			if usePeer && msg.IsBroadcast() {
				spawn(peers[0].Rand, func(*client) {
					if cp := engine.Guard(func() {
						peers[0].St.HandleMessage(msg)
						peers[0].St.ProcessAll()
					}); cp != nil {
						c.panic = cp
					}
				})
			}
		}
	}
	for _, c := range cs {
		c := c
		spawn(x.Rand, func(me *client) {
			c.panic = engine.Guard(func() {
				for i, o := range c.plan {
					o.call, o.vt0 = tickClock(), vtNow()
					switch o.kind {
					case opHandle:
						o.errClass = "nil"
						if x.St.HandleMessage(c.objs[i]) != nil {
							o.errClass = "error"
						}
					case opProcess:
						ms := x.St.ProcessAll()
						for _, msg := range ms {
							if k := int(byte(msg.Type) - ft); k == 0 || k == 1 {
								o.emit[k]++
							}
						}
						o.ret, o.vt1 = tickClock(), vtNow()
						use(ms, c)
					case opErr:
						o.errClass = classErr(x.St.Err())
					case opFinished:
						o.flag = x.St.IsFinished()
					case opDone:
						select {
						case <-x.St.Done():
							o.flag = true
						default:
						}
					case opWait:
						err := x.St.WaitForError()
						turn()
						o.errClass = classErr(err)
						o.ret, o.vt1 = tickClock(), vtNow()
						if err == nil {
							// the complete output is visible, also to further goroutines
							if !x.HasOutput() || x.OutputBytes() == "partial" {
								c.bad = "waiting returned without error but the output is not complete"
							}
							spawn(nil, func(*client) { x.OutputBytes() })
						}
					}
					if o.ret == 0 {
						o.ret, o.vt1 = tickClock(), vtNow()
					}
					c.recs[c.n] = o
					c.n++
				}
			})
		})
	}
	idle := 0
	advance := func(isIdle bool) bool {
		if m.timeout == 0 {
			return false
		}
		if isIdle {
			if n, _ := unfinished(); n == 0 || idle > 3 {
				return false
			}
			idle++
			time.Sleep(m.timeout + 1)
			settle()
			return true
		}
		if !r.Chance(1, 60) {
			return false
		}
		d := m.timeout
		if r.Chance(1, 2) {
			d = d/2 + 1
		}
		r.Event("time passes: %v", d)
		r.Fault("clock-advance")
		r.Sched(99, int(d))
		time.Sleep(d)
		settle()
		return true
	}
	steps := schedule(r, advance)
	left, locked := unfinished()
	synctest.Wait()
	onTimer = nil
	schedStop()

	// the session must end in any case now, so that waiting callers go home
	if locked > 0 {
		r.Fail("deadlock", "%d calls wait for a lock for ever", locked)
	}
	var ops []opRec
	for _, c := range cs {
		if c.panic != nil {
			r.Fail("crash", "a call panicked: %v [%s]", c.panic.Value, c.panic.Stack)
		}
		if c.bad != "" {
			r.Fail("incomplete", "%s", c.bad)
		}
		ops = append(ops, c.recs[:c.n]...)
	}
	nt := 0
	sawAbort := false
	for i := 0; i < ncls; i++ {
		c := &cls[i]
		if !c.timer {
			continue
		}
		nt++
		if c.async != nil {
			r.Fail("crash", "the timeout panicked: %v [%s]", c.async.Value, c.async.Stack)
		}
		sawAbort = sawAbort || strings.HasPrefix(c.seen, "unattributed")
		ops = append(ops, opRec{kind: opTimeout, call: c.call, ret: c.ret, vt0: c.fireVT, vt1: c.retVT, errClass: c.seen, client: 100 + i})
		r.Fault("timeout-fired")
	}
	if n := synctest.RaceErrors(); n > races {
		r.Fail("race", "the race detector reports %d data races between the session's callers", n-races)
	}
	waiting := 0
	for _, c := range cs {
		if c.n < len(c.plan) {
			waiting++
			o := c.plan[c.n]
			if o.kind != opWait {
				r.Fail("deadlock", "a call of %s never returned", opNames[o.kind])
			}
		}
	}
	fin := x.Status() != running
	if waiting > 0 && fin {
		r.Fail("wait", "%d callers still wait although the session is %s", waiting, x.Describe())
	}
	_ = left
	t := tickClock()
	m.final = classErr(x.St.Err())
	ops = append(ops, opRec{kind: opErr, call: t, ret: t + 1, errClass: classErr(x.St.Err()), client: 99}, opRec{kind: opFinished, call: t, ret: t + 1, flag: x.St.IsFinished(), client: 99})
	if fin := m.final; nt == 0 && ownClients() > 0 && strings.HasPrefix(fin, "unattributed/") {
		// the timeout is the work of a goroutine of the session, so nobody saw exactly when it fired
		ops = append(ops, opRec{kind: opTimeout, call: 0, ret: t, vt1: vtNow(), errClass: fin, client: 98})
	}
	if len(ops) > 63 {
		r.Discard("history too long")
	}
	init := linState{status: running}
	if !m.linearizable(ops, init) {
		var l []string
		for _, o := range ops {
			l = append(l, o.String())
		}
		r.Fail("not-atomic", "the history has no sequential explanation (messages %v, timeout %v): %s", m.msgs, m.timeout, strings.Join(l, "; "))
	}
	if sawAbort {
		r.Note("aborted-by-timeout")
	}
	r.Note("ended:" + x.Status())
	if waiting > 0 {
		// let the callers go home: the session never ends without the lost messages
		for _, e := range encs {
			x.HandleBytes(e)
			x.Process()
		}
		for i := 0; i < 3; i++ {
			x.Process()
		}
		time.Sleep(1)
		synctest.Wait()
		if x.Status() == running {
			r.Discard("the session cannot be ended")
		}
	}
	r.Sample = fmt.Sprintf("kind=%d n=%d timeout=%v: %d callers, %d calls, %d timer firings, %d scheduling steps, linearizable", s.kind, len(s.signers), m.timeout, g, len(ops), nt, steps)
}
