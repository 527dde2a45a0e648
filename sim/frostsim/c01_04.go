package main

import (
	"fmt"
	"sort"
	"testing/synctest"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"

	"frostsim.local/sim/ref"
)

func init() {
	register(&Check{ID: "C01", Scenario: scenC01, Quick: 2400, Thorough: 60000, Real: realLib, Stub: stubNet,
		Rule: "one run is one key generation among honest parties under a random committee (2..33 parties, sparse ids), schedule policy, loss with retransmission, duplication, partitions and late starts; non-trivial when it is checked to the end"})
	register(&Check{ID: "C02", Scenario: scenC02, Quick: 3600, Thorough: 90000, Real: realLib, Stub: stubNet,
		Rule: "one run is one signing session of a random subset of holders under a random schedule with faults; non-trivial when it is checked to the end"})
	register(&Check{ID: "C03", Scenario: scenC03, Quick: 8000, Thorough: 80000, Real: realLib, Stub: stubNet,
		Rule: "one run compares an execution under a random schedule with the lock-step execution of the same parties with the same randomness"})
	register(&Check{ID: "C04", Scenario: scenC04, Quick: 10000, Thorough: 80000, Real: realLib, Stub: stubNet,
		Rule: "one run is a session with injected duplicates, conflicting, misdirected, foreign and stale messages, compared with the execution without them"})
}

func scenC01(r *Run) {
	if r.Chance(1, 1000) {
		largeKeygen(r)
		return
	}
	if r.Chance(1, 80) {
		crowdCompletes(r, kindKeygen)
		return
	}
	n := genN(r, 2)
	ids := genIDs(r, n)
	t := genT(r, n)
	r.Event("keygen ids=%v t=%d", ids, t)
	net := keygenNet(r, ids, t, func() time.Duration { return genTimeout(r) }, "")
	net.Configure()
	net.Run(nil)
	needSuccess(r, net, "incomplete")
	var ss []*Sess
	for _, nd := range net.Nodes {
		ss = append(ss, nd.S)
	}
	checkKeygenAgreement(r, ss, ids, t, true)
	r.Sample = fmt.Sprintf("n=%d t=%d ids=%v policy=%s, %d steps, all succeeded and agree", n, t, ids, polNames[net.Policy], net.Steps)
}

func scenC02(r *Run) {
	if r.Chance(1, 2500) {
		largeSign(r)
		return
	}
	if r.Chance(1, 120) {
		crowdCompletes(r, kindSign)
		return
	}
	n := genN(r, 2)
	ids := genIDs(r, n)
	t := genT(r, n)
	k := someKey(r, "", ids, t)
	signers := genSigners(r, ids, t+1)
	msg := genMessage(r)
	r.Event("sign ids=%v t=%d signers=%v message of %d bytes", ids, t, signers, len(msg))
	net := signNet(r, k, signers, msg, func() time.Duration { return genTimeout(r) }, "")
	net.Configure()
	net.Run(nil)
	needSuccess(r, net, "incomplete")
	first := ""
	for _, nd := range net.Nodes {
		checkSignature(r, nd.S, k.Group, k.Public.GroupKey, msg)
		o := nd.S.OutputBytes()
		if first == "" {
			first = o
		} else if o != first {
			r.Fail("disagree", "%s and %s output different signatures", net.Nodes[0].S.Label, nd.S.Label)
		}
	}
	r.Sample = fmt.Sprintf("t=%d signers=%v of %v, message of %d bytes, policy=%s, %d steps, one valid signature", t, signers, ids, len(msg), polNames[net.Policy], net.Steps)
}

// session describes one honest session so that it can be executed more than once with the same randomness.
type session struct {
	kind    int
	ids     []uint16 // all participants
	t       int
	k       *SKey
	signers []uint16
	msg     []byte
}

func genSession(r *Run, maxN int) *session {
	s := &session{kind: kindKeygen + r.Choose(2)}
	n := genN(r, 2)
	if n > maxN {
		n = maxN
	}
	if maxN >= 5 && r.Chance(1, 300) {
		if n = 15 + r.Choose(12); r.Chance(1, 4) {
			n += r.Choose(14)
		}
		r.Note(fmt.Sprintf("crowd:%d+", n/10*10))
		s.ids = genIDs(r, n)
		s.t = 1 + r.Choose(3)
	} else {
		s.ids = genIDs(r, n)
		s.t = genT(r, n)
	}
	if s.kind == kindSign {
		s.k = DealKey(r, "", s.ids, s.t)
		s.signers = genSigners(r, s.ids, s.t+1)
		s.msg = genMessage(r)
	} else {
		s.signers = s.ids
	}
	r.Event("session kind=%d ids=%v t=%d parties=%v", s.kind, s.ids, s.t, s.signers)
	return s
}

func (s *session) create(r *Run, id uint16, timeout time.Duration, pass string) *Sess {
	label := fmt.Sprintf("%s%d", pass, id)
	rs := stream(r, fmt.Sprintf("s/%d", id))
	var x *Sess
	if s.kind == kindKeygen {
		x = NewKeygen(r, label, id, s.signers, s.t, timeout, rs)
	} else {
		x = NewSign(r, label, s.signers, s.k.Shares[id], s.k.Public, s.msg, timeout, rs)
	}
	if x.CreateErr != nil {
		r.Discard("a valid session was refused")
	}
	return x
}

// canonical executes the session in lock-step and returns what every party emitted and output.
func (s *session) canonical(r *Run) map[uint16]*Sess {
	var ss []*Sess
	m := map[uint16]*Sess{}
	for _, id := range s.signers {
		x := s.create(r, id, 0, "canonical/")
		ss = append(ss, x)
		m[id] = x
	}
	lockstep(r, ss)
	for _, x := range ss {
		if x.Status() != success {
			r.Discard("the lock-step execution does not succeed")
		}
	}
	return m
}

func (s *session) net(r *Run, timeout func() time.Duration) *Net {
	net := NewNet(r)
	for _, id := range s.signers {
		nd := &Node{ID: id}
		to := timeout()
		nd.Create = func() { nd.S = s.create(r, id, to, "") }
		net.Add(nd)
	}
	return net
}

func (s *session) firstType() byte {
	if s.kind == kindKeygen {
		return ref.KG1
	}
	return ref.SG1
}

func emissions(s *Sess) []string {
	var l []string
	for _, e := range s.Out {
		l = append(l, fmt.Sprintf("%x", e.Enc))
	}
	sort.Strings(l)
	return l
}

func compareWith(r *Run, canon map[uint16]*Sess, net *Net) {
	for _, nd := range net.Nodes {
		c := canon[nd.ID]
		if st := nd.S.Status(); st != success {
			r.Fail("outcome", "all messages were delivered and %s was asked to process after each, but it is %s; in lock-step it succeeds", nd.S.Label, nd.S.Describe())
		}
		a, b := emissions(c), emissions(nd.S)
		if fmt.Sprint(a) != fmt.Sprint(b) {
			r.Fail("emissions", "%s emitted %d messages that differ from the %d of the lock-step execution with the same randomness (%s)", nd.S.Label, len(b), len(a), firstDiff(a, b))
		}
		if x, y := c.OutputBytes(), nd.S.OutputBytes(); x != y {
			r.Fail("output", "the output of %s differs from the lock-step execution with the same randomness: %s / %s", nd.S.Label, y, x)
		}
	}
}

func firstDiff(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "-", "-"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("%.24s.. / %.24s..", x, y)
		}
	}
	return "order"
}

// stage is how far the messages delivered to nd allow it to be: 0 not started, 1 first round done, 2 second, 3 finished.
func (s *session) stage(nd *Node) int {
	if !nd.Started {
		return 0
	}
	got := [2]map[uint16]bool{{}, {}}
	for _, p := range nd.Heard {
		from, to := uint16(p.Enc[1])<<8|uint16(p.Enc[2]), uint16(p.Enc[3])<<8|uint16(p.Enc[4])
		if from == nd.ID || !has(s.signers, from) || (to != 0 && to != nd.ID) {
			continue
		}
		if i := int(p.Type) - int(s.firstType()); i == 0 || i == 1 {
			got[i][from] = true
		}
	}
	st := 1
	for i := 0; i < 2 && len(got[i]) == len(s.signers)-1; i++ {
		st++
	}
	return st
}

// checkStage fails if a party asked to process after each delivery has not advanced as far as it can.
func (s *session) checkStage(r *Run, nd *Node) {
	if !nd.Each || nd.S == nil {
		return
	}
	st := s.stage(nd)
	n := 0
	for _, e := range nd.S.Out {
		if e.Type == s.firstType() {
			n |= 1
		}
		if e.Type == s.firstType()+1 {
			n |= 2
		}
	}
	want := map[int]int{0: 0, 1: 1, 2: 3, 3: 3}[st]
	if n != want {
		r.Fail("lag", "%s has every message needed for round %d but emitted only the kinds %b", nd.S.Label, st-1, n)
	}
	if st == 3 && nd.S.Status() != success {
		r.Fail("lag", "%s has received everything and was asked to process after each message, but is %s", nd.S.Label, nd.S.Describe())
	}
}

// scenSolo gives one party everything the others sent in the lock-step execution, in any order at all: the others' messages
// are fixed, so even a message that answers one of the party's own can arrive before the party has taken its first step.
func scenSolo(r *Run) {
	if r.Chance(1, 150) {
		s, me, in, canon := crowdInbox(r, kindKeygen+r.Choose(2))
		if canon[me].Status() != success {
			r.Discard("the lock-step execution does not succeed")
		}
		solo(r, s, me, in, canon)
		return
	}
	s := genSession(r, 14)
	canon := s.canonical(r)
	me := s.signers[r.Choose(len(s.signers))]
	var in [][]byte
	for _, id := range s.signers {
		if id == me {
			continue
		}
		for _, e := range canon[id].Out {
			if e.To == 0 || e.To == me {
				in = append(in, e.Enc)
			}
		}
	}
	solo(r, s, me, in, canon)
}

// crowdInbox is a session of up to some hundred parties of which only one runs the library, and what the others send to it.
// In canon, it has received all that round by round.
func crowdInbox(r *Run, kind int) (s *session, me uint16, in [][]byte, canon map[uint16]*Sess) {
	s = &session{kind: kind}
	n := 40 + r.Choose(100)
	if r.Chance(1, 3) {
		n = 250 + r.Choose(20)
	}
	s.ids, s.t = genIDs(r, n), 1+r.Choose(3)
	s.signers = s.ids
	r.Note(fmt.Sprintf("crowd:%d+", n/50*50))
	if s.kind == kindSign {
		s.k = DealKey(r, "", s.ids, s.t)
		s.msg = genMessage(r)
	}
	r.Event("crowd kind=%d ids=%v t=%d", s.kind, s.ids, s.t)
	me = s.ids[r.Choose(n)]
	x := s.create(r, me, 0, "canonical/")
	rs := randScalars(r.Seed, "crowd")
	d, e := map[uint16]*ref.Scalar{}, map[uint16]*ref.Scalar{}
	var last [][]byte
	for _, id := range without(s.ids, me) {
		if s.kind == kindKeygen {
			p := ref.NewKeygenParty(id, s.ids, s.t, rs)
			in = append(in, p.Msg1())
			last = append(last, ref.EncKG2(id, me, p.ShareFor(me)))
		} else {
			d[id], e[id] = rs(), rs()
			in = append(in, ref.EncSG1(id, ref.Base(d[id]), ref.Base(e[id])))
		}
	}
	x.Process()
	for _, b := range in {
		x.HandleBytes(b)
	}
	x.Process()
	if s.kind == kindSign {
		if len(x.Out) == 0 {
			r.Fail("lag", "%s does not emit its first message", x.Label)
		}
		D, E := map[uint16]*ref.Pt{}, map[uint16]*ref.Pt{}
		for _, b := range append(in[:len(in):len(in)], x.Out[0].Enc) {
			m, err := ref.Decode(b)
			if err != nil {
				r.Discard("undecodable first message")
			}
			D[m.From], E[m.From] = m.D, m.E
		}
		tr := ref.NewSignTranscript(s.ids, s.msg, s.k.Key.Group, D, E)
		for _, id := range without(s.ids, me) {
			z := ref.SAdd(d[id], ref.SMul(e[id], tr.Rho[id]))
			z = ref.SAdd(z, ref.SMul(ref.SMul(ref.Lagrange(id, s.ids, ref.SInt(0)), s.k.Secret[id]), tr.C))
			last = append(last, ref.EncSG2(id, z))
		}
	}
	for _, b := range last {
		x.HandleBytes(b)
	}
	x.Process()
	return s, me, append(in, last...), map[uint16]*Sess{me: x}
}

// crowdCompletes: the one real party of a crowd ends successfully, whatever the order of its messages.
func crowdCompletes(r *Run, kind int) {
	s, me, in, canon := crowdInbox(r, kind)
	x := s.create(r, me, genTimeout(r), "")
	first := r.Choose(len(in) + 1)
	order := r.Perm(len(in))
	if r.Chance(1, 2) { // the last kind first
		sort.SliceStable(order, func(i, j int) bool { return in[order[i]][0] > in[order[j]][0] })
	}
	each := r.Chance(1, 2)
	for i, j := range order {
		if i == first {
			x.Process()
		}
		x.HandleBytes(in[j])
		if r.Chance(1, 20) {
			r.Fault("duplicate")
			x.HandleBytes(in[order[r.Choose(i+1)]])
		}
		if i >= first && each {
			x.Process()
		}
		r.Sched(8, j)
	}
	for i := 0; i < 3; i++ {
		x.Process()
	}
	for _, x := range []*Sess{canon[me], x} {
		if x.Status() != success {
			r.Fail("incomplete", "all messages of %d parties were delivered but %s is %s", len(s.signers), x.Label, x.Describe())
		}
		if kind == kindKeygen {
			checkKeygenOutput(r, x, s.ids, s.t, true)
		} else {
			checkSignature(r, x, s.k.Group, s.k.Public.GroupKey, s.msg)
		}
	}
	r.Sample = fmt.Sprintf("kind=%d, %d parties: %d succeeds", kind, len(s.signers), me)
}

// solo hands in to a new session of me in any order and compares it with that of the lock-step execution.
func solo(r *Run, s *session, me uint16, in [][]byte, canon map[uint16]*Sess) {
	mode := r.Choose(4)
	order := r.Perm(len(in))
	switch mode {
	case 1: // the last kind first
		sort.SliceStable(order, func(i, j int) bool { return in[order[i]][0] > in[order[j]][0] })
	case 2: // sender by sender
		sort.SliceStable(order, func(i, j int) bool {
			a, b := in[order[i]], in[order[j]]
			return string(a[1:3]) < string(b[1:3])
		})
	}
	x := s.create(r, me, 0, "solo/")
	nd := &Node{ID: me, S: x, Each: true}
	first := r.Choose(len(order) + 1) // the first step comes after this many messages
	if r.Chance(1, 3) {
		first = len(order)
	}
	each := r.Chance(2, 3)
	dup := r.Chance(1, 3)
	r.Event("solo %d receives %d messages in order %v, first step after %d, each=%v", me, len(in), order, first, each)
	r.Sched(7, len(order), first)
	feed := func(i int) {
		if x.Status() != running {
			return
		}
		r.Sched(8, i, 0)
		x.HandleBytes(in[i])
		nd.Heard = append(nd.Heard, &Pkt{Enc: in[i], Type: in[i][0]})
	}
	for i := 0; i <= len(order); i++ {
		if i == first {
			x.Process()
			nd.Started = true
			s.checkStage(r, nd)
		}
		if i == len(order) {
			break
		}
		feed(order[i])
		if dup && r.Chance(1, 4) {
			feed(order[r.Choose(i+1)])
		}
		if nd.Started && (each || r.Chance(1, 4)) {
			x.Process()
			if len(order) < 60 || r.Chance(1, 20) {
				s.checkStage(r, nd)
			}
		}
	}
	x.Process()
	s.checkStage(r, nd)
	compareWith(r, canon, &Net{Nodes: []*Node{nd}})
	r.Note("solo")
	r.Sample = fmt.Sprintf("kind=%d parties=%v t=%d: %d is given all %d messages in the order %v", s.kind, s.signers, s.t, me, len(in), order)
}

func scenC03(r *Run) {
	if r.Chance(1, 4) {
		scenSolo(r)
		return
	}
	s := genSession(r, 9)
	canon := s.canonical(r)
	net := s.net(r, func() time.Duration { return genTimeout(r) })
	for _, nd := range net.Nodes {
		nd.Each = !r.Chance(1, 5)
	}
	net.Configure()
	net.Kinds.lateStart = true
	for _, nd := range net.Nodes {
		nd.Late = nd.Late || r.Chance(1, 3)
	}
	last := map[int]int{}
	net.OnStep = func() {
		for _, nd := range net.Nodes {
			if x := len(nd.Heard)*2 + b2i(nd.Started); last[nd.Slot] != x {
				last[nd.Slot] = x
				s.checkStage(r, nd)
			}
		}
	}
	net.Run(nil)
	for _, nd := range net.Nodes {
		s.checkStage(r, nd)
	}
	compareWith(r, canon, net)
	r.Sample = fmt.Sprintf("kind=%d parties=%v t=%d policy=%s: %d steps, same messages and outputs as in lock-step", s.kind, s.signers, s.t, polNames[net.Policy], net.Steps)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// junk crafts a message that must have no effect on nd; nil if the drawn kind does not apply now.
func (s *session) junk(r *Run, net *Net, nd *Node) (b []byte, obj *messages.Message, what string) {
	rs := randScalars(r.Seed, fmt.Sprintf("junk/%d", net.Steps))
	others := without(s.signers, nd.ID)
	peer := others[r.Choose(len(others))]
	mk := func(t byte, from, to uint16) []byte {
		switch t {
		case ref.KG1:
			p := ref.Poly{}
			for i := 0; i <= s.t; i++ {
				p = append(p, rs())
			}
			pr, rr := ref.Prove(from, p[0], rs())
			return ref.EncKG1(from, pr, rr, p.Commit())
		case ref.KG2:
			return ref.EncKG2(from, to, rs())
		case ref.SG1:
			return ref.EncSG1(from, ref.Base(rs()), ref.Base(rs()))
		}
		return ref.EncSG2(from, rs())
	}
	toFor := func(t byte, to uint16) uint16 {
		if t == ref.KG2 {
			return to
		}
		return 0
	}
	ft := s.firstType()
	heard := func(t byte, from uint16) bool {
		for _, p := range nd.Heard {
			if p.Type == t && uint16(p.Enc[1])<<8|uint16(p.Enc[2]) == from && (p.Enc[3] == 0 && p.Enc[4] == 0 || uint16(p.Enc[3])<<8|uint16(p.Enc[4]) == nd.ID) {
				return true
			}
		}
		return false
	}
	switch r.Choose(8) {
	case 0: // exact repetition
		if len(nd.Heard) == 0 {
			return nil, nil, ""
		}
		b := nd.Heard[r.Choose(len(nd.Heard))].Enc
		if to := uint16(b[3])<<8 | uint16(b[4]); to != 0 && to != nd.ID {
			return b, nil, "misaddressed"
		}
		return b, nil, "repeat"
	case 1: // second, conflicting message of a kind already received
		t := ft + byte(r.Choose(2))
		if !heard(t, peer) {
			return nil, nil, ""
		}
		return mk(t, peer, toFor(t, nd.ID)), nil, "conflict"
	case 2: // pretending to come from the receiver itself
		t := ft + byte(r.Choose(2))
		return mk(t, nd.ID, toFor(t, nd.ID)), nil, "self"
	case 3: // from somebody who does not take part
		t := ft + byte(r.Choose(2))
		x := uint16(1 + r.Choose(65535))
		if has(s.signers, x) {
			return nil, nil, ""
		}
		return mk(t, x, toFor(t, nd.ID)), nil, "outsider"
	case 4: // addressed to somebody else
		x := peer
		if r.Chance(1, 3) {
			x = uint16(1 + r.Choose(65535))
		}
		if x == nd.ID {
			return nil, nil, ""
		}
		from := others[r.Choose(len(others))]
		return mk(ref.KG2, from, x), nil, "misaddressed"
	case 5: // another protocol
		t := byte(ref.KG1+ref.SG1) - ft + byte(r.Choose(2))
		return mk(t, peer, toFor(t, nd.ID)), nil, "other-protocol"
	case 6: // no type, as an object
		return nil, &messages.Message{Header: messages.Header{Type: messages.MessageTypeNone, From: party.ID(peer)}}, "typeless"
	}
	// broadcast kind made private or private kind broadcast, as objects
	m, err := decode(r, mk(ft+1, peer, toFor(ft+1, nd.ID)))
	if err != nil || s.kind != kindSign {
		return nil, nil, ""
	}
	x := uint16(1 + r.Choose(65535))
	if x == nd.ID {
		return nil, nil, ""
	}
	m.To = party.ID(x)
	return nil, m, "misaddressed-object"
}

// scenAfterAbort: a party that has aborted refuses everything too.
func scenAfterAbort(r *Run) {
	var net *Net
	if r.Chance(1, 2) {
		net = genKgAttack(r, true).net
	} else {
		net = genSgAttack(r, func(n, t int) int { return 1 }, true).net
	}
	net.Configure()
	stop := -1
	if r.Chance(1, 3) {
		stop = r.Choose(6 * len(net.Nodes))
	}
	net.Run(func() bool { return stop >= 0 && net.Steps > stop })
	time.Sleep(tenHours)
	synctest.Wait()
	var all [][]byte
	for _, nd := range net.Nodes {
		if nd.S == nil {
			continue
		}
		for _, e := range nd.S.Out {
			all = append(all, e.Enc)
		}
		for _, p := range nd.Heard {
			all = append(all, p.Enc)
		}
	}
	n := 0
	for _, nd := range net.Nodes {
		if nd.S == nil || nd.S.Status() != failed {
			continue
		}
		n++
		what := nd.S.Describe()
		for i := 0; i < 8 && len(all) > 0; i++ {
			b := all[r.Choose(len(all))]
			r.Fault("inject:after-abort")
			if m, err := decode(r, b); err == nil && nd.S.Handle(m) == nil {
				r.Fail("accepted-late", "%s has finished (%s) but accepted a further message (type %d from %d to %d)", nd.S.Label, what, m.Type, m.From, m.To)
			}
			if es := nd.S.Process(); len(es) > 0 {
				r.Fail("emitted", "%s has finished but emitted %d messages", nd.S.Label, len(es))
			}
		}
		if d := nd.S.Describe(); d != what {
			r.Fail("effect", "messages after the end turned %s from %s into %s", nd.S.Label, what, d)
		}
	}
	r.Trivial = n == 0
	r.Sample = fmt.Sprintf("%d parties aborted, and refused every message from then on", n)
}

// scenAhead: one party is given the messages of both rounds in any order, many of them long before their round, with messages that
// must have no effect among them. The order of their arrival must not matter for which of two conflicting messages counts.
func scenAhead(r *Run) {
	s := genSession(r, 6)
	canon := s.canonical(r)
	me := s.signers[r.Choose(len(s.signers))]
	var in [][]byte
	for _, id := range without(s.signers, me) {
		for _, e := range canon[id].Out {
			if e.To == 0 || e.To == me {
				in = append(in, e.Enc)
			}
		}
	}
	order := r.Perm(len(in))
	switch r.Choose(3) {
	case 1: // the last kind first
		sort.SliceStable(order, func(i, j int) bool { return in[order[i]][0] > in[order[j]][0] })
	case 2: // sender by sender
		sort.SliceStable(order, func(i, j int) bool { return string(in[order[i]][1:3]) < string(in[order[j]][1:3]) })
	}
	x := s.create(r, me, genTimeout(r), "ahead/")
	nd := &Node{ID: me, Name: "ahead", S: x, Each: true}
	net := NewNet(r)
	first := r.Choose(len(order) + 1)
	if r.Chance(1, 3) {
		first = len(order)
	}
	each := r.Chance(2, 3)
	rate := 1 + r.Choose(4)
	injected := 0
	r.Event("%d receives %d messages in order %v, first step after %d, each=%v", me, len(in), order, first, each)
	r.Sched(7, len(order), first)
	for i := 0; i <= len(order); i++ {
		if i == first {
			x.Process()
			nd.Started = true
		}
		for r.Chance(rate, 5) && injected < 60 {
			net.Steps++
			b, obj, what := s.junk(r, net, nd)
			if b == nil && obj == nil {
				continue
			}
			before := x.Status()
			r.Event("inject %s (%s)", what, before)
			r.Fault("inject:" + what)
			r.Sched(9, i, len(what))
			injected++
			var err error
			if obj != nil {
				err = x.Handle(obj)
			} else {
				err = x.HandleBytes(b)
			}
			mine := what != "self" && what != "misaddressed" && what != "misaddressed-object"
			switch {
			case before != running && err == nil:
				r.Fail("accepted-late", "%s is %s but accepted a further message (%s)", x.Label, before, what)
			case before == running && !mine && err != nil:
				r.Fail("not-ignored", "%s reports an error for a message that is none of its business (%s): %v", x.Label, what, err)
			case before == running && mine && err == nil:
				r.Fail("not-refused", "%s reports no error for a message that it does not use (%s)", x.Label, what)
			}
			if after := x.Status(); after != before {
				r.Fail("effect", "a message that must be ignored (%s) turned %s from %s into %s", what, x.Label, before, x.Describe())
			}
		}
		if i == len(order) {
			break
		}
		if x.Status() == running {
			x.HandleBytes(in[order[i]])
			nd.Heard = append(nd.Heard, &Pkt{Enc: in[order[i]], Type: in[order[i]][0]})
			r.Sched(8, order[i], 0)
		}
		if nd.Started && (each || r.Chance(1, 4)) {
			x.Process()
		}
	}
	x.Process()
	compareWith(r, canon, &Net{Nodes: []*Node{nd}})
	r.Note("ahead")
	r.Trivial = injected == 0
	r.Sample = fmt.Sprintf("kind=%d parties=%v: %d is given its %d messages in the order %v with %d ineffective ones among them", s.kind, s.signers, me, len(in), order, injected)
}

func scenC04(r *Run) {
	if r.Chance(1, 12) {
		scenAfterAbort(r)
		return
	}
	if r.Chance(1, 5) {
		scenAhead(r)
		return
	}
	s := genSession(r, 7)
	canon := s.canonical(r)
	net := s.net(r, func() time.Duration { return genTimeout(r) })
	for _, nd := range net.Nodes {
		nd.Each = r.Chance(3, 4)
	}
	net.Configure()
	rate := 1 + r.Choose(3)
	left := 40
	injected := 0
	net.Inject = func() bool {
		if left == 0 || !r.Chance(rate, 5) {
			return false
		}
		left--
		nd := net.Nodes[r.Choose(len(net.Nodes))]
		if !nd.Created {
			return false
		}
		b, obj, what := s.junk(r, net, nd)
		if b == nil && obj == nil {
			return false
		}
		before := nd.S.Status()
		r.Event("inject %s into %s (%s)", what, nd.Name, before)
		r.Fault("inject:" + what)
		r.Sched(9, nd.Slot, len(what))
		injected++
		var err error
		if obj != nil {
			err = nd.S.Handle(obj)
		} else {
			err = nd.S.HandleBytes(b)
		}
		if before != running && err == nil {
			r.Fail("accepted-late", "%s is %s but accepted a further message (%s)", nd.S.Label, before, what)
		}
		if before == running {
			switch what {
			case "self", "misaddressed", "misaddressed-object":
				if err != nil {
					r.Fail("not-ignored", "%s reports an error for a message that is none of its business (%s): %v", nd.S.Label, what, err)
				}
			default:
				if err == nil {
					r.Fail("not-refused", "%s reports no error for a message that it does not use (%s)", nd.S.Label, what)
				}
			}
		}
		if nd.Started && !nd.dirty {
			if es := nd.S.Process(); len(es) > 0 {
				r.Fail("emitted", "%s emitted %d messages because of a message that must be ignored (%s)", nd.S.Label, len(es), what)
			}
		}
		if after := nd.S.Status(); after != before {
			r.Fail("effect", "a message that must be ignored (%s) turned %s from %s into %s", what, nd.S.Label, before, nd.S.Describe())
		}
		return true
	}
	net.Run(nil)
	compareWith(r, canon, net)
	// after the end everything is refused
	for _, nd := range net.Nodes {
		for i := 0; i < 6; i++ {
			b, obj, what := s.junk(r, net, nd)
			net.Steps++
			if b == nil && obj == nil {
				continue
			}
			var err error
			if obj != nil {
				err = nd.S.Handle(obj)
			} else {
				err = nd.S.HandleBytes(b)
			}
			if err == nil {
				r.Fail("accepted-late", "%s has finished but accepted a further message (%s)", nd.S.Label, what)
			}
			if es := nd.S.Process(); len(es) > 0 {
				r.Fail("emitted", "%s has finished but emitted %d messages", nd.S.Label, len(es))
			}
		}
	}
	compareWith(r, canon, net)
	r.Trivial = injected == 0
	r.Sample = fmt.Sprintf("kind=%d parties=%v: %d ineffective messages injected, outcome as without them", s.kind, s.signers, injected)
}
