package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"testing/synctest"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"

	"frostsim.local/sim/engine"
	"frostsim.local/sim/ref"
)

func init() {
	register(&Check{ID: "C16", Scenario: scenC16, Quick: 8000, Thorough: 100000, Real: realLib, Stub: stubNet,
		Rule: "one run is a session whose emitted messages are encoded again at random later moments, handed over as objects to several receivers of the process, or overwritten by the caller after encoding; compared with the execution that passes fresh bytes only"})
	register(&Check{ID: "C17", Scenario: scenC17, Quick: 2000, Wall: 110 * time.Second, Thorough: 60000, Real: realLib, Stub: stubNet,
		Rule: "one run interleaves 2..5 sessions, some of them aborted, over shared key objects, lists and messages; inputs are compared before and after and every honest session with its execution alone"})
}

func scenC16(r *Run) {
	s := genSession(r, 6)
	canon := s.canonical(r)
	net := s.net(r, func() time.Duration { return genTimeout(r) })
	for _, nd := range net.Nodes {
		nd.Each = r.Chance(3, 4)
	}
	net.Configure()
	mode := r.Pick(3, 3, 2, 2)
	switch mode {
	case 0:
		net.PtrPct = 100
	case 1:
		net.LateEnc = true
		net.PtrPct = []int{0, 50}[r.Choose(2)]
	case 2:
		net.PtrPct = 50
		net.ToAll = false
	}
	r.Note([]string{"shared-objects", "late-encoding", "mixed", "overwritten-after-encoding"}[mode])
	rs := randScalars(r.Seed, "scribble")
	var all []*Emit
	check := func(e *Emit, when string) {
		b, err := encode(r, e.Msg)
		if err != nil {
			r.Fail("encode", "a message of %s (type %d) cannot be encoded any more %s: %v", e.By.Label, e.Type, when, err)
		}
		if !bytes.Equal(b, e.Enc) {
			r.Fail("unstable", "a message of %s (type %d) encodes differently %s: %x instead of %x", e.By.Label, e.Type, when, b, e.Enc)
		}
		// the encoding belongs to the caller
		for i := range b {
			b[i] ^= 0x5a
		}
	}
	net.OnEmit = func(nd *Node, es []*Emit) {
		for _, e := range es {
			if mode == 3 {
				// the caller has encoded it and uses the object for something else
				scribble(e.Msg, func() *ristretto.Scalar { return scal(rs()) })
				if r.Chance(1, 2) {
					e.Msg.From, e.Msg.To, e.Msg.Type = party.ID(r.Choose(65536)), party.ID(r.Choose(65536)), messages.MessageType(r.Choose(6))
				}
				if r.Chance(1, 3) {
					*e.Msg = messages.Message{}
				}
				r.Fault("overwritten")
				continue
			}
			check(e, "right after emission")
			all = append(all, e)
		}
	}
	net.OnStep = func() {
		if len(all) > 0 && r.Chance(1, 6) {
			e := all[r.Choose(len(all))]
			r.Fault("late-encoding")
			check(e, "later in the session")
		}
	}
	net.Run(nil)
	// another session over the same material, then again
	if s.kind == kindSign && r.Chance(1, 2) {
		var ss []*Sess
		for _, id := range s.signers {
			x := NewSign(r, fmt.Sprintf("after/%d", id), s.signers, s.k.Shares[id], s.k.Public, s.msg, 0, stream(r, fmt.Sprintf("after/%d", id)))
			if x.CreateErr == nil {
				ss = append(ss, x)
			}
		}
		lockstep(r, ss)
	}
	if len(all) > 0 && r.Chance(1, 250) {
		// encodings that were made before stay what they are while very many more are made
		var kept [][]byte
		for _, e := range all {
			b, err := encode(r, e.Msg)
			if err != nil {
				r.Fail("unstable", "a message of %d (type %d) cannot be encoded again: %v", e.By.ID, e.Type, err)
			}
			kept = append(kept, b)
		}
		n := 0
		for i := 0; n < 2_000_000; i++ {
			b, _ := encode(r, all[i%len(all)].Msg)
			n += 1 + len(b)
		}
		for i, e := range all {
			if !bytes.Equal(kept[i], e.Enc) {
				r.Fail("unstable", "the encoding of a message of %d (type %d) changes while others are encoded: %x", e.By.ID, e.Type, kept[i])
			}
		}
		r.Note("many-encodings")
	}
	for _, e := range all {
		check(e, "after the end of the session")
	}
	compareWith(r, canon, net)
	r.Sample = fmt.Sprintf("kind=%d parties=%v mode %d: %d emitted messages stable to the end, outcome as with fresh bytes", s.kind, s.signers, mode, len(all))
}

// baton runs functions as coroutines, one at a time.
type baton struct {
	r    *Run
	cos  []*coroutine
	back chan any
}

type coroutine struct {
	resume chan bool
	done   bool
	name   string
}

func newBaton(r *Run) *baton { return &baton{r: r, back: make(chan any)} }

type stopCo struct{}

// add prepares f; yield, which it is given, suspends it.
func (b *baton) add(name string, f func(yield func())) {
	c := &coroutine{resume: make(chan bool), name: name}
	b.cos = append(b.cos, c)
	yield := func() {
		b.back <- nil
		if !<-c.resume {
			panic(stopCo{})
		}
	}
	go func() {
		var res any
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(stopCo); !ok {
					res = p
				}
			}
			c.done = true
			b.back <- res
		}()
		if !<-c.resume {
			panic(stopCo{})
		}
		f(yield)
	}()
}

// run resumes coroutines in an order drawn from the tape until all have ended. A panic in one ends all.
func (b *baton) run() {
	sticky := -1
	for {
		var live []int
		for i, c := range b.cos {
			if !c.done {
				live = append(live, i)
			}
		}
		if len(live) == 0 {
			return
		}
		i := sticky
		if i < 0 || b.cos[i].done || b.r.Chance(1, 3) {
			i = live[b.r.Choose(len(live))]
			sticky = i
		}
		b.r.Sched(30, i)
		b.cos[i].resume <- true
		if p := <-b.back; p != nil {
			b.stop()
			panic(p)
		}
	}
}

func (b *baton) stop() {
	for _, c := range b.cos {
		if !c.done {
			c.resume <- false
			<-b.back
		}
	}
}

func scenC17(r *Run) {
	if r.Chance(1, 3) {
		scenC17Concurrent(r)
		return
	}
	n := 2 + r.Choose(5)
	ids := genIDs(r, n)
	t := genT(r, n)
	k := someKey(r, "", ids, t)
	// the shared inputs
	signers := genSigners(r, ids, t+1)
	back := make(party.IDSlice, len(signers)+3)
	copy(back, idSlice(signers))
	for i := len(signers); i < len(back); i++ {
		back[i] = party.ID(7777 + i)
	}
	shared := back[:len(signers)]
	msgBack := append(genMessage(r), "beyond the end"...)
	msg := msgBack[:len(msgBack)-14]
	snapshot := func() string {
		var b strings.Builder
		b.WriteString(renderPublic(k.Public))
		for _, id := range ids {
			b.WriteString(renderShare(k.Shares[id]))
		}
		fmt.Fprintf(&b, " list %v message %x", back, msgBack)
		return b.String()
	}
	before := snapshot()
	usable := func(tag string) {
		now := snapshot()
		if now != before {
			r.Fail("inputs-changed", "%s the key material, list or message given to the sessions changed: %s", tag, diffAt(before, now))
		}
	}

	type sess struct {
		idx    int
		keygen bool
		abort  int // 0 honest
		net    *Net
		alone  map[uint16][]string
		outs   map[uint16]string
	}
	m := 2 + r.Choose(4)
	var ss []*sess
	for i := 0; i < m; i++ {
		x := &sess{idx: i, keygen: r.Chance(1, 4)}
		if r.Chance(2, 5) {
			x.abort = 1 + r.Choose(4)
		}
		ss = append(ss, x)
	}
	created := map[uint16]bool{} // holders that could create a signing session
	mk := func(x *sess, id uint16, fresh bool, pass string) *Sess {
		st := stream(r, fmt.Sprintf("m%d/%d", x.idx, id))
		label := fmt.Sprintf("%ssession %d of %d", pass, x.idx, id)
		var y *Sess
		switch {
		case x.keygen && fresh:
			y = NewKeygen(r, label, id, signers, min(t, len(signers)-1), 0, st)
		case x.keygen:
			y = newKeygenSlice(r, label, id, shared, min(t, len(signers)-1), st)
		case fresh:
			y = NewSign(r, label, signers, k.freshShare(id), k.freshPublic(r), append([]byte(nil), msg...), 0, st)
		default:
			y = NewSignSlice(r, label, shared, k.Shares[id], k.Public, msg, 0, st)
		}
		if y.CreateErr != nil {
			if created[id] {
				r.Fail("influence", "%s is refused after other sessions over the same inputs were accepted: %v", label, y.CreateErr)
			}
			r.Discard("a valid session was refused")
		}
		created[id] = created[id] || !x.keygen
		return y
	}
	// alone, with copies of everything
	for _, x := range ss {
		if x.abort != 0 {
			continue
		}
		var l []*Sess
		for _, id := range signers {
			l = append(l, mk(x, id, true, "alone: "))
		}
		lockstep(r, l)
		x.alone, x.outs = map[uint16][]string{}, map[uint16]string{}
		for _, y := range l {
			if y.Status() != success {
				r.Discard("the session alone does not succeed")
			}
			x.alone[y.ID], x.outs[y.ID] = emissions(y), y.OutputBytes()
		}
	}
	usable("while sessions ran over copies,")
	b := newBaton(r)
	for _, x := range ss {
		x := x
		net := NewNet(r)
		net.Quiet = true
		x.net = net
		for _, id := range signers {
			id := id
			nd := &Node{ID: id, Each: r.Chance(3, 4)}
			nd.Create = func() { nd.S = mk(x, id, false, "") }
			net.Add(nd)
		}
		net.Configure()
		net.Jitter = 0
		stopAt := -1
		switch x.abort {
		case 1: // crash: everybody stops at some point
			stopAt = r.Choose(5 * len(signers) * len(signers))
			r.Fault("session-crash")
		case 2, 3, 4: // somebody is fed a wrong message
			left := 1 + r.Choose(3)
			net.Inject = func() bool {
				nd := net.Nodes[r.Choose(len(net.Nodes))]
				if left == 0 || !nd.Created || !r.Chance(1, 4) {
					return false
				}
				left--
				rs := randScalars(r.Seed, fmt.Sprintf("inj/%d/%d", x.idx, net.Steps))
				o := without(signers, nd.ID)
				from := o[r.Choose(len(o))]
				var e []byte
				switch {
				case x.keygen && r.Chance(1, 2):
					e = ref.EncKG1(from, rs(), rs(), ref.Commitments{ref.Base(rs()), ref.Base(rs())})
				case x.keygen:
					e = ref.EncKG2(from, nd.ID, rs())
				case r.Chance(1, 2):
					e = ref.EncSG1(from, ref.Identity(), ref.Base(rs()))
				default:
					e = ref.EncSG2(from, rs())
				}
				r.Fault("byzantine-message")
				nd.S.HandleBytes(e)
				if nd.Started {
					net.sendEmits(nd, nd.S.Process())
				}
				return true
			}
		}
		b.add(fmt.Sprint(x.idx), func(yield func()) {
			net.OnStep = func() { yield() }
			net.Run(func() bool { return stopAt >= 0 && net.Steps > stopAt })
			if x.abort != 0 {
				usable(fmt.Sprintf("after session %d was aborted,", x.idx))
			}
		})
	}
	r.Event("%d sessions over ids=%v t=%d signers=%v", m, ids, t, signers)
	b.run()
	for _, x := range ss {
		r.Event("session %d keygen=%v abort=%d: %d steps", x.idx, x.keygen, x.abort, x.net.Steps)
		if x.abort != 0 {
			continue
		}
		for _, nd := range x.net.Nodes {
			if nd.S.Status() != success {
				r.Fail("influence", "%s is %s when it runs together with other sessions, but succeeds alone", nd.S.Label, nd.S.Describe())
			}
			if a, g := fmt.Sprint(x.alone[nd.ID]), fmt.Sprint(emissions(nd.S)); a != g {
				r.Fail("influence", "%s emits other messages when it runs together with other sessions (%s)", nd.S.Label, firstDiff(x.alone[nd.ID], emissions(nd.S)))
			}
			if o := nd.S.OutputBytes(); o != x.outs[nd.ID] {
				r.Fail("influence", "%s outputs %s when it runs together with other sessions and %s alone", nd.S.Label, o, x.outs[nd.ID])
			}
		}
	}
	usable("after all sessions,")
	// the key is still good
	final := &sess{idx: 1000}
	var l []*Sess
	for _, id := range signers {
		l = append(l, mk(final, id, false, "final: "))
	}
	lockstep(r, l)
	for _, y := range l {
		if y.Status() != success {
			r.Fail("unusable", "after the other sessions the key cannot sign any more: %s is %s", y.Label, y.Describe())
		}
		checkSignature(r, y, k.Group, k.Public.GroupKey, msg)
	}
	usable("after the final session,")
	r.Sample = fmt.Sprintf("%d interleaved sessions over one key (ids=%v t=%d signers=%v): inputs unchanged, each as if alone, key still usable", m, ids, t, signers)
}

// c17party is a party of one of several sessions that run in goroutines of their own.
type c17party struct {
	label  string
	rand   string
	keygen bool
	id     uint16
	ids    []uint16
	peers  []*c17party
	box    mailbox
	expect int
	pick   []int  // which of the waiting messages is handed over next
	proc   []bool // process after this message
	wrong  int    // the share received with this number is replaced by
	value  []byte
	honest bool
	s      *Sess
	out    []string
	bad    string
	panic  *engine.CodePanic
}

// mailbox passes messages between goroutines without synchronising them in the eyes of the race detector.
type mailbox struct {
	buf   [1 << 14]byte
	used  int
	from  [64]int
	to    [64]int
	n     int
	taken [64]bool
	left  int
}

//go:norace
func (b *mailbox) put(m []byte) {
	if b.n == len(b.from) || b.used+len(m) > len(b.buf) {
		panic("mailbox full")
	}
	b.from[b.n] = b.used
	for i := 0; i < len(m); i++ {
		b.buf[b.used] = m[i]
		b.used++
	}
	b.to[b.n] = b.used
	b.n++
	b.left++
}

// size returns the length of the waiting message that number pick chooses, and which it is.
//
//go:norace
func (b *mailbox) size(pick int) (int, int) {
	pick %= b.left
	for i := 0; ; i++ {
		if b.taken[i] {
			continue
		}
		if pick == 0 {
			return b.to[i] - b.from[i], i
		}
		pick--
	}
}

//go:norace
func (b *mailbox) get(i int, dst []byte) {
	for j := 0; j < len(dst); j++ {
		dst[j] = b.buf[b.from[i]+j]
	}
	b.taken[i] = true
	b.left--
}

// receive waits for a message, nil at the end of the simulation.
func (b *mailbox) receive(c *client, pick int) []byte {
	if !mailWait(c, b) {
		return nil
	}
	n, i := b.size(pick)
	dst := make([]byte, n)
	b.get(i, dst)
	return dst
}

//go:norace
func mailWait(c *client, b *mailbox) bool {
	if b.left == 0 {
		park(c, func() bool { return mailReady(b) })
	}
	return b.left > 0
}

//go:norace
func mailReady(b *mailbox) bool { return b.left > 0 || mailClosed }

//go:norace
func closeMail(v bool) { mailClosed = v }

var mailClosed bool

// run takes part in a session.
func (p *c17party) run(c *client, create func(s *Sess)) {
	s := p.s
	create(s)
	if s.CreateErr != nil {
		p.bad = "is refused: " + s.CreateErr.Error()
		return
	}
	var all []*messages.Message
	process := func() {
		for _, m := range s.St.ProcessAll() {
			b, err := m.MarshalBinary()
			if err != nil {
				p.bad = "emits a message that cannot be encoded: " + err.Error()
			}
			p.out = append(p.out, string(b)) // no fmt here: its pools would order the goroutines
			all = append(all, m)
			for _, o := range p.peers {
				if to := uint16(b[3])<<8 | uint16(b[4]); to == 0 || to == o.id {
					o.box.put(b)
				}
			}
		}
	}
	process()
	shares := 0
	for i := 0; i < p.expect; i++ {
		b := p.box.receive(c, p.pick[i])
		if b == nil {
			break
		}
		if !p.honest && (b[0] == ref.KG2 || b[0] == ref.SG2) {
			if shares == p.wrong {
				copy(b[len(b)-32:], p.value)
			}
			shares++
		}
		m := new(messages.Message)
		if err := m.UnmarshalBinary(b); err != nil {
			p.bad = "cannot decode a message: " + err.Error()
			return
		}
		for j := range b {
			b[j] = 0xa5
		}
		s.St.HandleMessage(m)
		if p.proc[i] || p.box.idle() {
			process()
		}
	}
	for i := 0; i < 3; i++ {
		process()
	}
	for i, m := range all {
		if b, err := m.MarshalBinary(); err != nil || string(b) != p.out[i] {
			p.bad = "emitted a message that has changed since"
		}
	}
}

//go:norace
func (b *mailbox) idle() bool { return b.left == 0 }

// scenC17Concurrent: the sessions run in concurrent goroutines over the same objects, interleaved statement by statement.
func scenC17Concurrent(r *Run) {
	n := 2 + r.Choose(3)
	ids := genIDs(r, n)
	t := genT(r, n)
	k := someKey(r, "", ids, t)
	signers := genSigners(r, ids, t+1)
	back := make(party.IDSlice, len(signers)+3)
	copy(back, idSlice(signers))
	shared := back[:len(signers)]
	msgBack := append(genMessage(r), "beyond the end"...)
	msg := msgBack[:len(msgBack)-14]
	snapshot := func(pub *eddsa.Public, shares map[uint16]*eddsa.SecretShare) string {
		var b strings.Builder
		b.WriteString(renderPublic(pub))
		for _, id := range ids {
			b.WriteString(renderShare(shares[id]))
		}
		fmt.Fprintf(&b, " list %v message %x", back, msgBack)
		return b.String()
	}
	before := snapshot(k.Public, k.Shares)
	// objects nobody has used yet
	pub, shares := k.freshPublic(r), map[uint16]*eddsa.SecretShare{}
	for _, id := range ids {
		shares[id] = k.freshShare(id)
	}
	kt := min(t, len(signers)-1)
	var groups [][]*c17party
	var ps []*c17party
	m := 2 + r.Choose(3)
	for i := 0; i < m && len(ps)+len(signers) <= 12; i++ {
		keygen := r.Chance(1, 3)
		bad := r.Chance(1, 5)
		if bad {
			r.Fault("byzantine-message")
		}
		var g []*c17party
		for _, id := range signers {
			p := &c17party{label: fmt.Sprintf("session %d of %d", i, id), rand: fmt.Sprintf("m%d/%d", i, id), keygen: keygen, id: id, ids: signers, honest: !bad, expect: 2 * (len(signers) - 1)}
			for range p.expect {
				p.pick = append(p.pick, r.Choose(64))
				p.proc = append(p.proc, r.Chance(1, 2))
			}
			p.wrong, p.value = r.Choose(len(signers)), randScalars(r.Seed, "bad "+p.rand)().Bytes()
			p.s = &Sess{r: r, Label: p.label, ID: p.id, Kind: kindSign, Rand: stream(r, p.rand)}
			if keygen {
				p.s.Kind = kindKeygen
			}
			g = append(g, p)
		}
		for _, p := range g {
			for _, o := range g {
				if o != p {
					p.peers = append(p.peers, o)
				}
			}
		}
		groups = append(groups, g)
		ps = append(ps, g...)
	}
	r.Event("%d parties in goroutines over ids=%v t=%d signers=%v", len(ps), ids, t, signers)
	races := synctest.RaceErrors()
	r.NextMapSeed()
	closeMail(false)
	schedStart()
	for _, p := range ps {
		p := p
		spawn(p.s.Rand, func(c *client) {
			p.panic = engine.Guard(func() {
				p.run(c, func(s *Sess) {
					if p.keygen {
						s.St, s.KG, s.CreateErr = frost.NewKeygenState(party.ID(p.id), shared, party.Size(kt), 0)
					} else {
						s.St, s.SG, s.CreateErr = frost.NewSignState(shared, shares[p.id], pub, msg, 0)
					}
				})
			})
		})
	}
	// the key is looked at meanwhile
	look := ""
	if r.Chance(1, 2) {
		id := ids[r.Choose(len(ids))]
		js, jp := mustJSON(k.Shares[id]), mustJSON(k.Public)
		rs, rp := renderShare(k.Shares[id]), renderPublic(k.Public)
		spawn(nil, func(*client) {
			if cp := engine.Guard(func() {
				for i := 0; i < 2; i++ {
					a, e1 := pub.MarshalJSON()
					b, e2 := shares[id].MarshalJSON()
					if e1 != nil || e2 != nil || !bytes.Equal(a, jp) || !bytes.Equal(b, js) {
						look = fmt.Sprintf("has the JSON forms %s and %s (%v, %v)", a, b, e1, e2)
					}
					if p, s := renderPublic(pub), renderShare(shares[id]); p != rp || s != rs {
						look = "is " + p + s
					}
				}
			}); cp != nil {
				look = fmt.Sprint("panics: ", cp.Value)
			}
		})
	}
	closed := false
	steps := schedule(r, func(idle bool) bool {
		if !idle || closed {
			return false
		}
		closed = true
		closeMail(true)
		return true
	})
	left, _ := unfinished()
	synctest.Wait()
	schedStop()
	if n := synctest.RaceErrors(); n > races {
		r.Fail("race", "the race detector reports %d data races between sessions in different goroutines", n-races)
	}
	if left > 0 {
		r.Fail("influence", "%d sessions wait for ever when they run in concurrent goroutines", left)
	}
	r.Note("concurrent-goroutines")
	if look != "" {
		r.Fail("inputs-changed", "while sessions run, the key %s", look)
	}
	for _, g := range groups {
		// alone, with copies of everything
		var l []*Sess
		for _, p := range g {
			if p.panic != nil {
				r.Fail("crash", "%s panicked when it ran concurrently with others: %v [%s]", p.label, p.panic.Value, p.panic.Stack)
			}
			st := stream(r, p.rand)
			var y *Sess
			if p.keygen {
				y = NewKeygen(r, "alone: "+p.label, p.id, signers, kt, 0, st)
			} else {
				y = NewSign(r, "alone: "+p.label, signers, k.freshShare(p.id), k.freshPublic(r), append([]byte(nil), msg...), 0, st)
			}
			if y.CreateErr != nil {
				r.Discard("a valid session was refused")
			}
			l = append(l, y)
		}
		if !g[0].honest {
			continue
		}
		lockstep(r, l)
		for i, y := range l {
			p := g[i]
			if y.Status() != success {
				r.Discard("the session alone does not succeed")
			}
			if p.bad != "" {
				r.Fail("influence", "%s %s when it runs concurrently with others", p.label, p.bad)
			}
			if st := p.s.Status(); st != success {
				r.Fail("influence", "%s is %s when it runs concurrently with others, but succeeds alone", p.label, p.s.Describe())
			}
			p.out = hexAll(p.out)
			sort.Strings(p.out)
			if d := firstDiff(emissions(y), p.out); d != "order" {
				r.Fail("influence", "%s emits other messages when it runs concurrently with others (%s)", p.label, d)
			}
			if a, o := y.OutputBytes(), p.s.OutputBytes(); a != o {
				r.Fail("influence", "%s outputs %s when it runs concurrently with others and %s alone", p.label, o, a)
			}
		}
	}
	if now := snapshot(pub, shares); now != before {
		r.Fail("inputs-changed", "after concurrent sessions the key material, list or message given to them changed: %s", diffAt(before, now))
	}
	r.Sample = fmt.Sprintf("%d parties of %d sessions in concurrent goroutines over one key (ids=%v t=%d signers=%v), %d scheduling steps: inputs unchanged, each as if alone", len(ps), m, ids, t, signers, steps)
}

func mustJSON(v json.Marshaler) []byte {
	b, err := v.MarshalJSON()
	if err != nil {
		panic(err)
	}
	return b
}

func newKeygenSlice(r *Run, label string, id uint16, ids party.IDSlice, t int, rs *engine.Stream) *Sess {
	keygenSlice = ids
	defer func() { keygenSlice = nil }()
	return NewKeygen(r, label, id, nil, t, 0, rs)
}

func diffAt(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := max(0, i-20)
	cut := func(s string) string {
		if lo >= len(s) {
			return ""
		}
		return s[lo:min(len(s), i+40)]
	}
	return fmt.Sprintf("%q became %q", cut(a), cut(b))
}
