package main

import (
	"fmt"
	"time"

	"frostsim.local/sim/engine"
	"frostsim.local/sim/ref"
)

func init() {
	register(&Check{ID: "C13", Scenario: scenC13, Quick: 7500, Thorough: 60000, Real: realLib, Stub: stubNet,
		Rule: "one run is a history of sessions over the same key by processes that crash, restart, retry identical inputs and are fed replays; every commitment of the history is compared with every other"})
	register(&Check{ID: "C14", Scenario: scenC14, Quick: 15000, Thorough: 30000, Real: realLib, Stub: stubNet + "; the randomness source delivers short reads and failures",
		Rule: "one run is a session whose randomness arrives in short reads or fails at one read; compared with the same bytes delivered at once, or every delivered byte is changed in turn to see which secret depends on it"})
}

// freshBook remembers every committed value of a history.
type freshBook struct {
	r    *Run
	seen map[string]string
	n    int
}

// add records a commitment and fails if it, or a small multiple or neighbour of it, was committed to before.
func (b *freshBook) add(p *ref.Pt, what string) {
	b.n++
	if p.IsIdentity() {
		b.r.Fail("zero", "%s commits to zero", what)
	}
	put := func(q *ref.Pt, rel string) {
		k := string(q.Enc())
		if o, ok := b.seen[k]; ok {
			b.r.Fail("reuse", "%s%s is the same secret as %s", what, rel, o)
		}
	}
	put(p, "")
	put(p.Neg(), " (negated)")
	one := ref.Base(ref.SInt(1))
	put(p.Sub(one), " (minus one)")
	put(p.Add(one), " (plus one)")
	put(p.Add(p), " (doubled)")
	b.seen[string(p.Enc())] = what
}

func (b *freshBook) emits(s *Sess, es []*Emit) {
	for _, e := range es {
		m, err := ref.Decode(e.Enc)
		if err != nil {
			b.r.Fail("own-message", "%s emitted a message that does not decode: %v", s.Label, err)
		}
		switch m.Type {
		case ref.SG1:
			b.add(m.D, s.Label+" nonce d")
			b.add(m.E, s.Label+" nonce e")
		case ref.KG1:
			for i, c := range m.C {
				b.add(c, fmt.Sprintf("%s coefficient %d", s.Label, i))
			}
			b.add(ref.PoKNonce(m.C[0], m.S, m.R), s.Label+" proof nonce")
		}
	}
}

// sameBytes: at most one message of the kind, counted over the life of a session.
func checkOnce(r *Run, s *Sess) {
	n := map[byte]int{}
	for _, e := range s.Out {
		k := e.Type
		if k == ref.KG2 {
			continue
		}
		n[k]++
		if n[k] > 1 {
			r.Fail("twice", "%s emitted %d messages of type %d: its nonces are used more than once", s.Label, n[k], k)
		}
	}
}

// freshLarge: key generations with a high degree, of which only the first message matters.
func freshLarge(r *Run) {
	n := 8 + r.Choose(50)
	ids := genIDs(r, n)
	t := n - 1 - r.Choose(6)
	book := &freshBook{r: r, seen: map[string]string{}}
	k := 2 + r.Choose(3)
	proc := stream(r, "proc")
	r.Event("%d key generations of %d parties, t=%d", k, n, t)
	for i := 0; i < k; i++ {
		id := ids[r.Choose(n)]
		rs := proc
		if r.Chance(1, 2) {
			rs = stream(r, fmt.Sprintf("proc/%d", i))
		}
		x := NewKeygen(r, fmt.Sprintf("key generation %d of %d", i, id), id, ids, t, 0, rs)
		if x.CreateErr != nil {
			r.Discard("a valid session was refused")
		}
		r.Sched(i, int(id))
		book.emits(x, x.Process())
		if r.Chance(1, 2) {
			book.emits(x, x.Process())
		}
	}
	r.Note("high-degree")
	r.Sample = fmt.Sprintf("%d key generations with t=%d: %d commitments, all different", k, t, book.n)
}

// freshMany: a process opens very many sessions, of which only the first message matters.
func freshMany(r *Run) {
	ids := genIDs(r, 2+r.Choose(2))
	k := someKey(r, "", ids, 1)
	many := 150 + r.Choose(1200)
	me := ids[r.Choose(len(ids))]
	proc := stream(r, "proc")
	seen := map[string]int{}
	msg := genMessage(r)
	keygens := r.Choose(4)
	r.Event("%d sessions of %d", many, me)
	for i := 0; i < many; i++ {
		var x *Sess
		if r.Chance(keygens, 8) {
			x = NewKeygen(r, fmt.Sprintf("key generation %d", i), me, ids, 1, 0, proc)
		} else {
			x = NewSign(r, fmt.Sprintf("session %d", i), ids, k.Shares[me], k.Public, msg, 0, proc)
		}
		if x.CreateErr != nil {
			r.Discard("a valid session was refused")
		}
		for _, e := range x.Process() {
			var cs [][]byte
			switch m, err := ref.Decode(e.Enc); {
			case err != nil:
				r.Fail("own-message", "%s emitted a message that does not decode: %v", x.Label, err)
			case m.Type == ref.SG1:
				cs = append(cs, m.D.Enc(), m.E.Enc())
			case m.Type == ref.KG1:
				for _, c := range m.C {
					cs = append(cs, c.Enc())
				}
			}
			for _, c := range cs {
				if j, ok := seen[string(c)]; ok {
					r.Fail("reuse", "session number %d of the process commits to %x as number %d did", i, c, j)
				}
				seen[string(c)] = i
			}
		}
		r.Sched(i, x.Kind)
	}
	r.Note("many-sessions")
	r.Sample = fmt.Sprintf("%d sessions of one process: %d commitments, all different", many, len(seen))
}

func scenC13(r *Run) {
	if r.Chance(1, 12) {
		freshLarge(r)
		return
	}
	if r.Chance(1, 150) {
		freshMany(r)
		return
	}
	n := 2 + r.Choose(4)
	ids := genIDs(r, n)
	t := genT(r, n)
	k := someKey(r, "", ids, t)
	book := &freshBook{r: r, seen: map[string]string{}}
	// processes: each has its own randomness, a new one after every restart
	inc := map[uint16]int{}
	streams := map[uint16]*engine.Stream{}
	boot := func(id uint16) {
		inc[id]++
		streams[id] = stream(r, fmt.Sprintf("proc/%d/%d", id, inc[id]))
	}
	for _, id := range ids {
		boot(id)
	}
	fresh := r.Chance(1, 2) // every process loads its own copies
	msg := genMessage(r)
	signers := genSigners(r, ids, t+1)
	var old []*Pkt
	rounds := 2 + r.Choose(6)
	crashes, done := 0, 0
	kg := r.Chance(1, 3)
	for s := 0; s < rounds; s++ {
		if !r.Chance(2, 3) {
			msg = genMessage(r)
		}
		if !r.Chance(2, 3) {
			signers = genSigners(r, ids, t+1)
		}
		net := NewNet(r)
		isKg := kg && r.Chance(1, 2)
		members := signers
		if isKg {
			members = ids
		}
		to := []time.Duration{0, time.Minute}[r.Choose(2)]
		for _, id := range members {
			id := id
			nd := &Node{ID: id, Each: r.Chance(1, 2)}
			label := fmt.Sprintf("session %d of %d (start %d)", s, id, inc[id])
			sl := members
			nd.Create = func() {
				switch {
				case isKg:
					nd.S = NewKeygen(r, label, id, ids, t, to, streams[id])
				case fresh:
					nd.S = NewSign(r, label, sl, k.freshShare(id), k.freshPublic(r), msg, to, streams[id])
				default:
					nd.S = NewSign(r, label, sl, k.Shares[id], k.Public, msg, to, streams[id])
				}
				if nd.S.CreateErr != nil {
					r.Discard("a valid session was refused")
				}
			}
			net.Add(nd)
		}
		net.Configure()
		net.OnEmit = func(nd *Node, es []*Emit) {
			book.emits(nd.S, es)
			checkOnce(r, nd.S)
		}
		left := 14
		stopAt := -1
		if r.Chance(1, 2) {
			stopAt = r.Choose(6 * len(members) * len(members))
		}
		net.Inject = func() bool {
			if left == 0 || !r.Chance(1, 4) {
				return false
			}
			left--
			nd := net.Nodes[r.Choose(len(net.Nodes))]
			if !nd.Created || nd.Down {
				return false
			}
			switch r.Choose(5) {
			case 0: // the process crashes; it comes back for the next session only
				if !nd.Started || crashes > 6 {
					return false
				}
				nd.Down = true
				crashes++
				boot(nd.ID)
				r.Event("crash of %s", nd.Name)
				r.Fault("crash")
				r.Sched(20, nd.Slot)
			case 1, 2: // replays and conflicting messages, to get a second share out of it
				var b []byte
				if len(old) > 0 && r.Chance(1, 2) {
					b = old[r.Choose(len(old))].Enc
				} else {
					rs := randScalars(r.Seed, fmt.Sprintf("inj/%d/%d", s, net.Steps))
					o := without(members, nd.ID)
					from := o[r.Choose(len(o))]
					b = ref.EncSG1(from, ref.Base(rs()), ref.Base(rs()))
					if r.Chance(1, 3) {
						b = ref.EncSG2(from, rs())
					}
				}
				r.Event("inject type %d into %s", b[0], nd.Name)
				r.Fault("replay")
				r.Sched(21, nd.Slot, int(b[0]))
				nd.S.HandleBytes(b)
				if nd.Started {
					net.sendEmits(nd, nd.S.Process())
				}
			case 3: // process again
				if nd.Started {
					r.Sched(22, nd.Slot)
					for i := 0; i < 3; i++ {
						net.sendEmits(nd, nd.S.Process())
					}
				}
			case 4:
				if to > 0 && r.Chance(1, 3) {
					r.Event("time passes")
					r.Fault("stall")
					net.finishByTimeout(to)
				}
			}
			return true
		}
		net.Run(func() bool { return stopAt >= 0 && net.Steps > stopAt })
		for _, nd := range net.Nodes {
			old = append(old, nd.Heard...)
			if nd.S == nil || nd.Down {
				continue
			}
			// and once more after the end
			if nd.Started {
				net.sendEmits(nd, nd.S.Process())
			}
			checkOnce(r, nd.S)
			if nd.S.Status() == success {
				done++
			}
		}
		r.Event("session %d ended", s)
	}
	r.Sample = fmt.Sprintf("%d sessions over one key, %d crashes, %d party sessions succeeded: %d commitments, all different", rounds, crashes, done, book.n)
	r.Trivial = book.n < 4
}

// points returns the public points of a session's secrets, in order, from its first message.
func secretPoints(r *Run, es []*Emit) (names []string, pts []string) {
	for _, e := range es {
		m, err := ref.Decode(e.Enc)
		if err != nil {
			r.Discard("a message does not decode")
		}
		switch m.Type {
		case ref.SG1:
			names = append(names, "nonce d", "nonce e")
			pts = append(pts, string(m.D.Enc()), string(m.E.Enc()))
		case ref.KG1:
			for i, c := range m.C {
				names = append(names, fmt.Sprintf("coefficient %d", i))
				pts = append(pts, string(c.Enc()))
			}
			names = append(names, "proof nonce")
			pts = append(pts, string(ref.PoKNonce(m.C[0], m.S, m.R).Enc()))
		}
	}
	return
}

// scenC14 runs one party with a faulty randomness source.
func scenC14(r *Run) {
	s := genSession(r, 5)
	if s.t > 4 {
		s.t = 4
	}
	if r.Chance(1, 8) {
		n := 6 + r.Choose(40)
		s = &session{kind: kindKeygen, ids: genIDs(r, n)}
		s.t = n - 1 - r.Choose(4)
		s.signers = s.ids
		r.Event("high degree %d", s.t)
	}
	self := s.signers[r.Choose(len(s.signers))]
	seed := r.Seed
	mk := func(prep func(*engine.Stream), ok bool) (*Sess, []*Emit) {
		st := engine.NewStream(seed, "subject")
		if prep != nil {
			prep(st)
		}
		var x *Sess
		x = &Sess{}
		if s.kind == kindKeygen {
			x = newKeygenOK(r, "subject", self, s.signers, s.t, st, ok)
		} else {
			x = newSignOK(r, "subject", s, self, st, ok)
		}
		if x.Panic != nil {
			return x, nil
		}
		if x.CreateErr != nil {
			if ok {
				return x, nil
			}
			r.Discard("a valid session was refused")
		}
		return x, x.Process()
	}
	secrets := s.t + 2
	if s.kind == kindSign {
		secrets = 2
	}

	if r.Chance(1, 3) {
		// the source fails at one read and stays broken
		base, es := mk(nil, false)
		_, pts := secretPoints(r, es)
		if len(pts) != secrets {
			r.Discard("no first message")
		}
		at := 1 + r.Choose(base.Rand.Reads+1)
		part := r.Choose(4)
		r.Event("randomness fails at read %d of %d", at, base.Rand.Reads)
		r.Fault("randomness-failure")
		x, es := mk(func(st *engine.Stream) {
			st.FailAt = at
			switch part {
			case 1:
				st.Short = []int{1 + r.Choose(40), 0, 1 + r.Choose(63)}
			case 2:
				// most of a secret has arrived when it fails
				if at > 1 {
					st.Short = make([]int, at-2, at-1)
					st.Short = append(st.Short, 1+r.Choose(63))
				}
			case 3:
				// some bytes arrive together with the error
				st.FailPart = 1 + r.Choose(63)
			}
		}, true)
		drew := x.Rand.Reads >= at
		if drew && len(es) > 0 {
			r.Fail("missing-randomness", "read %d of the randomness source failed, but the party emitted %d messages", at, len(es))
		}
		if drew && x.Panic != nil {
			// a caller that survives the panic and goes on must not get anything either
			x.Panic = nil
			for i := 0; i < 3; i++ {
				if x.St != nil && len(x.Process()) > 0 {
					r.Fail("missing-randomness", "read %d of the randomness source failed, but the party emitted messages when asked again", at)
				}
				x.Panic = nil
			}
		}
		r.Sched(at, x.Rand.Reads)
		r.Trivial = !drew
		r.Sample = fmt.Sprintf("kind=%d t=%d: randomness fails at read %d, nothing emitted", s.kind, s.t, at)
		return
	}

	// short reads
	var short []int
	style := r.Choose(5)
	for i := 0; i < 60+secrets; i++ {
		switch style {
		case 0:
			short = append(short, 1)
		case 1:
			short = append(short, 1+r.Choose(8))
		case 2:
			short = append(short, 1+r.Choose(63))
		case 3:
			short = append(short, []int{0, 0, 0, 31, 32, 33, 63, 1}[r.Choose(8)])
		case 4:
			short = append(short, 0)
		}
	}
	if style == 4 {
		short[r.Choose(2*secrets)] = 1 + r.Choose(63)
	}
	r.Fault("short-read")
	prep := func(st *engine.Stream) { st.Short = append([]int(nil), short...) }
	a, ea := mk(nil, false)
	b, eb := mk(prep, true)
	if b.Panic != nil || b.CreateErr != nil || len(eb) == 0 {
		r.Note("short-read-refused")
		if len(eb) > 0 {
			r.Fail("missing-randomness", "the party crashed on short reads but emitted messages")
		}
		return
	}
	_, pa := secretPoints(r, ea)
	_, pb := secretPoints(r, eb)
	if len(pa) != secrets || len(pb) != secrets {
		r.Discard("no first message")
	}
	r.Sched(b.Rand.Chunks...)
	same := fmt.Sprint(pa) == fmt.Sprint(pb)
	flips := prep
	if same {
		flips = nil
		r.Note("same-as-unsplit")
	}
	if same && !r.Chance(1, 20) {
		// nothing was lost: the same bytes made the same secrets
		r.Sample = fmt.Sprintf("kind=%d t=%d: %d reads instead of %d, same secrets", s.kind, s.t, b.Rand.Reads, a.Rand.Reads)
		return
	}
	total := len(a.Rand.Drawn)
	if !same {
		total = len(b.Rand.Drawn)
	}
	sampled := total > 600
	if sampled && total < 32*secrets {
		r.Fail("weak-secret", "only %d random bytes were drawn for %d secrets", total, secrets)
	}
	cnt := make([]int, secrets)
	names, base := secretPoints(r, eb)
	if same {
		names, base = secretPoints(r, ea)
	}
	for i := 0; i < total; i++ {
		if sampled && !r.Chance(60, total) {
			continue
		}
		x, es := mk(func(st *engine.Stream) {
			if flips != nil {
				flips(st)
			}
			st.Flip = i
		}, true)
		if x.Panic != nil {
			continue
		}
		_, p := secretPoints(r, es)
		if len(p) != secrets {
			continue
		}
		ch := 0
		which := ""
		for j := range p {
			if p[j] != base[j] {
				ch++
				cnt[j]++
				which += names[j] + ", "
			}
		}
		if ch > 1 {
			r.Fail("shared-randomness", "delivered random byte %d determines more than one secret: %s", i, which)
		}
	}
	for j, c := range cnt {
		if c < 32 && !sampled {
			r.Fail("weak-secret", "%s depends on %d delivered random bytes (%d bytes in reads of %v): the rest of it is predictable", names[j], c, total, trimInts(b.Rand.Chunks))
		}
	}
	r.Note("byte-wise")
	r.Sample = fmt.Sprintf("kind=%d t=%d: %d bytes changed one by one, bytes per secret %v", s.kind, s.t, total, cnt)
}

func trimInts(x []int) []int {
	if len(x) > 12 {
		return x[:12]
	}
	return x
}

func newKeygenOK(r *Run, label string, id uint16, ids []uint16, t int, rs *engine.Stream, ok bool) *Sess {
	panicOK = ok
	defer func() { panicOK = false }()
	return NewKeygen(r, label, id, ids, t, 0, rs)
}

func newSignOK(r *Run, label string, s *session, id uint16, rs *engine.Stream, ok bool) *Sess {
	panicOK = ok
	defer func() { panicOK = false }()
	return NewSign(r, label, s.signers, s.k.Shares[id], s.k.Public, s.msg, 0, rs)
}
