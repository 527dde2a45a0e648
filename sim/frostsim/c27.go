package main

import (
	"fmt"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"

	"frostsim.local/sim/engine"
	"frostsim.local/sim/ref"
	"frostsim.local/sim/simrt"
)

func init() {
	register(&Check{ID: "C27", Scenario: scenC27, Quick: 6000, Thorough: 120000, Real: realLib, Stub: stubNet,
		Rule: "one run has a dealer make one to three keys, from concurrent callers or with a faulty randomness source, checks them and signs with the holders under a random schedule with faults"})
}

// deal is one call of the library's dealer.
type deal struct {
	ids    []uint16
	t      int
	list   party.IDSlice
	rs     *engine.Stream
	secret *ristretto.Scalar
	shares map[party.ID]*eddsa.SecretShare
	public *eddsa.Public
	panic  *engine.CodePanic
	shown  string
}

func (d *deal) call() {
	d.panic = engine.Guard(func() {
		d.secret, d.shares = helpers.GenerateSecrets(d.list, party.Size(d.t))
	})
	if d.panic != nil {
		return
	}
	d.panic = engine.Guard(func() { d.public = helpers.GeneratePublic(party.Size(d.t), d.shares) })
}

func (d *deal) run(r *Run) {
	old := rnd.Cur
	rnd.Cur = d.rs
	r.NextMapSeed()
	d.call()
	rnd.Cur = old
}

func (d *deal) render() string {
	s := fmt.Sprintf("secret %x %s", d.secret.Bytes(), renderPublic(d.public))
	for _, id := range d.ids {
		s += renderShare(d.shares[party.ID(id)])
	}
	return s
}

// key checks everything about one dealt key and returns it.
func (d *deal) key(r *Run) *SKey {
	if fmt.Sprint(d.list) != fmt.Sprint(idSlice(d.ids)) {
		r.Fail("input-changed", "dealing a key changed the caller's list of parties from %v to %v", d.ids, d.list)
	}
	if d.secret == nil || d.public == nil {
		r.Fail("incomplete", "the dealer returns no secret or no public data")
	}
	if len(d.shares) != len(d.ids) {
		r.Fail("incomplete", "%d parties are dealt %d shares", len(d.ids), len(d.shares))
	}
	k := &ref.Key{IDs: d.ids, T: d.t, Secret: map[uint16]*ref.Scalar{}, Pub: map[uint16]*ref.Pt{}}
	sk := &SKey{Key: k, Shares: map[uint16]*eddsa.SecretShare{}, Public: d.public}
	for _, id := range d.ids {
		s := d.shares[party.ID(id)]
		if s == nil || uint16(s.ID) != id {
			r.Fail("incomplete", "%d is dealt no share of its own", id)
		}
		sk.Shares[id] = s
		k.Secret[id] = toScalar(&s.Secret)
		k.Pub[id] = ref.Base(k.Secret[id])
		if !k.Pub[id].Eq(toPt(&s.Public)) {
			r.Fail("own-share", "the dealt share of %d has a public key that does not belong to it", id)
		}
	}
	x := toScalar(d.secret)
	k.Group = ref.Base(x)
	if ref.SZero(x) {
		r.Fail("weak", "the dealt secret is zero")
	}
	p := d.public
	if fmt.Sprint(p.PartyIDs) != fmt.Sprint(idSlice(d.ids)) || int(p.Threshold) != d.t || len(p.Shares) != len(d.ids) {
		r.Fail("public", "the public data of a key dealt to %v with threshold %d is %s", d.ids, d.t, renderPublic(p))
	}
	for _, id := range d.ids {
		e := p.Shares[party.ID(id)]
		if e == nil || !toPt(e).Eq(k.Pub[id]) {
			r.Fail("public", "the public share of %d does not belong to the share it was dealt", id)
		}
	}
	if !keyPt(r, p.GroupKey).Eq(k.Group) {
		r.Fail("public", "the group key does not belong to the dealt secret")
	}
	// threshold+1 shares determine the secret, threshold do not
	for try := 0; try < 3; try++ {
		sub := pickIDs(r, d.ids, d.t+1)
		if !ref.SEq(ref.InterpolateScalars(sub, k.Secret, ref.SInt(0)), x) {
			r.Fail("reconstruct", "the shares of %v do not determine the secret dealt with threshold %d", sub, d.t)
		}
		if ref.SEq(ref.InterpolateScalars(sub[:d.t], k.Secret, ref.SInt(0)), x) {
			r.Fail("too-few", "the shares of %v are enough to determine a secret dealt with threshold %d", sub[:d.t], d.t)
		}
	}
	return sk
}

// coefficients are those of the polynomial behind the shares.
func (d *deal) coefficients(k *SKey) []*ref.Scalar { return coefficients(d.ids[:d.t+1], k.Secret) }

func scenC27(r *Run) {
	mk := func(i int) *deal {
		n := genN(r, 2)
		if n > 14 {
			n = 14
		}
		if r.Chance(1, 60) {
			n = 20 + r.Choose(40)
		}
		d := &deal{ids: genIDs(r, n), t: 1 + r.Choose(n-1)}
		if r.Chance(1, 3) {
			d.t = n - 1
		}
		d.list = idSlice(d.ids)
		d.rs = stream(r, fmt.Sprintf("dealer/%d", i))
		return d
	}
	if r.Chance(1, 20) {
		wholeSet(r)
	}
	if r.Chance(1, 150) {
		manyHolders(r)
		return
	}
	if r.Chance(1, 3) {
		faultyDealer(r, mk(0))
		return
	}
	var ds []*deal
	for i := 0; i < 1+r.Choose(3); i++ {
		d := mk(i)
		if i > 0 && r.Chance(1, 2) {
			// the same arguments once more
			d.ids, d.t, d.list = ds[0].ids, ds[0].t, idSlice(ds[0].ids)
			if r.Chance(1, 2) {
				d.list = ds[0].list
			}
		}
		ds = append(ds, d)
	}
	r.Event("%d keys: first %v threshold %d", len(ds), ds[0].ids, ds[0].t)
	if len(ds) > 1 && r.Chance(1, 3) {
		// from concurrent callers
		r.NextMapSeed()
		schedStart()
		for _, d := range ds {
			d := d
			spawn(d.rs, func(*client) { d.call() })
		}
		schedule(r, func(bool) bool { return false })
		schedStop()
		r.Note("concurrent-dealers")
	} else {
		for _, d := range ds {
			d.run(r)
			if d.panic == nil && d.secret != nil && d.public != nil && len(d.shares) == len(d.ids) {
				d.shown = d.render()
			}
		}
	}
	var ks []*SKey
	seen := map[string]string{}
	for i, d := range ds {
		if d.panic != nil {
			r.Fail("crash", "dealing a key to %v with threshold %d panicked: %v [%s]", d.ids, d.t, d.panic.Value, d.panic.Stack)
		}
		k := d.key(r)
		ks = append(ks, k)
		for j, c := range d.coefficients(k) {
			what := fmt.Sprintf("coefficient %d of key %d", j, i)
			if o := seen[string(c.Bytes())]; o != "" || ref.SZero(c) {
				r.Fail("not-fresh", "%s is zero or equals %s", what, o)
			}
			seen[string(c.Bytes())] = what
		}
	}
	if r.Chance(1, 4) {
		impossibleThreshold(r, ds[0])
	}
	// the keys work
	k := ks[r.Choose(len(ks))]
	signers := genSigners(r, k.IDs, k.T+1)
	if len(signers) > 8 && k.T+1 <= 8 {
		signers = sortedIDs(pickIDs(r, k.IDs, k.T+1+r.Choose(8-k.T)))
	}
	ok := 0
	if len(signers) <= 12 {
		msg := genMessage(r)
		net := NewNet(r)
		for _, id := range signers {
			if r.Chance(1, 4) {
				refSignNode(net, id, signers, k.Key, msg)
			} else {
				addSign(net, id, signers, k.Shares[id], k.Public, msg, 0, "")
			}
		}
		net.Configure()
		net.Run(nil)
		for _, nd := range net.Nodes {
			if !nd.Real() {
				continue
			}
			if nd.S.Status() != success {
				r.Fail("unusable", "signers %v of a key dealt with threshold %d received everything, but %s is %s", signers, k.T, nd.S.Label, nd.S.Describe())
			}
			checkSignature(r, nd.S, k.Group, k.Public.GroupKey, msg)
			ok++
		}
		if len(k.IDs) > k.T && k.T >= 2 && r.Chance(1, 3) {
			// too few of them
			few := sortedIDs(pickIDs(r, k.IDs, 2+r.Choose(k.T-1)))
			r.Fault("too-few-signers")
			var ss []*Sess
			for _, id := range few {
				s := NewSign(r, fmt.Sprintf("few/%d", id), few, k.Shares[id], k.Public, msg, 0, stream(r, fmt.Sprintf("few/%d", id)))
				if s.CreateErr != nil {
					ss = nil
					break
				}
				ss = append(ss, s)
			}
			lockstep(r, ss)
			for _, s := range ss {
				if s.Status() == success {
					r.Fail("too-few", "%d signers succeed with a key dealt with threshold %d", len(few), k.T)
				}
			}
		}
	}
	for _, d := range ds {
		if d.shown != "" && d.render() != d.shown {
			r.Fail("changed", "a dealt key has changed since: it was %s and is %s", d.shown, d.render())
		}
	}
	r.Sched(len(ds), ok)
	r.Sample = fmt.Sprintf("%d keys dealt, %d sessions of %v signed", len(ds), ok, signers)
}

// manyHolders: more holders, or a higher threshold, than one byte can count.
func manyHolders(r *Run) {
	n := 250 + r.Choose(60)
	d := &deal{ids: genIDs(r, n), t: n - 1 - r.Choose(5), rs: stream(r, "dealer")}
	if r.Chance(1, 3) {
		d.t = 1 + r.Choose(n-1)
	}
	d.list = idSlice(d.ids)
	r.Event("%d holders, threshold %d", n, d.t)
	r.Note("many-holders")
	d.run(r)
	if d.panic != nil {
		r.Fail("crash", "dealing a key to %d holders with threshold %d panicked: %v [%s]", n, d.t, d.panic.Value, d.panic.Stack)
	}
	k := d.key(r)
	seen := map[string]bool{}
	for j, c := range d.coefficients(k) {
		if seen[string(c.Bytes())] || ref.SZero(c) {
			r.Fail("not-fresh", "coefficient %d of a key with threshold %d is zero or occurs twice", j, d.t)
		}
		seen[string(c.Bytes())] = true
	}
	r.Sched(n, d.t)
	r.Sample = fmt.Sprintf("one key dealt to %d holders with threshold %d", n, d.t)
}

// wholeSet: the helper for party sets yields 1..n, up to the largest n.
func wholeSet(r *Run) {
	n := r.Choose(65536)
	switch r.Choose(4) {
	case 0:
		n = []int{0, 1, 2, 255, 256, 257, 32767, 32768, 65534, 65535}[r.Choose(10)]
	case 1:
		n = r.Choose(100)
	}
	simrt.Steps, simrt.Limit = 0, stepLimit(n, 0)
	var l party.IDSlice
	cp := engine.Guard(func() { l = helpers.GenerateSet(party.Size(n)) })
	simrt.Limit = 1 << 62
	if cp != nil {
		r.Fail("crash", "making the set of %d parties panicked: %v [%s]", n, cp.Value, cp.Stack)
	}
	if len(l) != n || int(l.N()) != n {
		r.Fail("set", "the set of %d parties has %d members", n, len(l))
	}
	for i, id := range l {
		if int(id) != i+1 {
			r.Fail("set", "member %d of the set of %d parties is %d", i, n, id)
		}
	}
	r.Note("whole-set")
}

// impossibleThreshold: nothing is dealt that the parties could never use.
func impossibleThreshold(r *Run, o *deal) {
	n := len(o.ids)
	t := []int{n, n + 1, 2*n + r.Choose(50), 65534, 65535}[r.Choose(5)]
	r.Fault("impossible-threshold")
	d := &deal{ids: o.ids, t: t, list: idSlice(o.ids), rs: stream(r, "impossible")}
	d.run(r)
	if d.secret != nil || d.shares != nil || d.public != nil {
		r.Fail("impossible", "a key is dealt to %d parties with threshold %d", n, t)
	}
	pts := map[party.ID]*ristretto.Element{}
	for id, e := range o.public.Shares {
		pts[id] = e
	}
	var p, q *eddsa.Public
	var err error
	engine.Guard(func() { p = helpers.GeneratePublic(party.Size(t), o.shares) })
	if cp := engine.Guard(func() { q, err = eddsa.NewPublic(pts, party.Size(t)) }); cp != nil {
		r.Fail("crash", "making public data of %d shares with threshold %d panicked: %v [%s]", n, t, cp.Value, cp.Stack)
	}
	if p != nil || q != nil || err == nil {
		r.Fail("impossible", "public data is made of %d shares with threshold %d", n, t)
	}
}

// faultyDealer: a faulty randomness source deals no weak key.
func faultyDealer(r *Run, d *deal) {
	if len(d.ids) > 6 {
		d.ids = d.ids[:6]
		d.list = idSlice(d.ids)
		d.t = min(d.t, 5)
	}
	again := func(prep func(*engine.Stream)) *deal {
		x := &deal{ids: d.ids, t: d.t, list: idSlice(d.ids), rs: stream(r, "dealer/0")}
		prep(x.rs)
		x.run(r)
		return x
	}
	d.run(r)
	if d.panic != nil {
		r.Fail("crash", "dealing a key to %v with threshold %d panicked: %v [%s]", d.ids, d.t, d.panic.Value, d.panic.Stack)
	}
	base := d.coefficients(d.key(r))
	if r.Chance(1, 2) {
		at := 1 + r.Choose(d.rs.Reads)
		part := r.Chance(1, 2)
		r.Event("randomness fails at read %d of %d", at, d.rs.Reads)
		r.Fault("randomness-failure")
		x := again(func(s *engine.Stream) {
			s.FailAt = at
			if part {
				s.Short = []int{1 + r.Choose(40), 0, 1 + r.Choose(63)}
			}
		})
		if x.rs.Reads >= at && (x.shares != nil || x.public != nil) {
			r.Fail("missing-randomness", "read %d of the randomness source failed, but a key was dealt", at)
		}
		r.Sched(at, part2int(part))
		r.Sample = fmt.Sprintf("randomness fails at read %d: no key", at)
		return
	}
	var short []int
	for i := 0; i < 40*(d.t+1); i++ {
		short = append(short, []int{0, 0, 1, 31, 32, 33, 63, 1 + r.Choose(63)}[r.Choose(8)])
	}
	r.Fault("short-read")
	prep := func(s *engine.Stream) { s.Short = append([]int(nil), short...) }
	x := again(prep)
	if x.panic != nil {
		r.Note("short-read-refused")
		return
	}
	now := x.coefficients(x.key(r))
	same := true
	for j := range now {
		same = same && ref.SEq(now[j], base[j])
	}
	r.Sample = fmt.Sprintf("%d reads instead of %d, same=%v", x.rs.Reads, d.rs.Reads, same)
	r.Sched(x.rs.Chunks...)
	if same && !r.Chance(1, 10) {
		return
	}
	cnt := make([]int, len(now))
	for i := range x.rs.Drawn {
		y := again(func(s *engine.Stream) { prep(s); s.Flip = i })
		if y.panic != nil || len(y.shares) != len(d.ids) {
			continue
		}
		ch := 0
		for j, c := range y.coefficients(y.key(r)) {
			if !ref.SEq(c, now[j]) {
				cnt[j]++
				ch++
			}
		}
		if ch > 1 {
			r.Fail("shared-randomness", "random byte %d determines %d coefficients", i, ch)
		}
	}
	for j, c := range cnt {
		if c < 32 {
			r.Fail("weak", "coefficient %d depends on %d delivered random bytes", j, c)
		}
	}
}

func part2int(b bool) int {
	if b {
		return 1
	}
	return 0
}
