package main

import (
	"fmt"
	"sort"
	"strings"

	"frostsim.local/sim/ref"
)

// ---- dishonest participants of key generation

var kgOffences = []string{"none", "random-proof", "zero-challenge", "copied", "stolen-proof", "rogue-key", "wrong-degree", "bumped-S", "bumped-R",
	"no-nonce-in-hash", "no-public-in-hash", "no-id-in-hash", "other-id", "nonce-zero", "swapped-SR", "negated-commitment", "made-up-proof"}

type kgByz struct {
	id       uint16
	ids      []uint16
	t        int
	what     string
	plain    bool // not dishonest at all
	wait     bool // speaks after having heard every honest broadcast
	early    bool // sends shares together with the broadcast
	poly     ref.Poly
	com      ref.Commitments
	rs       ref.RandScalar
	spoke    bool
	shared   bool
	heard    map[uint16]*ref.Msg
	badShare map[uint16]*ref.Scalar // replacement of (kind 0) or offset to (kind 1) the share of a victim
	badKind  map[uint16]int
	honest   []uint16
	peers    []*kgByz
	equiv    map[uint16]*kgByz // different broadcast and shares for some receivers
	twice    bool              // sends a second, different broadcast later
	odd      string            // an unusual contribution with a proof that is nevertheless in order
	nonce    *ref.Scalar       // nonce of the proof, if it is an unusual one
	past     *ref.Msg          // a valid broadcast of an earlier session of this process
}

// oddities are contributions that no honest party makes but whose sender does know the secret behind them.
var kgOddities = []string{"zero-constant", "zero-top", "all-zero", "one", "same-coefficients", "only-constant", "zero-nonce", "nonce-is-secret", "minus-one", "peer", "minus-peer"}

func (b *kgByz) makeOdd(r *Run, peers []*kgByz) {
	b.odd = kgOddities[r.Choose(len(kgOddities))]
	z := func(i int, x *ref.Scalar) {
		if i < len(b.poly) {
			b.poly[i] = x
		}
	}
	switch b.odd {
	case "zero-constant":
		z(0, ref.SInt(0))
	case "zero-top":
		z(len(b.poly)-1, ref.SInt(0))
	case "all-zero", "one", "minus-one", "same-coefficients":
		x := b.rs()
		switch b.odd {
		case "all-zero":
			x = ref.SInt(0)
		case "one":
			x = ref.SInt(1)
		case "minus-one":
			x = ref.SNeg(ref.SInt(1))
		}
		for i := range b.poly {
			z(i, x)
		}
	case "only-constant":
		for i := 1; i < len(b.poly); i++ {
			z(i, ref.SInt(0))
		}
	case "zero-nonce":
		b.nonce = ref.SInt(0)
	case "nonce-is-secret":
		b.nonce = b.poly[0]
	case "peer", "minus-peer":
		if len(peers) == 0 {
			return
		}
		q := peers[r.Choose(len(peers))].poly
		for i := range b.poly {
			if i < len(q) {
				x := q[i]
				if b.odd == "minus-peer" {
					x = ref.SNeg(x)
				}
				b.poly[i] = x
			}
		}
	}
}

func (b *kgByz) offends() bool { return b.what != "none" }

func newKgByz(r *Run, id uint16, ids []uint16, t int, honest []uint16, tag string) *kgByz {
	b := &kgByz{id: id, ids: ids, t: t, what: "none", honest: honest, rs: randScalars(r.Seed, fmt.Sprintf("byz%s/%d", tag, id)), heard: map[uint16]*ref.Msg{},
		badShare: map[uint16]*ref.Scalar{}, badKind: map[uint16]int{}}
	for i := 0; i <= t; i++ {
		b.poly = append(b.poly, b.rs())
	}
	return b
}

func (b *kgByz) needsVictim() bool {
	return b.what == "copied" || b.what == "stolen-proof" || b.what == "rogue-key"
}

// broadcast makes the offending first message.
func (b *kgByz) broadcast(r *Run) []byte {
	k := b.rs()
	if b.nonce != nil {
		k = b.nonce
	}
	c := b.poly.Commit()
	s, z := ref.Prove(b.id, b.poly[0], k)
	var victim *ref.Msg
	if b.needsVictim() {
		var l []int
		for id := range b.heard {
			l = append(l, int(id))
		}
		sort.Ints(l)
		if len(l) > 0 {
			victim = b.heard[uint16(l[r.Choose(len(l))])]
		}
	}
	switch b.what {
	case "random-proof":
		s, z = b.rs(), b.rs()
	case "zero-challenge":
		// with a challenge that is always zero any R is a proof for any public value
		c[0] = ref.Base(b.rs()).Add(ref.Base(b.rs()))
		s = ref.SInt(0)
	case "copied": // somebody else's message as it is
		if victim != nil {
			c, s, z = victim.C, victim.S, victim.R
		} else {
			s = b.rs()
		}
	case "stolen-proof": // somebody else's constant and proof, own other coefficients
		if victim != nil {
			c[0], s, z = victim.C[0], victim.S, victim.R
		} else {
			s = b.rs()
		}
	case "rogue-key": // the group key is to become Base(b.poly[0])
		x := c[0]
		for _, m := range b.heard {
			x = x.Sub(m.C[0])
		}
		c[0] = x
		switch r.Choose(3) {
		case 0: // proof for the key it wants instead
		case 1:
			s, z = ref.SInt(0), b.rs()
		case 2: // proof of a made-up nonce
			s = ref.PoKChallenge(b.id, c[0], ref.Base(k))
			z = k
		}
	case "wrong-degree":
		p := append(ref.Poly{}, b.poly...)
		switch r.Choose(4) {
		case 0:
			p = append(p, b.rs())
		case 1:
			p = p[:len(p)-1]
		case 2:
			for i := 0; i < 1+r.Choose(8); i++ {
				p = append(p, b.rs())
			}
		case 3:
			p = p[:1]
		}
		b.poly = p
		c = p.Commit()
	case "bumped-S":
		s = ref.SAdd(s, ref.SInt(1))
	case "bumped-R":
		z = ref.SAdd(z, ref.SInt(1))
	case "no-nonce-in-hash": // S does not depend on the nonce: no knowledge needed
		c[0] = ref.Base(b.rs())
		s = ref.Hash([]byte{byte(b.id >> 8), byte(b.id)}, make([]byte, 32), c[0].Enc())
		z = b.rs()
	case "no-public-in-hash": // the public value is chosen after the challenge
		m := ref.Base(k)
		s = ref.Hash([]byte{byte(b.id >> 8), byte(b.id)}, make([]byte, 32), m.Enc())
		z = b.rs()
		c[0] = ref.Base(z).Sub(m).Mul(ref.SInv(s))
	case "no-id-in-hash":
		s = ref.Hash(make([]byte, 32), c[0].Enc(), ref.Base(k).Enc())
		z = ref.SAdd(ref.SMul(b.poly[0], s), k)
	case "other-id": // a proof bound to another participant
		o := without(b.ids, b.id)
		s, z = ref.Prove(o[r.Choose(len(o))], b.poly[0], k)
	case "old-proof": // the proof of an earlier session for another contribution
		s, z = b.past.S, b.past.R
		switch r.Choose(4) {
		case 1: // close to the earlier contribution
			c[0] = b.past.C[0].Add(ref.Base(ref.SInt(1)))
		case 2:
			c[0] = b.past.C[0].Neg()
		case 3: // the earlier commitments, but for the first
			copy(c[1:], b.past.C[1:])
		}
	case "nonce-zero": // a well-formed proof with the S of another nonce
		s, _ = ref.Prove(b.id, b.poly[0], ref.SInt(0))
	case "swapped-SR":
		s, z = z, s
	case "negated-commitment":
		c[0] = c[0].Neg()
	case "made-up-proof": // of values that a lenient verifier may take for something else
		l := []*ref.Scalar{ref.SInt(0), ref.SInt(1), ref.SNeg(ref.SInt(1)), b.poly[0], k, s, z, ref.SNeg(s), ref.SNeg(z), ref.PoKChallenge(b.id, c[0], c[0])}
		s0, z0 := s, z
		s = l[r.Choose(len(l))]
		if z = l[r.Choose(len(l))]; r.Chance(1, 3) {
			z = s
		}
		if ref.SEq(s, s0) && ref.SEq(z, z0) {
			z = ref.SAdd(z, ref.SInt(1))
		}
	}
	b.com = c
	return ref.EncKG1(b.id, s, z, c)
}

func (b *kgByz) share(to uint16) *ref.Scalar {
	x := b.poly.Eval(ref.SID(to))
	if d, ok := b.badShare[to]; ok {
		switch b.badKind[to] {
		case 0:
			return d
		case 1:
			return ref.SAdd(x, d)
		case 2: // the share of somebody else
			o := without(b.ids, to)
			return b.poly.Eval(ref.SID(o[int(to)%len(o)]))
		case 3:
			return ref.SNeg(x)
		case 4:
			return ref.SInt(0)
		}
	}
	return x
}

func (b *kgByz) act(r *Run, net *Net, nd *Node, p *Pkt) {
	if p != nil {
		if len(p.Enc) > 2 && !has(b.honest, uint16(p.Enc[1])<<8|uint16(p.Enc[2])) {
			// not interesting
		} else if m, err := ref.Decode(p.Enc); err == nil && m.Type == ref.KG1 && has(b.honest, m.From) {
			b.heard[m.From] = m
		}
	} else {
		nd.Started = true
	}
	if !nd.Started {
		return
	}
	if !b.spoke && (!b.wait || len(b.heard) == len(b.honest)) {
		b.spoke = true
		enc := b.broadcast(r)
		for _, o := range net.Nodes {
			if o.Slot == nd.Slot {
				continue
			}
			e := enc
			if alt := b.equiv[o.ID]; alt != nil {
				alt.heard = b.heard
				e = alt.broadcast(r)
			}
			net.Send(nd.Slot, o.Slot, e, "byz "+b.what)
		}
		if b.twice {
			c := newKgByz(r, b.id, b.ids, b.t, b.honest, "twice")
			net.SendEnc(nd.Slot, c.broadcast(r), "byz second broadcast")
		}
	}
	if b.spoke && !b.shared && (b.early || len(b.heard) == len(b.honest)) {
		b.shared = true
		for _, o := range net.Nodes {
			if o.Slot == nd.Slot {
				continue
			}
			z := b.share(o.ID)
			if alt := b.equiv[o.ID]; alt != nil {
				z = alt.share(o.ID)
			}
			net.Send(nd.Slot, o.Slot, ref.EncKG2(b.id, o.ID, z), "byz share")
		}
	}
}

// kgAttack is a key generation with dishonest participants.
type kgAttack struct {
	ids, honest []uint16
	t           int
	net         *Net
	byz         []*kgByz
	bcast       map[uint16]bool            // offenders by broadcast
	odd         map[uint16]bool            // unusual contributions, which may be accepted or blamed
	share       map[uint16]map[uint16]bool // victim -> offenders by share
	acc1        map[uint16]map[uint16][]byte
}

func (a *kgAttack) offenders() map[uint16]bool {
	m := map[uint16]bool{}
	for id := range a.bcast {
		m[id] = true
	}
	for _, v := range a.share {
		for id := range v {
			m[id] = true
		}
	}
	return m
}

// genCrowd draws a committee of which few are parties of the library, few are dishonest, and the rest are honest parties of the
// independent implementation.
func genCrowd(r *Run) (ids []uint16, t int, bad []uint16, plain map[uint16]bool) {
	n := 20 + r.Choose(16)
	if r.Chance(1, 4) {
		n += r.Choose(30)
	}
	ids = genIDs(r, n)
	t = 1 + r.Choose(4)
	if r.Chance(1, 6) {
		t = genT(r, n)
	}
	r.Note(fmt.Sprintf("crowd:%d+", n/10*10))
	plain = map[uint16]bool{}
	nb := 1 + r.Choose(3)
	real := 2 + r.Choose(2)
	for j, i := range r.Perm(n) {
		switch {
		case j < real:
			continue
		case j >= real+nb:
			plain[ids[i]] = true
		}
		bad = append(bad, ids[i])
	}
	return
}

func genKgAttack(r *Run, equivocate bool) *kgAttack {
	if r.Chance(1, 120) {
		ids, t, bad, plain := genCrowd(r)
		return kgAttackOf(r, ids, t, bad, plain, equivocate, "")
	}
	n := genAttackN(r)
	ids := genIDs(r, n)
	t := genT(r, n)
	nb := 1 + r.Choose(n-1)
	if r.Chance(1, 2) {
		nb = 1
	}
	var bad []uint16
	for _, i := range r.Perm(n)[:nb] {
		bad = append(bad, ids[i])
	}
	return kgAttackOf(r, ids, t, bad, nil, equivocate, "")
}

// kgAttackOf is a key generation in which bad are dishonest, except for plain ones; tag tells it apart from others of the same parties.
func kgAttackOf(r *Run, ids []uint16, t int, bad []uint16, plain map[uint16]bool, equivocate bool, tag string) *kgAttack {
	a := &kgAttack{ids: ids, t: t, bcast: map[uint16]bool{}, odd: map[uint16]bool{}, share: map[uint16]map[uint16]bool{}, acc1: map[uint16]map[uint16][]byte{}}
	for _, id := range a.ids {
		if !has(bad, id) {
			a.honest = append(a.honest, id)
		}
	}
	a.net = NewNet(r)
	byID := map[uint16]*kgByz{}
	for _, id := range a.ids {
		if has(a.honest, id) {
			addKeygen(a.net, id, a.ids, a.t, genTimeout(r), tag)
			continue
		}
		b := newKgByz(r, id, a.ids, a.t, a.honest, tag)
		b.wait = r.Chance(1, 2)
		b.early = r.Chance(1, 2)
		if plain[id] {
			b.plain = true
		} else if r.Pick(2, 3) == 1 {
			b.what = kgOffences[1+r.Choose(len(kgOffences)-1)]
			if b.needsVictim() {
				b.wait = true
			}
			a.bcast[id] = true
			r.Fault("byzantine:" + b.what)
		} else if r.Chance(1, 2) {
			b.makeOdd(r, a.byz)
			a.odd[id] = true
			r.Fault("unusual-contribution:" + b.odd)
		}
		a.byz = append(a.byz, b)
		byID[id] = b
		nd := &Node{ID: id, Name: fmt.Sprintf("byz%d", id), Created: true}
		nd.Byz = func(nd *Node, p *Pkt) { b.act(r, a.net, nd, p) }
		a.net.Add(nd)
	}
	blame := func(v, b uint16) {
		if a.share[v] == nil {
			a.share[v] = map[uint16]bool{}
		}
		a.share[v][b] = true
	}
	var actors []*kgByz
	for _, b := range a.byz {
		if !b.plain {
			actors = append(actors, b)
		}
	}
	// wrong shares
	for _, b := range actors {
		if len(a.bcast) > 0 && !r.Chance(1, 3) || !r.Chance(3, 4) {
			continue
		}
		for _, v := range a.honest {
			if !r.Chance(1, 2) {
				continue
			}
			b.badKind[v] = r.Choose(5)
			b.badShare[v] = b.rs()
			if b.badKind[v] == 1 && r.Chance(1, 2) {
				b.badShare[v] = ref.SInt(1)
			}
			if !b.offends() && ref.SEq(b.share(v), b.poly.Eval(ref.SID(v))) {
				delete(b.badShare, v)
				continue
			}
			blame(v, b.id)
			r.Fault("byzantine:wrong-share")
		}
	}
	// two colluders whose errors cancel
	if len(actors) >= 2 && r.Chance(1, 2) {
		x, y := actors[0], actors[1]
		v := a.honest[r.Choose(len(a.honest))]
		d := x.rs()
		x.badKind[v], y.badKind[v] = 1, 1
		x.badShare[v], y.badShare[v] = d, ref.SNeg(d)
		blame(v, x.id)
		blame(v, y.id)
		r.Fault("byzantine:cancelling-shares")
	}
	if equivocate {
		for _, b := range actors {
			if !r.Chance(2, 3) {
				continue
			}
			b.equiv = map[uint16]*kgByz{}
			for _, v := range a.honest {
				if !r.Chance(1, 2) {
					continue
				}
				alt := newKgByz(r, b.id, a.ids, a.t, a.honest, fmt.Sprintf("alt%d", v))
				if r.Chance(1, 3) {
					// same constant, different polynomial
					alt.poly[0] = b.poly[0]
				}
				if r.Chance(1, 5) {
					alt.makeOdd(r, []*kgByz{b})
					r.Fault("unusual-contribution:" + alt.odd)
				}
				if r.Chance(1, 4) {
					alt.what = kgOffences[r.Choose(len(kgOffences))]
				}
				b.equiv[v] = alt
				r.Fault("byzantine:equivocation")
			}
			b.twice = r.Chance(1, 4)
		}
	}
	r.Event("attack ids=%v t=%d honest=%v broadcast=%v shares=%v", a.ids, a.t, a.honest, keysOf(a.bcast), keysOf(a.share))
	for _, b := range actors {
		r.Event("byz %d: %s%s wait=%v early=%v bad shares for %v equivocates to %v", b.id, b.what, b.odd, b.wait, b.early, keysOf(b.badShare), keysOf(b.equiv))
	}
	a.net.OnHandled = func(nd *Node, p *Pkt, err error) {
		if err != nil || p.Type != ref.KG1 {
			return
		}
		if a.acc1[nd.ID] == nil {
			a.acc1[nd.ID] = map[uint16][]byte{}
		}
		from := uint16(p.Enc[1])<<8 | uint16(p.Enc[2])
		if a.acc1[nd.ID][from] == nil {
			a.acc1[nd.ID][from] = p.Enc
		}
	}
	return a
}

func keysOf[V any](m map[uint16]V) []int {
	l := []int{}
	for k := range m {
		l = append(l, int(k))
	}
	sort.Ints(l)
	return l
}

// ---- dishonest signers

var sgOffences = []string{"none", "identity-D", "identity-E", "identity-both", "bumped", "random", "negated", "zero", "unweighted", "other-message",
	"other-share", "no-binding", "copied", "wrong-signers", "swapped-nonces", "early", "complete",
	"echo", "echo-half", "echo-negated", "negated-nonce", "negated-key", "one-nonce", "other-binding", "other-weight", "no-key", "twice"}

type sgByz struct {
	id     uint16
	p      *ref.SignParty
	k      *ref.Key
	what   string
	plain  bool        // not dishonest at all
	delta  *ref.Scalar // added to the share
	last   bool        // sends its share after having heard all others
	rs     ref.RandScalar
	spoke  bool
	signed bool
	heardZ map[uint16]*ref.Scalar
	honest []uint16
	equiv  map[uint16]bool // receivers that get another nonce commitment
	equivZ map[uint16]bool // receivers that get another share
	did    bool            // has sent something an honest signer would not
	model  uint16          // the signer whose commitments are repeated
}

func newSgByz(r *Run, id uint16, signers []uint16, k *ref.Key, msg []byte, honest []uint16, tag string) *sgByz {
	rs := randScalars(r.Seed, fmt.Sprintf("sgbyz%s/%d", tag, id))
	return &sgByz{id: id, k: k, rs: rs, what: "none", honest: honest, heardZ: map[uint16]*ref.Scalar{}, p: ref.NewSignParty(id, signers, k.Secret[id], k.Pub, k.Group, msg, rs)}
}

func (b *sgByz) commitments() (*ref.Pt, *ref.Pt) {
	switch b.what {
	case "identity-D":
		b.p.Dn = ref.SInt(0)
	case "identity-E":
		b.p.En = ref.SInt(0)
	case "identity-both":
		b.p.Dn, b.p.En = ref.SInt(0), ref.SInt(0)
	case "echo":
		return b.p.GotD[b.model], b.p.GotE[b.model]
	case "echo-half":
		return b.p.GotD[b.model], ref.Base(b.p.En)
	case "echo-negated":
		return b.p.GotD[b.model].Neg(), b.p.GotE[b.model].Neg()
	}
	return ref.Base(b.p.Dn), ref.Base(b.p.En)
}

// echoes: the commitments are made of those of an honest signer, so that the cheater does not know its own nonces.
func (b *sgByz) echoes() bool { return strings.HasPrefix(b.what, "echo") }

func (b *sgByz) z(r *Run) *ref.Scalar {
	p := b.p
	z := p.Z()
	lam := ref.Lagrange(b.id, p.IDs, ref.SInt(0))
	with := func(secret, l, c, rho *ref.Scalar) *ref.Scalar {
		return ref.SAdd(ref.SAdd(p.Dn, ref.SMul(p.En, rho)), ref.SMul(ref.SMul(l, secret), c))
	}
	switch b.what {
	case "bumped":
		z = ref.SAdd(z, ref.SInt(1))
	case "random":
		z = b.rs()
	case "negated":
		z = ref.SNeg(z)
	case "zero":
		z = ref.SInt(0)
	case "unweighted":
		z = with(p.Secret, ref.SInt(1), p.Tr.C, p.Tr.Rho[b.id])
		if ref.SEq(lam, ref.SInt(1)) {
			z = b.rs()
		}
	case "other-message":
		t := ref.NewSignTranscript(p.IDs, append([]byte("x"), p.Message...), p.Key, p.GotD, p.GotE)
		z = with(p.Secret, lam, t.C, t.Rho[b.id])
	case "other-share":
		z = with(ref.SAdd(p.Secret, ref.SInt(1)), lam, p.Tr.C, p.Tr.Rho[b.id])
	case "no-binding":
		z = with(p.Secret, lam, p.Tr.C, ref.SInt(1))
	case "copied":
		for _, id := range p.IDs {
			if x := b.heardZ[id]; x != nil {
				return x
			}
		}
		z = b.rs()
	case "echo", "echo-half", "echo-negated":
		z = b.rs()
		if x := b.heardZ[b.model]; x != nil && b.last {
			z = x
			if b.what == "echo-negated" {
				z = ref.SNeg(x)
			}
		}
	case "negated-nonce":
		z = ref.SSub(ref.SMul(ref.SMul(ref.SMul(ref.SInt(2), lam), p.Secret), p.Tr.C), z)
	case "negated-key":
		z = with(p.Secret, ref.SNeg(lam), p.Tr.C, p.Tr.Rho[b.id])
	case "one-nonce":
		z = ref.SSub(z, p.Dn)
	case "other-binding", "other-weight":
		o := without(p.IDs, b.id)
		if len(o) == 0 {
			return b.rs()
		}
		if id := o[r.Choose(len(o))]; b.what == "other-binding" {
			z = with(p.Secret, lam, p.Tr.C, p.Tr.Rho[id])
		} else {
			z = with(p.Secret, ref.Lagrange(id, p.IDs, ref.SInt(0)), p.Tr.C, p.Tr.Rho[b.id])
		}
	case "no-key":
		z = with(p.Secret, ref.SInt(0), p.Tr.C, p.Tr.Rho[b.id])
	case "twice":
		z = ref.SMul(ref.SInt(2), z)
	case "wrong-signers":
		z = with(p.Secret, ref.Lagrange(b.id, p.IDs, ref.SInt(1)), p.Tr.C, p.Tr.Rho[b.id])
	case "swapped-nonces":
		z = ref.SAdd(ref.SAdd(p.En, ref.SMul(p.Dn, p.Tr.Rho[b.id])), ref.SMul(ref.SMul(lam, p.Secret), p.Tr.C))
	case "complete": // makes the sum of all shares a valid signature although its own share is wrong
		sum := ref.SInt(0)
		for _, id := range p.IDs {
			if id != b.id && b.heardZ[id] != nil {
				sum = ref.SAdd(sum, ref.SMul(ref.SMul(ref.Lagrange(id, p.IDs, ref.SInt(0)), b.k.Secret[id]), p.Tr.C))
			}
		}
		z = ref.SAdd(ref.SAdd(p.Dn, ref.SMul(p.En, p.Tr.Rho[b.id])), ref.SSub(ref.SMul(b.k.Poly[0], p.Tr.C), sum))
	}
	if b.delta != nil {
		z = ref.SAdd(z, b.delta)
	}
	return z
}

func (b *sgByz) act(r *Run, net *Net, nd *Node, pk *Pkt) {
	p := b.p
	if pk != nil {
		p.Receive(pk.Enc)
		if m, err := ref.Decode(pk.Enc); err == nil && m.Type == ref.SG2 {
			b.heardZ[m.From] = m.Z
		}
	} else {
		nd.Started = true
	}
	if !nd.Started {
		return
	}
	if !b.spoke && b.echoes() && b.model == 0 {
		for _, id := range b.honest {
			if p.GotD[id] != nil {
				b.model = id
			}
		}
	}
	if !b.spoke && (!b.echoes() || b.model != 0) {
		b.spoke = true
		d, e := b.commitments()
		p.GotD[b.id], p.GotE[b.id] = d, e
		b.did = d.IsIdentity() || e.IsIdentity() || b.what == "early"
		enc := ref.EncSG1(b.id, d, e)
		for _, o := range net.Nodes {
			if o.Slot == nd.Slot {
				continue
			}
			x := enc
			if b.equiv[o.ID] {
				x = ref.EncSG1(b.id, ref.Base(b.rs()), ref.Base(b.rs()))
			}
			net.Send(nd.Slot, o.Slot, x, "byz "+b.what)
		}
		if b.what == "early" {
			b.signed = true
			net.SendEnc(nd.Slot, ref.EncSG2(b.id, b.rs()), "byz early share")
		}
	}
	heardHonest := true
	for _, id := range b.honest {
		heardHonest = heardHonest && b.heardZ[id] != nil
	}
	if b.spoke && !b.signed && len(p.GotD) == len(p.IDs) && (!b.last || heardHonest) {
		b.signed = true
		p.Tr = ref.NewSignTranscript(p.IDs, p.Message, p.Key, p.GotD, p.GotE)
		z := b.z(r)
		b.did = b.did || b.echoes() || !ref.SEq(z, p.Z())
		for _, o := range net.Nodes {
			if o.Slot == nd.Slot {
				continue
			}
			x := z
			if b.equivZ[o.ID] {
				x = ref.SAdd(z, b.rs())
			}
			net.Send(nd.Slot, o.Slot, ref.EncSG2(b.id, x), "byz share "+b.what)
		}
	}
}
