package main

import (
	"fmt"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/keygen"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/sign"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/state"

	"frostsim.local/sim/ref"
)

func init() {
	register(&Check{ID: "C20", Scenario: scenC20, Quick: 15000, Thorough: 150000, Real: realLib, Stub: stubNet,
		Rule: "one run creates sessions from an invalid or inconsistent configuration, or sessions whose members disagree about the configuration, and drives what was created to its end under a random schedule with faults"})
}

func scenC20(r *Run) {
	switch r.Pick(4, 3, 4, 2, 2) {
	case 0:
		c20keygenArgs(r)
	case 1:
		c20signArgs(r)
	case 2:
		c20keygenMismatch(r)
	case 3:
		scenMismatch(r, false)
	case 4:
		c20threeWays(r)
	}
}

func ids16(l party.IDSlice) []uint16 {
	var o []uint16
	for _, x := range l {
		o = append(o, uint16(x))
	}
	return o
}

func showList(l party.IDSlice) string {
	if len(l) > 12 {
		return fmt.Sprintf("%v..(%d)", l[:12], len(l))
	}
	return fmt.Sprint(l)
}

// spoil makes a list invalid and says how.
func spoilList(r *Run, ids []uint16, self uint16) (party.IDSlice, string) {
	l := idSlice(ids)
	i := r.Choose(len(l))
	insert := func(at int, id party.ID) {
		l = append(l[:at:at], append(party.IDSlice{id}, l[at:]...)...)
	}
	switch r.Choose(8) {
	case 0: // own identifier absent
		var o party.IDSlice
		for _, x := range l {
			if uint16(x) != self {
				o = append(o, x)
			}
		}
		return o, "own identifier absent"
	case 1:
		insert(0, 0)
		return l, "identifier zero"
	case 2:
		insert(i, l[i])
		return l, "identifier repeated"
	case 3:
		insert(i, l[i])
		insert(i, l[i])
		return l, "identifier three times"
	case 4:
		// repeated, not next to each other
		l = append(l, l[0])
		return l, "first identifier repeated at the end"
	case 5:
		insert(r.Choose(len(l)+1), 0)
		return l, "identifier zero somewhere"
	case 6:
		l = append(l, l...)
		return l, "the whole list twice"
	}
	return nil, "empty list"
}

func c20keygenArgs(r *Run) {
	n := 2 + r.Choose(6)
	ids := genIDs(r, n)
	self := ids[r.Choose(n)]
	l := idSlice(ids)
	t := genT(r, n)
	what := "valid"
	own := self
	switch r.Pick(2, 3, 8, 2, 3) {
	case 0:
		t, what = 0, "threshold zero"
	case 1:
		t = []int{n, n + 1, 2 * n, 65535, 65534, 32768}[r.Choose(6)]
		if t < n {
			t = n
		}
		what = "threshold not below the number of parties"
	case 2:
		l, what = spoilList(r, ids, self)
		if r.Chance(1, 4) {
			t = []int{0, n, 65535}[r.Choose(3)]
		}
	case 3:
		own, what = 0, "own identifier zero"
		if r.Chance(1, 2) {
			l = append(party.IDSlice{0}, l...)
		}
	case 4: // a permutation of a valid list: may be refused; if not, it must work
		p := r.Perm(n)
		if n > 2 && r.Chance(1, 3) {
			p = r.Perm(n)
		}
		l = make(party.IDSlice, n)
		for i, j := range p {
			l[i] = party.ID(ids[j])
		}
		c20unsorted(r, ids, self, l, t)
		return
	}
	r.Event("keygen %s: self %d list %v threshold %d", what, own, l, t)
	r.Fault("bad-configuration:" + what)
	to := genTimeout(r)
	keygenSlice = l
	if l == nil {
		keygenSlice = party.IDSlice{}
	}
	s := NewKeygen(r, "kg", own, ids, t, to, stream(r, "kg"))
	keygenSlice = nil
	if s.CreateErr == nil {
		r.Fail("accepted", "a key generation was created although its configuration is invalid (%s): own identifier %d, parties %s, threshold %d", what, own, showList(l), t)
	}
	if s.St != nil && r.Chance(1, 2) {
		s.Process()
	}
	r.Sample = fmt.Sprintf("keygen with %s refused: %v", what, s.CreateErr)
}

// c20unsorted: one party has its list in another order.
func c20unsorted(r *Run, ids []uint16, self uint16, l party.IDSlice, t int) {
	net := NewNet(r)
	for _, id := range ids {
		if id != self {
			nd := addKeygen(net, id, ids, t, tenHours, "")
			net.create(nd)
			continue
		}
		keygenSlice = l
		s := NewKeygen(r, "unsorted", id, ids, t, tenHours, stream(r, "unsorted"))
		keygenSlice = nil
		if s.CreateErr != nil {
			r.Note("unsorted-refused")
			r.Sample = fmt.Sprintf("unsorted list %v refused", l)
			return
		}
		net.Add(&Node{ID: id, S: s, Created: true, Each: true})
	}
	r.Note("unsorted-accepted")
	net.Configure()
	net.Run(nil)
	net.finishByTimeout(tenHours)
	for _, nd := range net.Nodes {
		switch nd.S.Status() {
		case running:
			r.Fail("hang", "%s never ends although its timeout has passed (list of one party: %v)", nd.S.Label, l)
		case success:
			nd.S.KG.Public.PartyIDs = party.NewIDSlice(nd.S.KG.Public.PartyIDs)
			checkKeygenOutput(r, nd.S, ids, t, true)
		}
	}
}

func c20signArgs(r *Run) {
	n := 2 + r.Choose(6)
	ids := genIDs(r, n)
	t := genT(r, n)
	k := DealKey(r, "", ids, t)
	signers := genSigners(r, ids, t+1)
	self := signers[r.Choose(len(signers))]
	share := k.freshShare(self)
	pub := k.freshPublic(r)
	l := idSlice(signers)
	what := ""
	foreign := func() uint16 {
		for {
			if id := uint16(1 + r.Choose(65535)); !has(ids, id) {
				return id
			}
		}
	}
	switch r.Pick(6, 4, 2, 2, 2, 2) {
	case 0:
		l, what = spoilList(r, signers, self)
	case 1:
		what = "a signer that holds no share"
		x := append(append([]uint16(nil), signers...), foreign())
		if len(x) > 2 && r.Chance(1, 2) {
			// in place of somebody else
			for i := range x {
				if x[i] != self && i < len(x)-1 {
					x = append(x[:i:i], x[i+1:]...)
					break
				}
			}
		}
		l = idSlice(sortedIDs(x))
	case 2:
		what = "own identifier without a share among the public shares"
		id := foreign()
		share = eddsa.NewSecretShare(party.ID(id), scal(k.Secret[self]))
		l = idSlice(sortedIDs(append(append([]uint16(nil), signers...), id)))
	case 3:
		what = "own identifier zero"
		share = eddsa.NewSecretShare(0, scal(k.Secret[self]))
		if r.Chance(1, 2) {
			l = append(party.IDSlice{0}, l...)
		}
	case 4:
		what = "a signer that holds no share (missing in the map)"
		delete(pub.Shares, l[r.Choose(len(l))])
	case 5:
		what = "a signer that holds no share (public data of a smaller group)"
		// public data of a group without one of the signers
		v := signers[r.Choose(len(signers))]
		m := map[party.ID]*ristretto.Element{}
		for id, e := range pub.Shares {
			if id != party.ID(v) {
				m[id] = e
			}
		}
		if len(m) < 2 {
			r.Trivial = true
			return
		}
		p2, err := eddsa.NewPublic(m, 1)
		if err != nil {
			r.Discard("setup: NewPublic refused")
		}
		pub = p2
	}
	r.Event("sign %s: self %d list %v shares of %v", what, share.ID, l, ids)
	r.Fault("bad-configuration:" + what)
	if l == nil {
		l = party.IDSlice{}
	}
	s := NewSignSlice(r, "sg", l, share, pub, genMessage(r), genTimeout(r), stream(r, "sg"))
	if s.CreateErr == nil {
		r.Fail("accepted", "a signing session was created although its configuration is invalid (%s): own identifier %d, signers %s, shares of %v", what, share.ID, showList(l), ids)
	}
	r.Sample = fmt.Sprintf("signing with %s refused: %v", what, s.CreateErr)
}

// c20keygenMismatch: parties disagree about the threshold or the party list.
func c20keygenMismatch(r *Run) {
	n := 2 + r.Choose(6)
	ids := genIDs(r, n)
	t := genT(r, n)
	type conf struct {
		ids []uint16
		t   int
	}
	cs := map[uint16]conf{}
	what := r.Pick(3, 2, 2)
	net := NewNet(r)
	t2 := genT(r, n)
	list2 := genSigners(r, ids, 2)
	if r.Chance(1, 3) {
		extra := uint16(1 + r.Choose(65535))
		if !has(ids, extra) {
			list2 = sortedIDs(append(append([]uint16(nil), ids...), extra))
		}
	}
	for _, id := range ids {
		c := conf{ids, t}
		if r.Chance(1, 2) {
			switch what {
			case 0:
				c.t = t2
			case 1:
				if has(list2, id) && t < len(list2) {
					c.ids = list2
				}
			case 2:
				if has(list2, id) {
					c.ids = list2
				}
				c.t = 1 + r.Choose(len(c.ids)-1)
			}
		}
		cs[id] = c
		r.Event("party %d: list %v threshold %d", id, c.ids, c.t)
		addKeygen(net, id, c.ids, c.t, tenHours, "")
	}
	r.Fault("mismatched-configuration")
	net.Configure()
	net.ToAll = net.ToAll || r.Chance(1, 2)
	net.Run(nil)
	net.finishByTimeout(tenHours)
	ok := 0
	for _, nd := range net.Nodes {
		switch nd.S.Status() {
		case running:
			r.Fail("hang", "%s never ends although its timeout has passed", nd.S.Label)
		case success:
			ok++
			c := cs[nd.ID]
			for _, id := range c.ids {
				o, there := cs[id]
				if !there {
					r.Fail("mismatch", "%s reports success although %d, a member of its party list, does not take part", nd.S.Label, id)
				}
				if o.t != c.t {
					r.Fail("mismatch", "%s reports success with threshold %d although %d, a member of its party list, uses threshold %d", nd.S.Label, c.t, id, o.t)
				}
			}
			checkKeygenOutput(r, nd.S, c.ids, c.t, true)
		}
	}
	r.Note(fmt.Sprintf("mismatch:success=%v", ok > 0))
	r.Sample = fmt.Sprintf("key generation of %d parties that disagree (kind %d): %d succeeded, all ended", n, what, ok)
}

// c20threeWays drives a session made by the package constructors (frost, keygen/sign + state) from an unusual but valid
// configuration to its end.
func c20threeWays(r *Run) {
	n := 2 + r.Choose(3)
	ids := genIDs(r, n)
	t := genT(r, n)
	k := DealKey(r, "", ids, t)
	msg := genMessage(r)
	signKind := r.Chance(1, 2)
	lone := signKind && r.Chance(1, 3)
	signers := ids
	if lone {
		signers = ids[:1] // below the threshold: created, but it can never sign
	}
	net := NewNet(r)
	timeouts := []time.Duration{0, 1, time.Nanosecond * 7, time.Millisecond, time.Hour, 1<<63 - 1, -1, -time.Hour}
	for _, id := range signers {
		to := timeouts[r.Choose(len(timeouts))]
		label := fmt.Sprintf("odd/%d", id)
		s := &Sess{r: r, Label: label, ID: id, Rand: stream(r, label), Kind: kindKeygen}
		direct := r.Chance(1, 2)
		s.do("create", func() {
			if signKind {
				s.Kind = kindSign
				if !direct {
					s.St, s.SG, s.CreateErr = frost.NewSignState(idSlice(signers), k.Shares[id], k.Public, msg, to)
					return
				}
				var rd state.Round
				if rd, s.SG, s.CreateErr = sign.NewRound(idSlice(signers), k.Shares[id], k.Public, msg); s.CreateErr == nil {
					s.St, s.CreateErr = state.NewBaseState(rd, to)
				}
				return
			}
			if !direct {
				s.St, s.KG, s.CreateErr = frost.NewKeygenState(party.ID(id), idSlice(signers), party.Size(t), to)
				return
			}
			var rd state.Round
			if rd, s.KG, s.CreateErr = keygen.NewRound(party.ID(id), idSlice(signers), party.Size(t)); s.CreateErr == nil {
				s.St, s.CreateErr = state.NewBaseState(rd, to)
			}
		})
		if s.CreateErr != nil {
			r.Note("unusual-refused")
			r.Sample = fmt.Sprintf("unusual configuration refused: %v", s.CreateErr)
			r.Event("refused: %v", s.CreateErr)
			return
		}
		r.Event("session %s timeout %v direct %v", label, to, direct)
		net.Add(&Node{ID: id, S: s, Created: true, Each: r.Chance(1, 2)})
	}
	net.Configure()
	net.Jitter = []time.Duration{0, time.Microsecond, time.Second}[r.Choose(3)]
	net.Run(nil)
	ok := 0
	for _, nd := range net.Nodes {
		if nd.S.Status() != success {
			continue
		}
		ok++
		if signKind {
			checkSignature(r, nd.S, k.Group, k.Public.GroupKey, msg)
			if lone && t >= 1 {
				r.Fail("too-few", "a single signer reports success although the threshold is %d", t)
			}
		} else {
			checkKeygenOutput(r, nd.S, ids, t, true)
		}
	}
	_ = ref.SG1
	r.Sample = fmt.Sprintf("unusual timeouts and constructors: %d of %d succeeded", ok, len(signers))
}
