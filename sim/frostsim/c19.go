package main

import (
	"bytes"
	"fmt"

	"frostsim.local/sim/engine"
	"frostsim.local/sim/ref"
)

func init() {
	register(&Check{ID: "C19", Scenario: scenC19, Quick: 4000, Thorough: 100000, Real: realLib, Stub: stubNet + "; the other participants run an independent implementation of the protocol over filippo.io/edwards25519",
		Rule: "one run is a key generation or signing session of a network mixing parties of the library with parties of the independent implementation under a random schedule with faults; every message of the library's parties is checked against the documented equations"})
}

// refNode adds an honest party of the independent implementation.
func refKeygenNode(net *Net, id uint16, ids []uint16, t int) *Node {
	return net.Add(&Node{ID: id, Name: fmt.Sprintf("ref%d", id), Created: true, RK: ref.NewKeygenParty(id, ids, t, randScalars(net.r.Seed, fmt.Sprintf("ref/%d", id)))})
}

func refSignNode(net *Net, id uint16, signers []uint16, k *ref.Key, msg []byte) *Node {
	return net.Add(&Node{ID: id, Name: fmt.Sprintf("ref%d", id), Created: true,
		RS: ref.NewSignParty(id, signers, k.Secret[id], k.Pub, k.Group, msg, randScalars(net.r.Seed, fmt.Sprintf("ref/%d", id)))})
}

// checkKeygenMessages checks every message a library party emitted in a key generation against the documented equations.
func checkKeygenMessages(r *Run, s *Sess, ids []uint16, t int) {
	var c ref.Commitments
	sent := map[uint16]int{}
	for _, e := range s.Out {
		m, err := ref.Decode(e.Enc)
		if err != nil {
			r.Fail("encoding", "a message of %s does not follow the documented encoding (%v): %s", s.Label, err, short(e.Enc))
		}
		if m.From != s.ID {
			r.Fail("sender", "a message of %s names %d as its sender", s.Label, m.From)
		}
		switch m.Type {
		case ref.KG1:
			if c != nil {
				r.Fail("messages", "%s broadcast two commitments", s.Label)
			}
			c = m.C
			if len(c) != t+1 {
				r.Fail("degree", "%s commits to a polynomial of degree %d, the threshold is %d", s.Label, len(c)-1, t)
			}
			if !ref.VerifyPoK(s.ID, c[0], m.S, m.R) {
				r.Fail("proof", "the proof of knowledge %s broadcast does not verify", s.Label)
			}
			if m.To != 0 {
				r.Fail("addressee", "the commitment of %s is addressed to %d", s.Label, m.To)
			}
		case ref.KG2:
			if c == nil {
				r.Fail("messages", "%s sent a share before its commitment", s.Label)
			}
			sent[m.To]++
			if m.To == s.ID || !has(ids, m.To) || sent[m.To] > 1 {
				r.Fail("messages", "%s sent share number %d to %d", s.Label, sent[m.To], m.To)
			}
			if !ref.Base(m.Z).Eq(c.Eval(ref.SID(m.To))) {
				r.Fail("share-equation", "the share %s sent to %d is not the value of its committed polynomial there", s.Label, m.To)
			}
		default:
			r.Fail("messages", "%s emitted a message of type %d in a key generation", s.Label, m.Type)
		}
	}
	if s.Status() == success {
		if c == nil || len(sent) != len(ids)-1 {
			r.Fail("messages", "%s succeeded but sent %d shares to %d others", s.Label, len(sent), len(ids)-1)
		}
	}
}

// checkSignMessages checks the messages of a library signer; heard are the commitments it took from the others.
func checkSignMessages(r *Run, s *Sess, signers []uint16, public, group *ref.Pt, msg []byte, d, e map[uint16]*ref.Pt) *ref.SignTranscript {
	var tr *ref.SignTranscript
	n1, n2 := 0, 0
	for _, x := range s.Out {
		m, err := ref.Decode(x.Enc)
		if err != nil {
			r.Fail("encoding", "a message of %s does not follow the documented encoding (%v): %s", s.Label, err, short(x.Enc))
		}
		if m.From != s.ID || m.To != 0 {
			r.Fail("sender", "a message of %s goes from %d to %d", s.Label, m.From, m.To)
		}
		switch m.Type {
		case ref.SG1:
			n1++
			d[s.ID], e[s.ID] = m.D, m.E
			if m.D.IsIdentity() || m.E.IsIdentity() || m.D.Eq(m.E) {
				r.Fail("nonce", "%s commits to a degenerate nonce pair", s.Label)
			}
		case ref.SG2:
			n2++
			for _, id := range signers {
				if d[id] == nil || e[id] == nil {
					r.Fail("early-share", "%s emitted its signature share without a commitment of %d", s.Label, id)
				}
			}
			tr = ref.NewSignTranscript(signers, msg, group, d, e)
			if !tr.ShareOK(s.ID, m.Z, public) {
				r.Fail("share-equation", "the signature share of %s is not d + e*rho + lambda*s*c (signers %v, message of %d bytes)", s.Label, signers, len(msg))
			}
		default:
			r.Fail("messages", "%s emitted a message of type %d in a signing session", s.Label, m.Type)
		}
	}
	if n1 > 1 || n2 > 1 || (s.Status() == success && (n1 != 1 || n2 != 1)) {
		r.Fail("messages", "%s (%s) emitted %d commitments and %d shares", s.Label, s.Status(), n1, n2)
	}
	return tr
}

func genMixed(r *Run) (n, t, reals int) {
	n = genN(r, 2)
	if n > 12 {
		n = 12
	}
	t = genT(r, n)
	reals = 1 + r.Choose(n)
	if r.Chance(1, 3) {
		reals = 1
	}
	return
}

func scenC19(r *Run) {
	if r.Chance(1, 40) {
		c19large(r)
		return
	}
	n, t, reals := genMixed(r)
	ids := genIDs(r, n)
	real := map[uint16]bool{}
	for _, id := range pickIDs(r, ids, reals) {
		real[id] = true
	}
	net := NewNet(r)
	switch r.Pick(3, 4, 2) {
	case 0:
		c19keygen(r, net, ids, t, real)
	case 1:
		c19sign(r, net, ids, t, real)
	case 2:
		c19equivocation(r, net, ids, t, real)
	}
}

func c19keygen(r *Run, net *Net, ids []uint16, t int, real map[uint16]bool) {
	for _, id := range ids {
		if real[id] {
			addKeygen(net, id, ids, t, genTimeout(r), "")
		} else {
			refKeygenNode(net, id, ids, t)
		}
	}
	net.Configure()
	net.Run(nil)
	var first *ref.KeygenParty
	var ss []*Sess
	for _, nd := range net.Nodes {
		if nd.S != nil {
			checkKeygenMessages(r, nd.S, ids, t)
			ss = append(ss, nd.S)
			continue
		}
		if nd.RK.Err != nil {
			r.Fail("interoperate", "a party of the independent implementation refuses the key generation: %d: %v", nd.ID, nd.RK.Err)
		}
		if first == nil {
			first = nd.RK
		}
	}
	for _, s := range ss {
		if s.Status() != success {
			r.Fail("interoperate", "%s is %s in a key generation with parties of the independent implementation (real %v of %v, threshold %d)", s.Label, s.Describe(), keysOf(real), ids, t)
		}
	}
	for _, nd := range net.Nodes {
		if nd.RK != nil && !nd.RK.Done {
			r.Fail("interoperate", "party %d of the independent implementation never finishes", nd.ID)
		}
	}
	checkKeygenAgreement(r, ss, ids, t, true)
	if first != nil {
		for _, s := range ss {
			if !keyPt(r, s.KG.Public.GroupKey).Eq(first.Key) {
				r.Fail("disagree", "%s holds another group key than the independent implementation", s.Label)
			}
			for id, p := range refPub(s.KG.Public) {
				if !p.Eq(first.Pub[id]) {
					r.Fail("disagree", "%s holds another public share of %d than the independent implementation", s.Label, id)
				}
			}
		}
		for _, nd := range net.Nodes {
			if nd.RK != nil && !ref.Base(nd.RK.Secret).Eq(first.Pub[nd.ID]) {
				r.Fail("disagree", "the share of party %d of the independent implementation is wrong", nd.ID)
			}
		}
	}
	r.Trivial = len(real) == len(ids)
	r.Note(fmt.Sprintf("keygen-size:%d+", len(ids)/10*10))
	r.Sample = fmt.Sprintf("keygen n=%d t=%d, %d library parties, %d independent: agreed, %d steps", len(ids), t, len(real), len(ids)-len(real), net.Steps)
}

func c19sign(r *Run, net *Net, ids []uint16, t int, real map[uint16]bool) {
	k := DealKey(r, "", ids, t)
	if len(ids) <= 6 && r.Chance(1, 4) {
		k = libKey(r, "", ids, t)
	}
	signers := genSigners(r, ids, t+1)
	any := false
	for _, id := range signers {
		any = any || real[id]
	}
	if !any {
		real[signers[r.Choose(len(signers))]] = true
	}
	msg := genMessage(r)
	for _, id := range signers {
		if real[id] {
			addSign(net, id, signers, k.Shares[id], k.Public, msg, genTimeout(r), "")
		} else {
			refSignNode(net, id, signers, k.Key, msg)
		}
	}
	net.Configure()
	net.Run(nil)
	d, e := map[uint16]*ref.Pt{}, map[uint16]*ref.Pt{}
	nreal := 0
	for _, nd := range net.Nodes {
		if nd.RS != nil {
			d[nd.ID], e[nd.ID] = ref.Base(nd.RS.Dn), ref.Base(nd.RS.En)
			continue
		}
		nreal++
		for _, x := range nd.S.Out {
			if m, err := ref.Decode(x.Enc); err == nil && m.Type == ref.SG1 {
				d[nd.ID], e[nd.ID] = m.D, m.E
			}
		}
	}
	var sig []byte
	for _, nd := range net.Nodes {
		if nd.S == nil {
			continue
		}
		tr := checkSignMessages(r, nd.S, signers, k.Key.Pub[nd.ID], k.Group, msg, d, e)
		if st := nd.S.Status(); st != success {
			r.Fail("interoperate", "%s is %s in a session with parties of the independent implementation", nd.S.Label, nd.S.Describe())
		}
		checkSignature(r, nd.S, k.Group, k.Public.GroupKey, msg)
		var b []byte
		if cp := engine.Guard(func() { b = nd.S.SG.Signature.ToEd25519() }); cp != nil {
			r.Fail("crash", "converting a signature panicked: %v", cp.Value)
		}
		if tr == nil || !bytes.Equal(b[:32], tr.R.Ed()) {
			r.Fail("signature-equation", "the R of the signature of %s is not the sum of D + rho*E", nd.S.Label)
		}
		if sig == nil {
			sig = b
		} else if !bytes.Equal(sig, b) {
			r.Fail("disagree", "library signers output different signatures")
		}
	}
	for _, nd := range net.Nodes {
		if nd.RS == nil {
			continue
		}
		if nd.RS.Err != nil || !nd.RS.Done {
			r.Fail("interoperate", "signer %d of the independent implementation does not succeed: %v", nd.ID, nd.RS.Err)
		}
		if !bytes.Equal(append(nd.RS.R.Ed(), nd.RS.S.Bytes()...), sig) {
			r.Fail("disagree", "the independent implementation computed another signature")
		}
	}
	r.Trivial = nreal == len(signers)
	r.Note(fmt.Sprintf("sign-size:%d+", len(signers)/10*10))
	r.Sample = fmt.Sprintf("signing n=%d t=%d signers=%d of which %d of the library, message of %d bytes: one signature, every share equation holds", len(ids), t, len(signers), nreal, len(msg))
}

// c19equivocation: the independent parties send different commitments to different library parties; every share a
// library party emits must still follow the equation for the commitments that party received.
func c19equivocation(r *Run, net *Net, ids []uint16, t int, real map[uint16]bool) {
	k := DealKey(r, "", ids, t)
	signers := genSigners(r, ids, t+1)
	if len(signers) > 8 {
		r.Trivial = true
		return
	}
	any := false
	for _, id := range signers {
		any = any || real[id]
	}
	if !any {
		real[signers[0]] = true
	}
	msg := genMessage(r)
	type view struct{ d, e map[uint16]*ref.Pt }
	views := map[uint16]view{}
	for _, id := range signers {
		if real[id] {
			views[id] = view{map[uint16]*ref.Pt{}, map[uint16]*ref.Pt{}}
			addSign(net, id, signers, k.Shares[id], k.Public, msg, 0, "")
			continue
		}
		nd := &Node{ID: id, Name: fmt.Sprintf("equivocating%d", id), Created: true}
		rs := randScalars(r.Seed, fmt.Sprintf("eq/%d", id))
		common := r.Chance(1, 3)
		base := ref.EncSG1(id, ref.Base(rs()), ref.Base(rs()))
		nd.Byz = func(nd *Node, p *Pkt) {
			if p != nil {
				return
			}
			for _, o := range net.Nodes {
				if o == nd {
					continue
				}
				b := base
				if !common && r.Chance(1, 2) {
					b = ref.EncSG1(id, ref.Base(rs()), ref.Base(rs()))
					r.Fault("equivocation")
				}
				net.Send(nd.Slot, o.Slot, b, "")
			}
		}
		net.Add(nd)
	}
	net.OnHandled = func(nd *Node, p *Pkt, err error) {
		m, e := ref.Decode(p.Enc)
		if e != nil || m.Type != ref.SG1 {
			return
		}
		v := views[nd.ID]
		if m.From != nd.ID && has(signers, m.From) && v.d[m.From] == nil {
			v.d[m.From], v.e[m.From] = m.D, m.E
		}
	}
	net.Configure()
	net.ToAll = false
	net.Run(nil)
	shares := 0
	for _, nd := range net.Nodes {
		if nd.S == nil {
			continue
		}
		v := views[nd.ID]
		if checkSignMessages(r, nd.S, signers, k.Key.Pub[nd.ID], k.Group, msg, v.d, v.e) != nil {
			shares++
		}
	}
	r.Trivial = shares == 0
	r.Sample = fmt.Sprintf("signers=%v with equivocated commitments: %d library shares follow the equation for what their signer received", signers, shares)
}

// c19large is one or two library parties in a large committee. Of the others one runs the independent implementation
// in full, the rest only send what it would.
func c19large(r *Run) {
	n := 20 + r.Choose(60)
	switch r.Choose(4) {
	case 0:
		n = 100 + r.Choose(40)
	case 1:
		n = 250 + r.Choose(20)
	}
	keygen := r.Chance(1, 2)
	huge := r.Chance(1, 12)
	if huge && keygen {
		n = 257 + r.Choose(4)
	} else if huge {
		n = 985 + r.Choose(60)
	}
	ids := genIDs(r, n)
	t := 1 + r.Choose(5)
	if n < 60 && r.Chance(1, 3) {
		t = n - 1 - r.Choose(3)
	}
	nr := 1 + r.Choose(2)
	if huge {
		nr = 1
		if keygen {
			t = 254 + r.Choose(n-254)
		}
	}
	chosen := pickIDs(r, ids, nr+1)
	full := chosen[nr]
	real := map[uint16]bool{}
	for _, id := range chosen[:nr] {
		real[id] = true
	}
	net := NewNet(r)
	net.Quiet = true
	r.Note(fmt.Sprintf("large-committee:%d+", n/50*50))
	if keygen {
		rs := randScalars(r.Seed, "large")
		var fk *ref.KeygenParty
		for _, id := range ids {
			switch {
			case real[id]:
				addKeygen(net, id, ids, t, genTimeout(r), "")
			case id == full:
				nd := refKeygenNode(net, id, ids, t)
				fk = nd.RK
			default:
				kp := ref.NewKeygenParty(id, ids, t, rs)
				nd := &Node{ID: id, Name: fmt.Sprint(id), Created: true}
				nd.Byz = func(nd *Node, p *Pkt) {
					if p != nil {
						return
					}
					m1 := kp.Msg1()
					for _, to := range chosen {
						net.Send(nd.Slot, net.slotOf(to), m1, "")
						net.Send(nd.Slot, net.slotOf(to), ref.EncKG2(id, to, kp.ShareFor(to)), "")
					}
				}
				net.Add(nd)
			}
		}
		net.Run(nil)
		var ss []*Sess
		for _, nd := range net.Nodes {
			if nd.S == nil {
				continue
			}
			checkKeygenMessages(r, nd.S, ids, t)
			if nd.S.Status() != success {
				r.Fail("interoperate", "%s is %s in a key generation of %d parties", nd.S.Label, nd.S.Describe(), n)
			}
			ss = append(ss, nd.S)
		}
		if fk.Err != nil || !fk.Done {
			r.Fail("interoperate", "the independent implementation does not succeed in a key generation of %d parties: %v", n, fk.Err)
		}
		checkKeygenAgreement(r, ss, ids, t, false)
		for _, s := range ss {
			if !keyPt(r, s.KG.Public.GroupKey).Eq(fk.Key) {
				r.Fail("disagree", "%s holds another group key than the independent implementation", s.Label)
			}
			for id, p := range refPub(s.KG.Public) {
				if !p.Eq(fk.Pub[id]) {
					r.Fail("disagree", "%s holds another public share of %d than the independent implementation", s.Label, id)
				}
			}
		}
		r.Sample = fmt.Sprintf("keygen with n=%d t=%d, %d library parties: agreed", n, t, nr)
		return
	}
	k := ref.Deal(ids, t, randScalars(r.Seed, "deal/"))
	sk := wrapKey(r, k)
	msg := genMessage(r)
	var fs *ref.SignParty
	var fulln *Node
	var dumb []*ref.SignParty
	d, e := map[uint16]*ref.Pt{}, map[uint16]*ref.Pt{}
	rs := randScalars(r.Seed, "large")
	for _, id := range ids {
		switch {
		case real[id]:
			addSign(net, id, ids, sk.Shares[id], sk.Public, msg, genTimeout(r), "")
		case id == full:
			fulln = refSignNode(net, id, ids, k, msg)
			fs = fulln.RS
			d[id], e[id] = ref.Base(fs.Dn), ref.Base(fs.En)
		default:
			sp := ref.NewSignParty(id, ids, k.Secret[id], k.Pub, k.Group, msg, rs)
			d[id], e[id] = ref.Base(sp.Dn), ref.Base(sp.En)
			dumb = append(dumb, sp)
			nd := &Node{ID: id, Name: fmt.Sprint(id), Created: true}
			nd.Byz = func(nd *Node, p *Pkt) {
				if p == nil {
					m1 := sp.Msg1()
					for _, to := range chosen {
						net.Send(nd.Slot, net.slotOf(to), m1, "")
					}
				}
			}
			net.Add(nd)
		}
	}
	for _, nd := range net.Nodes {
		if nd.S != nil || nd.Create != nil {
			nd.Each = true
		}
	}
	told := false
	net.OnStep = func() {
		if fs.Tr == nil || told {
			return
		}
		told = true
		for _, sp := range dumb {
			sp.Tr = fs.Tr
			z := ref.EncSG2(sp.ID, sp.Z())
			for _, to := range chosen {
				net.Send(net.slotOf(sp.ID), net.slotOf(to), z, "")
			}
		}
	}
	net.Run(nil)
	for _, nd := range net.Nodes {
		if nd.S == nil {
			continue
		}
		for _, x := range nd.S.Out {
			if m, err := ref.Decode(x.Enc); err == nil && m.Type == ref.SG1 {
				d[nd.ID], e[nd.ID] = m.D, m.E
			}
		}
	}
	for _, nd := range net.Nodes {
		if nd.S == nil {
			continue
		}
		checkSignMessages(r, nd.S, ids, k.Pub[nd.ID], k.Group, msg, d, e)
		if nd.S.Status() != success {
			r.Fail("interoperate", "%s is %s in a session of %d signers", nd.S.Label, nd.S.Describe(), n)
		}
		checkSignature(r, nd.S, k.Group, sk.Public.GroupKey, msg)
	}
	if fs.Err != nil || !fs.Done {
		r.Fail("interoperate", "the independent implementation does not succeed in a session of %d signers: %v", n, fs.Err)
	}
	r.Sample = fmt.Sprintf("signing with %d signers, t=%d, %d of them of the library: agreed", n, t, nr)
}
