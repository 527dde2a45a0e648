package main

import (
	"bytes"
	"encoding/json"
	"fmt"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"

	"frostsim.local/sim/ref"
)

func init() {
	register(&Check{ID: "C18", Scenario: scenC18, Quick: 6000, Thorough: 150000, Real: realLib, Stub: stubNet + "; the disk is simulated: torn, lost, misdirected and damaged writes",
		Rule: "one run stores a key's public data and shares, stops the machine at a random point of writing or damages the files, restores what decodes and signs with it together with parties that never restarted"})
}

// stored is one way to keep the key material of a party.
type wallet struct {
	Secrets map[party.ID]*eddsa.SecretShare
	Shares  *eddsa.Public
}

func marshal(r *Run, what string, v any) []byte {
	var b []byte
	var err error
	if p := guardDecode(func() { b, err = json.Marshal(v) }); p != "" {
		r.Fail("crash", "encoding %s panicked: %s", what, p)
	}
	if err != nil {
		r.Fail("encode", "%s cannot be encoded: %v", what, err)
	}
	return b
}

func indent(r *Run, b []byte) []byte {
	if !r.Chance(1, 3) {
		return b
	}
	var o bytes.Buffer
	if json.Indent(&o, b, "", " ") != nil {
		return b
	}
	return o.Bytes()
}

// samePublic compares restored with stored public data.
func samePublic(r *Run, what string, a, b *eddsa.Public) {
	if x, y := renderPublic(a), renderPublic(b); x != y {
		r.Fail("public-changed", "%s: stored %s, restored %s", what, x, y)
	}
	var e1, e2 bool
	if p := guardDecode(func() { e1, e2 = a.Equal(b), b.Equal(a) }); p != "" {
		r.Fail("crash", "comparing restored public data panicked: %s", p)
	}
	if !e1 || !e2 {
		r.Fail("public-changed", "%s: restored public data is not Equal to what was stored", what)
	}
}

func sameShare(r *Run, what string, a, b *eddsa.SecretShare) {
	if x, y := renderShare(a), renderShare(b); x != y {
		r.Fail("share-changed", "%s: the restored share differs from the stored one", what)
	}
	if !a.Equal(b) || !b.Equal(a) {
		r.Fail("share-changed", "%s: the restored share is not Equal to what was stored", what)
	}
}

func scenC18(r *Run) {
	n := genN(r, 2)
	if n > 12 {
		n = 12
	}
	ids := genIDs(r, n)
	t := genT(r, n)
	k := someKey(r, "", ids, t)
	older := DealKey(r, "older", ids, t) // what the files held before
	if r.Chance(1, 2) {
		ids2 := genIDs(r, 2+r.Choose(6))
		older = DealKey(r, "older", ids2, genT(r, len(ids2)))
	}

	// ---- an orderly stop: everything is restored
	self := ids[r.Choose(n)]
	share := k.Shares[self]
	pubFile := indent(r, marshal(r, "public data", k.Public))
	shFile := indent(r, marshal(r, "a share", share))
	bin, err := share.MarshalBinary()
	if err != nil {
		r.Fail("encode", "a share has no binary encoding: %v", err)
	}
	w := wallet{Secrets: map[party.ID]*eddsa.SecretShare{}, Shares: k.Public}
	for _, id := range ids {
		w.Secrets[party.ID(id)] = k.Shares[id]
	}
	wFile := indent(r, marshal(r, "secrets and public data", w))
	keyFile := marshal(r, "the group key", k.Public.GroupKey)

	var pub eddsa.Public
	var sh, shb eddsa.SecretShare
	var w2 wallet
	var gk eddsa.PublicKey
	if r.Chance(1, 2) {
		// into objects that held something else
		pub, sh, shb = *older.Public, *older.Shares[older.IDs[0]], *older.Shares[older.IDs[0]]
	}
	for _, x := range []struct {
		what string
		f    func() error
	}{
		{"public data", func() error { return json.Unmarshal(pubFile, &pub) }},
		{"a share (JSON)", func() error { return json.Unmarshal(shFile, &sh) }},
		{"a share (binary)", func() error {
			b := append([]byte(nil), bin...)
			e := shb.UnmarshalBinary(b)
			for i := range b {
				b[i] = 0xee
			}
			return e
		}},
		{"a wallet", func() error { return json.Unmarshal(wFile, &w2) }},
		{"the group key", func() error { return json.Unmarshal(keyFile, &gk) }},
	} {
		var err error
		if p := guardDecode(func() { err = x.f() }); p != "" {
			r.Fail("crash", "restoring %s panicked: %s", x.what, p)
		}
		if err != nil {
			r.Fail("refused", "%s stored with the library's encoding is refused: %v", x.what, err)
		}
	}
	samePublic(r, "public data", k.Public, &pub)
	samePublic(r, "public data of a wallet", k.Public, w2.Shares)
	sameShare(r, "JSON", share, &sh)
	sameShare(r, "binary", share, &shb)
	if len(w2.Secrets) != len(ids) {
		r.Fail("share-changed", "%d of %d shares were restored", len(w2.Secrets), len(ids))
	}
	for _, id := range ids {
		if w2.Secrets[party.ID(id)] == nil {
			r.Fail("share-changed", "the share of %d was not restored", id)
		}
		sameShare(r, "wallet", k.Shares[id], w2.Secrets[party.ID(id)])
	}
	if !keyPt(r, &gk).Eq(k.Group) || !gk.Equal(k.Public.GroupKey) {
		r.Fail("group-key", "the restored group key differs")
	}
	restarted := map[uint16]bool{}
	sign := func(tag string, use func(id uint16) (*eddsa.SecretShare, *eddsa.Public), signers []uint16, may func(id uint16) bool) (ok int, net *Net) {
		msg := genMessage(r)
		net = NewNet(r)
		for _, id := range signers {
			s, p := use(id)
			sess := NewSign(r, fmt.Sprintf("%s/%d", tag, id), signers, s, p, msg, 0, stream(r, fmt.Sprintf("%s/%d", tag, id)))
			if sess.CreateErr != nil {
				if !may(id) {
					r.Fail("refused", "a signing session with intact key material was refused (signer %d of %v): %v", id, signers, sess.CreateErr)
				}
				r.Note("damaged-share-refused-at-creation")
				continue
			}
			net.Add(&Node{ID: id, S: sess, Created: true, Each: r.Chance(1, 2)})
		}
		net.Configure()
		net.Run(nil)
		for _, nd := range net.Nodes {
			if nd.S.Status() == success {
				ok++
				checkSignature(r, nd.S, k.Group, k.Public.GroupKey, msg)
			}
		}
		return ok, net
	}
	if r.Chance(1, 3) {
		signers := genSigners(r, ids, t+1)
		src := r.Choose(3)
		ok, net := sign("restored", func(id uint16) (*eddsa.SecretShare, *eddsa.Public) {
			if !r.Chance(1, 2) {
				return k.Shares[id], k.Public
			}
			restarted[id] = true
			r.Fault("restart-from-storage")
			if src == 1 {
				var s eddsa.SecretShare
				b, _ := k.Shares[id].MarshalBinary()
				if err := s.UnmarshalBinary(b); err != nil {
					r.Fail("refused", "the binary share of %d is refused: %v", id, err)
				}
				return &s, &pub
			}
			return w2.Secrets[party.ID(id)], w2.Shares
		}, signers, func(uint16) bool { return false })
		if ok != len(signers) {
			for _, nd := range net.Nodes {
				if st := nd.S.Status(); st != success {
					r.Fail("interoperate", "after an orderly restart of %v %s is %s", keysOf(restarted), nd.S.Label, nd.S.Describe())
				}
			}
		}
		samePublic(r, "public data after signing", k.Public, &pub)
	}

	// ---- crashes and damage
	oldPub := marshal(r, "public data", older.Public)
	trials := 1 + r.Choose(6)
	accepted := 0
	for i := 0; i < trials; i++ {
		var b []byte
		var how string
		if r.Chance(1, 3) {
			b, how = crashWrite(r, oldPub, pubFile)
			r.Fault("crash-while-writing")
		} else {
			b, how = damage(r, pubFile)
			r.Fault("damaged-file")
			if r.Chance(1, 4) {
				b, _ = damage(r, b)
			}
		}
		var p eddsa.Public
		var err error
		if pn := guardDecode(func() { err = json.Unmarshal(b, &p) }); pn != "" {
			r.Fail("crash", "restoring damaged public data (%s) panicked: %s: %s", how, pn, short(b))
		}
		r.Event("public file %s: %v", how, err != nil)
		if err != nil {
			continue
		}
		accepted++
		r.Note("damaged-public-accepted")
		checkDamagedPublic(r, k, older, &p, how, b)
		if bytes.Equal(b, oldPub) || !keyPt(r, p.GroupKey).Eq(k.Group) {
			continue
		}
		if len(ids) <= 6 && r.Chance(1, 3) {
			// signing with what was restored never crashes and never yields a wrong signature
			signers := genSigners(r, ids, t+1)
			v := signers[r.Choose(len(signers))]
			sign(fmt.Sprintf("damagedpub%d", i), func(id uint16) (*eddsa.SecretShare, *eddsa.Public) {
				if id == v {
					return k.Shares[id], &p
				}
				return k.Shares[id], k.Public
			}, signers, func(id uint16) bool { return id == v })
		}
	}
	wrong := 0
	for i := 0; i < trials; i++ {
		binary := r.Chance(1, 2)
		file := shFile
		if binary {
			file = bin
		}
		old := older.Shares[older.IDs[r.Choose(len(older.IDs))]]
		var of []byte
		if binary {
			of, _ = old.MarshalBinary()
		} else {
			of = marshal(r, "a share", old)
		}
		var b []byte
		var how string
		if r.Chance(1, 3) {
			b, how = crashWrite(r, of, file)
			r.Fault("crash-while-writing")
		} else {
			b, how = damage(r, file)
			r.Fault("damaged-file")
		}
		var s eddsa.SecretShare
		var err error
		if pn := guardDecode(func() {
			if binary {
				err = s.UnmarshalBinary(b)
			} else {
				err = json.Unmarshal(b, &s)
			}
		}); pn != "" {
			r.Fail("crash", "restoring a damaged share (%s) panicked: %s: %s", how, pn, short(b))
		}
		r.Event("share file %s: %v", how, err != nil)
		if err != nil {
			continue
		}
		accepted++
		if !ref.Base(toScalar(&s.Secret)).Eq(toPt(&s.Public)) {
			r.Fail("share-inconsistent", "a share restored from a damaged file (%s) has a public key that does not belong to its secret", how)
		}
		if s.Equal(share) {
			continue
		}
		r.Note("damaged-share-accepted")
		if wrong >= 2 {
			continue
		}
		wrong++
		// its owner uses it under its own name, or under the name in the file
		signers := genSigners(r, ids, t+1)
		if !has(signers, self) {
			signers[r.Choose(len(signers))] = self
			signers = sortedIDs(signers)
		}
		if r.Chance(1, 2) {
			s.ID = party.ID(self)
			if s.Equal(share) {
				continue
			}
		}
		ok, net := sign(fmt.Sprintf("damaged%d", i), func(id uint16) (*eddsa.SecretShare, *eddsa.Public) {
			if id == self {
				return &s, k.Public
			}
			return k.Shares[id], k.Public
		}, signers, func(id uint16) bool { return id == self })
		for _, nd := range net.Nodes {
			if nd.ID == self {
				continue
			}
			st := nd.S.Status()
			if st == success {
				r.Fail("damage-not-detected", "%s reports success although %d signed with a damaged share (%s)", nd.S.Label, self, how)
			}
			if st == failed && nd.S.Culprit() != self && nd.S.Culprit() != uint16(s.ID) {
				r.Fail("damage-misattributed", "%s blames %d although %d signed with a damaged share (%s)", nd.S.Label, nd.S.Culprit(), self, how)
			}
			if st == running && len(net.Nodes) == len(signers) && uint16(s.ID) == self {
				r.Fail("damage-not-detected", "%s is still running although %d delivered everything, signed with a damaged share (%s)", nd.S.Label, self, how)
			}
		}
		_ = ok
	}
	if r.Chance(1, 4) {
		// the number that identifies the share is damaged in its high digits
		var m map[string]any
		if json.Unmarshal(shFile, &m) == nil {
			for _, f := range sortedKeys(m) {
				if m[f] == float64(self) {
					m[f] = int(self) + 65536*(1+r.Choose(70000))
				}
			}
			b := marshal(r, "a damaged share", m)
			var s eddsa.SecretShare
			var err error
			if pn := guardDecode(func() { err = json.Unmarshal(b, &s) }); pn != "" {
				r.Fail("crash", "restoring a damaged share panicked: %s: %s", pn, short(b))
			}
			if err == nil && s.Equal(share) {
				r.Fail("share-changed", "a share whose stored identifier was damaged is restored as that of %d: %s", self, short(b))
			}
		}
	}
	r.Trivial = accepted == 0
	r.Sample = fmt.Sprintf("n=%d t=%d: orderly restore equal; %d damaged files, %d of them decoded and were harmless", n, t, 2*trials, accepted)
}

func sortedIDs(x []uint16) []uint16 {
	var o []uint16
	for _, id := range party.NewIDSlice(idSlice(x)) {
		o = append(o, uint16(id))
	}
	return o
}

// checkDamagedPublic: what was decoded from a damaged file belongs to the key stored there, or to the one before.
func checkDamagedPublic(r *Run, k, older *SKey, p *eddsa.Public, how string, file []byte) {
	if p.GroupKey == nil {
		r.Fail("group-key-changed", "public data restored from a damaged file (%s) has no group key", how)
	}
	g := keyPt(r, p.GroupKey)
	o := k
	if !g.Eq(k.Group) {
		if older == nil || !g.Eq(older.Group) {
			r.Fail("group-key-changed", "public data restored from a damaged file (%s) has another group key: %s", how, short(file))
		}
		o = older
	}
	if len(p.PartyIDs) != len(p.Shares) {
		r.Fail("damaged-parties", "public data restored from a damaged file (%s) lists %d parties with %d shares", how, len(p.PartyIDs), len(p.Shares))
	}
	for id, e := range p.Shares {
		if !p.PartyIDs.Contains(id) {
			r.Fail("damaged-parties", "public data restored from a damaged file (%s) holds a share of %d, which is not in its party list", how, id)
		}
		want := o.Key.Pub[uint16(id)]
		if e == nil {
			r.Fail("damaged-share", "public data restored from a damaged file (%s) holds an empty share of %d", how, id)
		}
		if want == nil || !want.Eq(toPt(e)) {
			r.Fail("damaged-share", "public data restored from a damaged file (%s) holds another public share of %d: %s", how, id, short(file))
		}
	}
	if int(p.Threshold) >= len(p.Shares) {
		r.Fail("damaged-threshold", "public data restored from a damaged file (%s) has threshold %d with %d shares", how, p.Threshold, len(p.Shares))
	}
}
