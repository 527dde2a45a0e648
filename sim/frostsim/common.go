package main

import (
	"bytes"
	"crypto/ed25519"
	"fmt"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"

	"frostsim.local/sim/engine"
	"frostsim.local/sim/ref"
)

const realLib = "pkg/state, pkg/frost, pkg/messages, pkg/eddsa, pkg/helpers, pkg/internal, pkg/ristretto: all real code"
const stubNet = "network, clock, timers, lock scheduling, randomness and map iteration order (simulated, seeded)"

func stream(r *Run, label string) *engine.Stream { return engine.NewStream(r.Seed, label) }

// keygenNet is a network of honest parties of the library.
func keygenNet(r *Run, ids []uint16, t int, timeout func() time.Duration, tag string) *Net {
	net := NewNet(r)
	for _, id := range ids {
		addKeygen(net, id, ids, t, timeout(), tag)
	}
	return net
}

func addKeygen(net *Net, id uint16, ids []uint16, t int, timeout time.Duration, tag string) *Node {
	r := net.r
	nd := &Node{ID: id, Each: r.Chance(1, 2)}
	nd.Create = func() {
		nd.S = NewKeygen(r, fmt.Sprintf("kg%s/%d", tag, id), id, ids, t, timeout, stream(r, fmt.Sprintf("kg%s/%d", tag, id)))
		if nd.S.CreateErr != nil {
			r.Fail("refused", "a valid keygen session (id %d of %v, threshold %d) was refused: %v", id, ids, t, nd.S.CreateErr)
		}
	}
	return net.Add(nd)
}

func addSign(net *Net, id uint16, signers []uint16, share *eddsa.SecretShare, pub *eddsa.Public, msg []byte, timeout time.Duration, tag string) *Node {
	r := net.r
	nd := &Node{ID: id, Each: r.Chance(1, 2)}
	nd.Create = func() {
		nd.S = NewSign(r, fmt.Sprintf("sg%s/%d", tag, id), signers, share, pub, msg, timeout, stream(r, fmt.Sprintf("sg%s/%d", tag, id)))
		if nd.S.CreateErr != nil {
			r.Fail("refused", "a valid signing session (signer %d of %v) was refused: %v", id, signers, nd.S.CreateErr)
		}
	}
	return net.Add(nd)
}

func signNet(r *Run, k *SKey, signers []uint16, msg []byte, timeout func() time.Duration, tag string) *Net {
	net := NewNet(r)
	for _, id := range signers {
		addSign(net, id, signers, k.Shares[id], k.Public, msg, timeout(), tag)
	}
	return net
}

func zeroTimeout() time.Duration { return 0 }

// needSuccess: every session of the library in the network must have succeeded.
func needSuccess(r *Run, net *Net, kind string) {
	for _, nd := range net.Nodes {
		if nd.Real() && nd.Byz == nil && nd.S.Status() != success {
			r.Fail(kind, "all messages were delivered but %s is %s", nd.S.Label, nd.S.Describe())
		}
	}
}

// checkKeygenAgreement checks what C01 promises of the outputs.
func checkKeygenAgreement(r *Run, sessions []*Sess, ids []uint16, t int, full bool) {
	var first string
	secrets := map[uint16]*ref.Scalar{}
	for _, s := range sessions {
		checkKeygenOutput(r, s, ids, t, full)
		p := renderPublic(s.KG.Public)
		if first == "" {
			first = p
		} else if p != first {
			r.Fail("disagree", "%s and %s hold different public data: %s / %s", sessions[0].Label, s.Label, first, p)
		}
		secrets[s.ID] = toScalar(&s.KG.SecretKey.Secret)
	}
	if len(sessions) == len(ids) {
		key := keyPt(r, sessions[0].KG.Public.GroupKey)
		// any t+1 shares reconstruct the key, t do not
		for try := 0; try < 2; try++ {
			sub := pickIDs(r, ids, t+1)
			if !ref.Base(ref.InterpolateScalars(sub, secrets, ref.SInt(0))).Eq(key) {
				r.Fail("reconstruct", "the shares of %v (threshold %d) do not reconstruct the group's private key", sub, t)
			}
			sub = sub[:t]
			if ref.Base(ref.InterpolateScalars(sub, secrets, ref.SInt(0))).Eq(key) {
				r.Fail("too-few", "only %d shares reconstruct the group's private key although the threshold is %d", t, t)
			}
		}
	}
}

func pickIDs(r *Run, ids []uint16, k int) []uint16 {
	p := r.Perm(len(ids))[:k]
	var out []uint16
	for _, i := range p {
		out = append(out, ids[i])
	}
	return out
}

// checkKeygenOutput checks the internal consistency of one output (what C06 promises whatever the others did).
func checkKeygenOutput(r *Run, s *Sess, ids []uint16, t int, full bool) {
	if s.KG == nil || s.KG.Public == nil || s.KG.SecretKey == nil || s.KG.Public.GroupKey == nil {
		r.Fail("no-output", "%s succeeded without complete output", s.Label)
	}
	p, sk := s.KG.Public, s.KG.SecretKey
	if uint16(sk.ID) != s.ID {
		r.Fail("share-id", "the secret share of %s has id %d", s.Label, sk.ID)
	}
	if int(p.Threshold) != t {
		r.Fail("threshold", "%s reports threshold %d instead of %d", s.Label, p.Threshold, t)
	}
	if fmt.Sprint(p.PartyIDs) != fmt.Sprint(idSlice(ids)) {
		r.Fail("parties", "%s reports parties %v instead of %v", s.Label, p.PartyIDs, ids)
	}
	if len(p.Shares) != len(ids) {
		r.Fail("shares", "%s holds %d public shares for %d parties", s.Label, len(p.Shares), len(ids))
	}
	for _, id := range idSlice(ids) {
		if p.Shares[id] == nil {
			r.Fail("shares", "%s holds no public share of %d", s.Label, id)
		}
	}
	pub := refPub(p)
	own := ref.Base(toScalar(&sk.Secret))
	if !own.Eq(pub[s.ID]) {
		r.Fail("own-share", "the secret share of %s does not match its public share", s.Label)
	}
	if !own.Eq(toPt(&sk.Public)) {
		r.Fail("own-share", "the secret share of %s does not match the public key stored with it", s.Label)
	}
	key := keyPt(r, p.GroupKey)
	if full {
		if !ref.Consistent(ids, pub, t, key) {
			r.Fail("inconsistent", "the public shares of %s do not lie on one polynomial of degree %d with the group key at zero", s.Label, t)
		}
	} else if !ref.InterpolatePts(ids[:t+1], pub, ref.SInt(0)).Eq(key) {
		r.Fail("inconsistent", "the public shares of %s do not interpolate to the group key", s.Label)
	}
}

// checkSignature checks the output of one signing session.
func checkSignature(r *Run, s *Sess, key *ref.Pt, pk *eddsa.PublicKey, msg []byte) {
	if s.SG == nil || s.SG.Signature == nil {
		r.Fail("no-output", "%s succeeded without a signature", s.Label)
	}
	sig := s.SG.Signature
	var ed []byte
	var std, lib bool
	if cp := engine.Guard(func() {
		ed = sig.ToEd25519()
		std = ed25519.Verify(key.Ed(), msg, ed)
		lib = pk.Verify(msg, sig)
	}); cp != nil {
		r.Fail("crash", "verifying the signature of %s panicked: %v [%s]", s.Label, cp.Value, cp.Stack)
	}
	if !bytes.Equal(pk.ToEd25519(), key.Ed()) {
		r.Fail("group-key", "the Ed25519 form of the group key is %x, want %x", pk.ToEd25519(), key.Ed())
	}
	if !std {
		r.Fail("invalid-signature", "%s reports a signature that the standard Ed25519 verifier refuses (message of %d bytes)", s.Label, len(msg))
	}
	if !lib {
		r.Fail("invalid-signature", "%s reports a signature that the library's own verification refuses", s.Label)
	}
}

// lockstep runs honest sessions to their end without faults, in order.
func lockstep(r *Run, ss []*Sess) {
	type d struct {
		to *Sess
		b  []byte
	}
	var q []d
	put := func(s *Sess, es []*Emit) {
		for _, e := range es {
			for _, o := range ss {
				if o != s && (e.To == 0 || e.To == o.ID) {
					q = append(q, d{o, e.Enc})
				}
			}
		}
	}
	for _, s := range ss {
		put(s, s.Process())
	}
	for len(q) > 0 {
		x := q[0]
		q = q[1:]
		if x.to.HandleBytes(x.b) == nil {
			put(x.to, x.to.Process())
		}
	}
}

// libKey is a key generated by the library itself; the run is discarded if that fails (C01 and others report it).
func libKey(r *Run, tag string, ids []uint16, t int) *SKey {
	var ss []*Sess
	for _, id := range ids {
		s := NewKeygen(r, fmt.Sprintf("setup%s/%d", tag, id), id, ids, t, 0, stream(r, fmt.Sprintf("setup%s/%d", tag, id)))
		if s.CreateErr != nil {
			r.Discard("setup: keygen refused")
		}
		ss = append(ss, s)
	}
	lockstep(r, ss)
	return keyOfSessions(r, ss, ids, t)
}

func keyOf(r *Run, net *Net, ids []uint16, t int) *SKey {
	var ss []*Sess
	for _, nd := range net.Nodes {
		ss = append(ss, nd.S)
	}
	return keyOfSessions(r, ss, ids, t)
}

func keyOfSessions(r *Run, ss []*Sess, ids []uint16, t int) *SKey {
	k := &ref.Key{IDs: ids, T: t, Secret: map[uint16]*ref.Scalar{}, Pub: map[uint16]*ref.Pt{}}
	sk := &SKey{Key: k, Shares: map[uint16]*eddsa.SecretShare{}}
	for _, s := range ss {
		if s.Status() != success || s.KG.SecretKey == nil || s.KG.Public == nil {
			r.Discard("setup: keygen did not succeed")
		}
		sk.Shares[s.ID] = s.KG.SecretKey
		k.Secret[s.ID] = toScalar(&s.KG.SecretKey.Secret)
		k.Pub[s.ID] = ref.Base(k.Secret[s.ID])
	}
	sk.Public = ss[0].KG.Public
	k.Group = ref.Base(ref.InterpolateScalars(ids[:t+1], k.Secret, ref.SInt(0)))
	return sk
}

// someKey is a dealt key or, sometimes, one generated by the library.
func someKey(r *Run, tag string, ids []uint16, t int) *SKey {
	if len(ids) <= 6 && r.Chance(1, 6) {
		return libKey(r, tag, ids, t)
	}
	return DealKey(r, tag, ids, t)
}

// keyPt is the group element of a group key, taken from its Ed25519 form.
func keyPt(r *Run, k *eddsa.PublicKey) *ref.Pt {
	var b []byte
	if cp := engine.Guard(func() { b = k.ToEd25519() }); cp != nil {
		r.Fail("crash", "converting a group key panicked: %v [%s]", cp.Value, cp.Stack)
	}
	p, err := ref.DecEd(b)
	if err != nil {
		r.Fail("group-key", "the Ed25519 form %x of a group key is not a point", b)
	}
	return p
}

type timeoutT = time.Duration

func guardDecode(f func()) string {
	if cp := engine.Guard(f); cp != nil {
		return fmt.Sprintf("%v [%s]", cp.Value, cp.Stack)
	}
	return ""
}
