package main

import (
	"bytes"
	"crypto/ed25519"
	"encoding/json"
	"fmt"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"

	"frostsim.local/sim/engine"
	"frostsim.local/sim/ref"
)

func init() {
	register(&Check{ID: "C28", Scenario: scenC28, Quick: 8000, Thorough: 200000, Real: realLib, Stub: stubNet,
		Rule: "one run makes a few signatures and hands them to verifiers, together with the key and the message, through a network that damages, mixes, repeats and confuses them"})
}

// signed is a signature made by sessions of the library, as published.
type signed struct {
	k    *SKey
	msg  []byte
	sig  *eddsa.Signature
	enc  []byte
	ed   []byte
	json []byte
}

func (s *signed) name() string { return fmt.Sprintf("%x", s.ed[:4]) }

func scenC28(r *Run) {
	// ---- the signatures
	var all []*signed
	var keys []*SKey
	for i := 0; i < 1+r.Choose(2); i++ {
		n := 2 + r.Choose(4)
		ids := genIDs(r, n)
		keys = append(keys, someKey(r, fmt.Sprint("key", i), ids, 1+r.Choose(n-1)))
	}
	for i := 0; i < 1+r.Choose(4); i++ {
		k := keys[r.Choose(len(keys))]
		msg := genMessage(r)
		if i > 0 && r.Chance(1, 3) {
			msg = all[r.Choose(len(all))].msg // the same message once more
		}
		signers := genSigners(r, k.IDs, k.T+1)
		var ss []*Sess
		for _, id := range signers {
			s := NewSign(r, fmt.Sprintf("sg%d/%d", i, id), signers, k.Shares[id], k.Public, msg, 0, stream(r, fmt.Sprintf("sg%d/%d", i, id)))
			if s.CreateErr != nil {
				r.Discard("a valid session was refused")
			}
			ss = append(ss, s)
		}
		lockstep(r, ss)
		s := ss[r.Choose(len(ss))]
		if s.Status() != success || s.SG == nil || s.SG.Signature == nil {
			r.Discard("a valid session did not succeed")
		}
		x := &signed{k: k, msg: msg, sig: s.SG.Signature}
		if p := guardDecode(func() {
			var err error
			if x.enc, err = x.sig.MarshalBinary(); err != nil {
				r.Fail("encode", "a signature cannot be encoded: %v", err)
			}
			pre := append(make([]byte, 0, 200), 1, 2, 3)
			b, err := x.sig.BytesAppend(pre)
			if err != nil || !bytes.Equal(b, append([]byte{1, 2, 3}, x.enc...)) {
				r.Fail("encode", "appending a signature's encoding gives %x instead of 010203%x (%v)", b, x.enc, err)
			}
			if x.sig.Size() != len(x.enc) {
				r.Fail("encode", "a signature announces %d bytes and takes %d", x.sig.Size(), len(x.enc))
			}
			x.ed = x.sig.ToEd25519()
		}); p != "" {
			r.Fail("crash", "encoding a signature panicked: %s", p)
		}
		x.json = marshal(r, "a group key", k.Public.GroupKey)
		if r.Chance(1, 2) {
			x.json = marshal(r, "a group key", *k.Public.GroupKey)
		}
		valid, lib := ed25519.Verify(k.Group.Ed(), msg, x.ed), false
		if p := guardDecode(func() { lib = k.Public.GroupKey.Verify(msg, x.sig) }); p != "" {
			r.Fail("crash", "verifying a signature panicked: %s", p)
		}
		if lib != valid {
			r.Fail("judgement", "of the signature of a session for a message of %d bytes, the library says %v and the standard verifier %v", len(msg), lib, valid)
		}
		if !valid {
			r.Discard("the signature is not valid")
		}
		all = append(all, x)
	}

	// ---- the verifiers
	var keep eddsa.Signature // objects that are reused
	var keepKey eddsa.PublicKey
	accepted, refusedN := 0, 0
	verify := func() {
		a := all[r.Choose(len(all))]
		b := a
		if r.Chance(1, 4) {
			b = all[r.Choose(len(all))]
			r.Fault("mixed-up")
		}
		enc, kj, msg := append([]byte(nil), a.enc...), append([]byte(nil), b.json...), append([]byte(nil), a.msg...)
		how := "intact"
		switch r.Pick(4, 5, 2, 3, 1) {
		case 1:
			enc, how = damageSig(r, enc, all)
			r.Fault("damaged-signature")
		case 2:
			kj, how = damage(r, kj)
			switch r.Choose(5) {
			case 0:
				kj, how = []byte("null"), "null"
			case 1:
				kj, how = marshal(r, "text", special(r)), "special value"
			}
			r.Fault("damaged-key")
		case 3:
			switch r.Choose(4) {
			case 0:
				msg, how = append(msg, 0), "longer message"
			case 1:
				msg, how = all[r.Choose(len(all))].msg, "other message"
			case 2:
				if len(msg) > 0 {
					msg, how = msg[:len(msg)-1], "shorter message"
				}
			case 3:
				if len(msg) > 0 {
					msg[r.Choose(len(msg))] ^= 1 << r.Choose(8)
					how = "changed message"
				}
			}
			r.Fault("damaged-message")
		case 4:
			// a key whose secret is known to all: 0, 1 or the like; and a signature made with it
			rs := randScalars(r.Seed, fmt.Sprint("weak", r.Choose(1000)))
			x := ref.SInt(int64(r.Choose(3)))
			if r.Chance(1, 3) {
				x = ref.SNeg(x)
			}
			key, nonce := ref.Base(x), rs()
			if r.Chance(1, 8) {
				nonce = ref.SInt(0)
			}
			s := ref.SAdd(nonce, ref.SMul(ref.Challenge(ref.Base(nonce), key, msg), x))
			if r.Chance(1, 4) {
				s = ref.SAdd(s, ref.SInt(1))
			}
			enc = append(ref.Base(nonce).Enc(), s.Bytes()...)
			kj, how = marshal(r, "text", key.Enc()), "weak key"
			r.Fault("weak-key")
		}
		sig, pk := &eddsa.Signature{}, &eddsa.PublicKey{}
		if r.Chance(1, 3) {
			sig = &keep
		}
		if r.Chance(1, 3) {
			pk = &keepKey
		}
		buf := append([]byte(nil), enc...)
		kbuf := append([]byte(nil), kj...)
		var err, kerr error
		if p := guardDecode(func() { err = sig.UnmarshalBinary(buf) }); p != "" {
			r.Fail("crash", "decoding a signature (%s) panicked: %s: %x", how, p, enc)
		}
		if p := guardDecode(func() { kerr = json.Unmarshal(kbuf, pk) }); p != "" {
			r.Fail("crash", "decoding a key (%s) panicked: %s: %s", how, p, short(kj))
		}
		for i := range buf {
			buf[i] ^= 0x33
		}
		for i := range kbuf {
			kbuf[i] ^= 0x33
		}
		r.Event("verify %s with key of %s: %s (%v, %v)", a.name(), b.name(), how, err != nil, kerr != nil)
		if bytes.Equal(enc, a.enc) && err != nil {
			r.Fail("refused", "an intact signature is refused: %v", err)
		}
		if bytes.Equal(kj, b.json) && kerr != nil {
			r.Fail("refused", "an intact group key is refused: %v", kerr)
		}
		if err != nil || kerr != nil {
			refusedN++
			return
		}
		var ed []byte
		var kb []byte
		var lib bool
		before := string(msg)
		if p := guardDecode(func() {
			enc2, err := sig.MarshalBinary()
			if err != nil || !bytes.Equal(enc2, enc) {
				r.Fail("re-encode", "a signature decoded from %x (%s) re-encodes to %x (%v)", enc, how, enc2, err)
			}
			kb = pk.ToEd25519()
			lib = pk.Verify(msg, sig)
			ed = sig.ToEd25519()
			// nobody's copy is the verifier's own
			scratch := sig.ToEd25519()
			for i := range scratch {
				scratch[i] = 0
			}
			if k := pk.ToEd25519(); len(k) > 0 {
				k[0] ^= 1
			}
			if pk.Verify(msg, sig) != lib || !bytes.Equal(sig.ToEd25519(), ed) || !bytes.Equal(pk.ToEd25519(), kb) || string(msg) != before {
				r.Fail("altered", "verifying a signature (%s) twice gives different answers or changes what is verified", how)
			}
		}); p != "" {
			r.Fail("crash", "verifying a signature (%s) panicked: %s: signature %x key %s", how, p, enc, short(kj))
		}
		want := false
		for _, x := range all {
			if bytes.Equal(x.enc, enc) && bytes.Equal(x.k.Group.Ed(), kb) && bytes.Equal(x.msg, msg) {
				want = true
				if !bytes.Equal(ed, x.ed) {
					r.Fail("re-encode", "the Ed25519 form of a signature was %x and is %x after it was decoded", x.ed, ed)
				}
				if !sig.Equal(x.sig) || !x.sig.Equal(sig) || !pk.Equal(x.k.Public.GroupKey) {
					r.Fail("re-encode", "a decoded signature or group key does not equal the one that was encoded")
				}
			} else if !bytes.Equal(x.enc, enc) && (sig.Equal(x.sig) || x.sig.Equal(sig)) {
				r.Fail("equal", "signature %x is said to equal %x", enc, x.enc)
			}
		}
		std := len(kb) == 32 && ed25519.Verify(kb, msg, ed)
		if lib != std {
			r.Fail("disagree", "the library says %v and the standard verifier %v about signature %x (%s) for %d bytes under key %x", lib, std, enc, how, len(msg), kb)
		}
		if lib && !want && !weakKey(kb, all) {
			r.Fail("forged", "signature %x (%s), which nobody made for this message and key, is accepted", enc, how)
		}
		if want && !lib {
			r.Fail("refused", "a signature made by a successful session (%s) is not accepted", how)
		}
		if lib {
			accepted++
			r.Note("accepted:" + how)
		} else {
			r.Note("rejected")
		}
	}
	trials := 2 + r.Choose(10)
	for i := 0; i < trials; i++ {
		verify()
	}

	if len(all) > 1 && r.Chance(1, 4) {
		// several verifiers at the same time, using the same objects
		type res struct {
			a, b *signed
			ok   bool
			ed   []byte
			p    *engine.CodePanic
		}
		var rs []*res
		schedStart()
		for i := 0; i < 2+r.Choose(3); i++ {
			x := &res{a: all[r.Choose(len(all))], b: all[r.Choose(len(all))]}
			if r.Chance(1, 2) {
				x.b = x.a
			}
			rs = append(rs, x)
			spawn(nil, func(*client) {
				x.p = engine.Guard(func() {
					x.ok = x.a.k.Public.GroupKey.Verify(x.b.msg, x.b.sig)
					x.ed = x.b.sig.ToEd25519()
				})
			})
		}
		schedule(r, func(bool) bool { return false })
		schedStop()
		r.Note("concurrent-verifiers")
		for _, x := range rs {
			if x.p != nil {
				r.Fail("crash", "verifying concurrently panicked: %v [%s]", x.p.Value, x.p.Stack)
			}
			if x.ok != bytes.Equal(x.a.k.Group.Ed(), x.b.k.Group.Ed()) || !bytes.Equal(x.ed, x.b.ed) {
				r.Fail("altered", "a signature verified concurrently with others: the library says %v", x.ok)
			}
		}
	}
	for _, x := range all {
		if b, err := x.sig.MarshalBinary(); err != nil || !bytes.Equal(b, x.enc) || !bytes.Equal(x.k.Public.GroupKey.ToEd25519(), x.k.Group.Ed()) {
			r.Fail("altered", "a published signature or key has changed")
		}
	}
	r.Sched(accepted, refusedN, trials)
	r.Sample = fmt.Sprintf("%d signatures, %d verifications: %d accepted, %d refused when decoding", len(all), trials, accepted, refusedN)
}

// weakKey: the key is none of those that signed, so that anybody may know its secret.
func weakKey(kb []byte, all []*signed) bool {
	for _, x := range all {
		if bytes.Equal(x.k.Group.Ed(), kb) {
			return false
		}
	}
	return true
}

func damageSig(r *Run, enc []byte, all []*signed) ([]byte, string) {
	o := all[r.Choose(len(all))]
	addOrder := func(b []byte, k int) {
		order := []byte{0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 31: 0x10}
		for ; k > 0; k-- {
			c := 0
			for i := range b {
				c += int(b[i]) + int(order[i])
				b[i] = byte(c)
				c >>= 8
			}
		}
	}
	switch r.Choose(11) {
	case 0:
		enc[r.Choose(len(enc))] ^= 1 << r.Choose(8)
		return enc, "bit flipped"
	case 1:
		return enc[:r.Choose(len(enc))], "truncated"
	case 2:
		return append(enc, r.Bytes(1+r.Choose(40))...), "trailing bytes"
	case 3:
		addOrder(enc[32:], 1+r.Choose(7))
		return enc, "S not reduced"
	case 4:
		copy(enc[:32], o.enc[:32])
		return enc, "R of another"
	case 5:
		copy(enc[32:], o.enc[32:])
		return enc, "S of another"
	case 6:
		copy(enc[32*r.Choose(2):], special(r))
		return enc, "special value"
	case 7:
		p, err := ref.Dec(enc[:32])
		if err == nil {
			copy(enc, p.Neg().Enc())
		}
		return enc, "R negated"
	case 8:
		s, err := ref.SDecode(enc[32:])
		if err == nil {
			copy(enc[32:], ref.SNeg(s).Bytes())
		}
		return enc, "S negated"
	case 9:
		copy(enc, o.ed[:32])
		return enc, "R in Ed25519 form"
	}
	return append(append([]byte(nil), enc[32:]...), enc[:32]...), "halves swapped"
}
