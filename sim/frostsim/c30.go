package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"

	"frostsim.local/sim/ref"
)

func init() {
	register(&Check{ID: "C30", Scenario: scenC30, Quick: 5000, Thorough: 100000, Real: realLib, Stub: stubNet + "; earlier versions are simulated with an independent implementation of the encodings",
		Rule: "one run is a rolling upgrade: holders stop and restart from key files written by the old or the new version, read by the new or the old one, and sign with each other under a random schedule with faults"})
}

// oldFile writes JSON the way an earlier version or a tool that reformats it may have: any order of keys, any white space.
type oldFile struct {
	b  strings.Builder
	r  *Run
	ws bool
}

func (f *oldFile) space() {
	if f.ws && f.r.Chance(1, 2) {
		f.b.WriteString([]string{" ", "\n", "\t", "\r\n  "}[f.r.Choose(4)])
	}
}

func (f *oldFile) object(keys []string, value func(i int)) {
	f.b.WriteByte('{')
	for n, i := range f.r.Perm(len(keys)) {
		if n > 0 {
			f.b.WriteByte(',')
		}
		f.space()
		fmt.Fprintf(&f.b, "%q", keys[i])
		f.space()
		f.b.WriteByte(':')
		f.space()
		value(i)
		f.space()
	}
	f.b.WriteByte('}')
}

func (f *oldFile) bytes(b []byte) { fmt.Fprintf(&f.b, "%q", base64.StdEncoding.EncodeToString(b)) }

func (f *oldFile) share(id uint16, s *ref.Scalar) {
	f.object([]string{"id", "secret"}, func(i int) {
		if i == 0 {
			fmt.Fprint(&f.b, id)
		} else {
			f.bytes(s.Bytes())
		}
	})
}

func (f *oldFile) public(k *ref.Key) {
	f.object([]string{"t", "groupkey", "shares"}, func(i int) {
		switch i {
		case 0:
			fmt.Fprint(&f.b, k.T)
		case 1:
			f.bytes(k.Group.Enc())
		case 2:
			var names []string
			for _, id := range k.IDs {
				names = append(names, fmt.Sprint(id))
			}
			f.object(names, func(j int) { f.bytes(k.Pub[k.IDs[j]].Enc()) })
		}
	})
}

func scenC30(r *Run) {
	n := genN(r, 2)
	if n > 12 {
		n = 12
	}
	ids := genIDs(r, n)
	t := genT(r, n)
	k := someKey(r, "", ids, t)
	want := k.Key
	old := func(what string, f func(*oldFile)) []byte {
		o := &oldFile{r: r, ws: r.Chance(1, 3)}
		f(o)
		if !json.Valid([]byte(o.b.String())) {
			panic("not JSON: " + o.b.String())
		}
		return []byte(o.b.String())
	}
	load := func(what string, b []byte, f func([]byte) error) {
		var err error
		if p := guardDecode(func() { err = f(b) }); p != "" {
			r.Fail("crash", "reading %s of the earlier version panicked: %s", what, p)
		}
		if err != nil {
			r.Fail("refused", "%s written by the earlier version is refused: %v: %s", what, err, short(b))
		}
	}
	// ---- what the new version reads of the old one
	newPublic := func() *eddsa.Public {
		var p eddsa.Public
		if r.Chance(1, 3) {
			b := old("a wallet", func(f *oldFile) {
				f.object([]string{"Secrets", "Shares"}, func(i int) {
					if i == 1 {
						f.public(want)
						return
					}
					f.b.WriteString("{}")
				})
			})
			var w wallet
			load("a wallet", b, func(b []byte) error { return json.Unmarshal(b, &w) })
			if w.Shares == nil {
				r.Fail("changed", "the public data of a wallet written by the earlier version is missing")
			}
			p = *w.Shares
		} else {
			load("public data", old("public data", func(f *oldFile) { f.public(want) }), func(b []byte) error { return json.Unmarshal(b, &p) })
		}
		if x, y := renderPublic(&p), renderPublic(k.Public); x != y {
			r.Fail("changed", "public data of the earlier version is read as %s, it was %s", x, y)
		}
		return &p
	}
	newShare := func(id uint16) *eddsa.SecretShare {
		var s eddsa.SecretShare
		switch r.Choose(3) {
		case 0:
			load("a share (binary)", append([]byte{byte(id >> 8), byte(id)}, want.Secret[id].Bytes()...), s.UnmarshalBinary)
		case 1:
			load("a share", old("a share", func(f *oldFile) { f.share(id, want.Secret[id]) }), func(b []byte) error { return json.Unmarshal(b, &s) })
		case 2:
			b := old("a wallet", func(f *oldFile) {
				f.object([]string{"Secrets"}, func(int) {
					f.object([]string{fmt.Sprint(id)}, func(int) { f.share(id, want.Secret[id]) })
				})
			})
			var w wallet
			load("a wallet", b, func(b []byte) error { return json.Unmarshal(b, &w) })
			if w.Secrets[party.ID(id)] == nil {
				r.Fail("changed", "the share of %d in a wallet written by the earlier version is missing", id)
			}
			s = *w.Secrets[party.ID(id)]
		}
		if x, y := renderShare(&s), renderShare(k.Shares[id]); x != y {
			r.Fail("changed", "a share of the earlier version is read differently")
		}
		return &s
	}
	// ---- what the old version reads of the new one
	oldKey := func(id uint16) *ref.Key {
		w := wallet{Secrets: map[party.ID]*eddsa.SecretShare{party.ID(id): k.Shares[id]}, Shares: k.Public}
		b := indent(r, marshal(r, "secrets and public data", w))
		var f rawKeyFile
		if err := json.Unmarshal(b, &f); err != nil {
			r.Fail("unreadable", "the earlier version cannot read %s: %v", short(b), err)
		}
		o := &ref.Key{T: t, Secret: map[uint16]*ref.Scalar{}, Pub: map[uint16]*ref.Pt{}, IDs: ids}
		if (f.Shares.T != nil && *f.Shares.T != t) || (f.Shares.T == nil && t != 0) || len(f.Shares.Shares) != n {
			r.Fail("unreadable", "the earlier version does not find threshold %d and %d shares in %s", t, n, short(b))
		}
		var err error
		if o.Group, err = ref.Dec(f.Shares.GroupKey); err != nil || !o.Group.Eq(want.Group) {
			r.Fail("unreadable", "the earlier version reads another group key: %x (%v)", f.Shares.GroupKey, err)
		}
		for _, i := range ids {
			p, err := ref.Dec(f.Shares.Shares[fmt.Sprint(i)])
			if err != nil || !p.Eq(want.Pub[i]) {
				r.Fail("unreadable", "the earlier version reads another public share of %d: %x (%v)", i, f.Shares.Shares[fmt.Sprint(i)], err)
			}
			o.Pub[i] = p
		}
		s := f.Secrets[fmt.Sprint(id)]
		x, err := ref.SDecode(s.Secret)
		if err != nil || s.ID != int(id) || !ref.SEq(x, want.Secret[id]) {
			r.Fail("unreadable", "the earlier version reads another share of %d", id)
		}
		bin, err := k.Shares[id].MarshalBinary()
		if err != nil || !bytes.Equal(bin, append([]byte{byte(id >> 8), byte(id)}, want.Secret[id].Bytes()...)) {
			r.Fail("unreadable", "the binary encoding of a share has changed (%v)", err)
		}
		o.Secret[id] = x
		return o
	}

	signers := genSigners(r, ids, t+1)
	msg := genMessage(r)
	net := NewNet(r)
	nNew := 0
	mode := ""
	for i, id := range signers {
		m := r.Pick(3, 2, 1, 1)
		if i == len(signers)-1 && nNew == 0 {
			m = 0
		}
		r.Sched(int(id), m)
		switch m {
		case 0: // upgraded: files of the old version
			nNew++
			addSign(net, id, signers, newShare(id), newPublic(), msg, 0, "")
		case 1: // downgraded: files of the new version
			refSignNode(net, id, signers, oldKey(id), msg)
		case 2: // always the new version
			nNew++
			addSign(net, id, signers, k.Shares[id], k.Public, msg, 0, "")
		case 3: // still the old version
			refSignNode(net, id, signers, want, msg)
		}
		mode += string("udno"[m])
		r.Fault([]string{"upgrade", "downgrade", "no-restart", "old-version"}[m])
	}
	r.Event("restarts %s", mode)
	net.Configure()
	net.Run(nil)
	var sig *eddsa.Signature
	for _, nd := range net.Nodes {
		if !nd.Real() {
			continue
		}
		if nd.S.Status() != success {
			r.Fail("no-signature", "%s does not sign after an upgrade: %s", nd.S.Label, nd.S.Describe())
		}
		checkSignature(r, nd.S, want.Group, k.Public.GroupKey, msg)
		sig = nd.S.SG.Signature
	}
	// ---- signatures and keys between versions
	sb, err := sig.MarshalBinary()
	if err != nil || len(sb) != 64 {
		r.Fail("unreadable", "the encoding of a signature has changed: %x (%v)", sb, err)
	}
	rp, e1 := ref.Dec(sb[:32])
	sp, e2 := ref.SDecode(sb[32:])
	if e1 != nil || e2 != nil || !ref.VerifySig(want.Group, msg, rp, sp) {
		r.Fail("unreadable", "the earlier version does not accept the encoding of the signature (%v, %v)", e1, e2)
	}
	var s2 eddsa.Signature
	load("a signature", append(rp.Enc(), sp.Bytes()...), s2.UnmarshalBinary)
	var gk eddsa.PublicKey
	load("a group key", old("a group key", func(f *oldFile) { f.bytes(want.Group.Enc()) }), func(b []byte) error { return json.Unmarshal(b, &gk) })
	if !gk.Verify(msg, &s2) {
		r.Fail("changed", "a signature and a group key of the earlier version do not match any more")
	}
	var kb []byte
	if b := marshal(r, "the group key", k.Public.GroupKey); json.Unmarshal(b, &kb) != nil || !bytes.Equal(kb, want.Group.Enc()) {
		r.Fail("unreadable", "the earlier version reads another group key from %s", short(b))
	}
	r.Sample = fmt.Sprintf("n=%d t=%d signers restarted as %s", n, t, mode)
}
