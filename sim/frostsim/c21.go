package main

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"time"

	"frostsim.local/sim/engine"
	"frostsim.local/sim/ref"
)

func init() {
	register(&Check{ID: "C21", Scenario: scenC21, Quick: 10000, Thorough: 100000, Real: realLib, Stub: stubNet + "; dishonest participants are simulated with an independent implementation",
		Rule: "one run is a history of honest and attacked key generations and signing sessions, some ended by timeouts; every emitted message (encoding and object), every error text and every exported public value is searched for every secret of the library's parties"})
}

// leakScan collects what leaves the sessions and what must not.
type leakScan struct {
	r     *Run
	sess  []*Sess
	msgs  []leakMsg
	texts []leakText
	pubs  []leakText
}

type leakMsg struct {
	e      *Emit
	s      *Sess
	blocks [][]byte
}

type leakText struct {
	where string
	s     string
	raw   [][]byte
}

func (l *leakScan) watch(net *Net) {
	old := net.OnEmit
	net.OnEmit = func(nd *Node, es []*Emit) {
		if old != nil {
			old(nd, es)
		}
		l.emitted(nd.S, es)
	}
	oldH := net.OnHandled
	net.OnHandled = func(nd *Node, p *Pkt, err error) {
		if oldH != nil {
			oldH(nd, p, err)
		}
		l.err(nd.S.Label+" HandleMessage", err)
	}
}

func (l *leakScan) emitted(s *Sess, es []*Emit) {
	for _, e := range es {
		m := leakMsg{e: e, s: s}
		for _, b := range reach(e.Msg) {
			m.blocks = append(m.blocks, append([]byte(nil), b...))
		}
		l.msgs = append(l.msgs, m)
	}
}

func (l *leakScan) err(where string, err error) {
	if err == nil {
		return
	}
	for _, f := range []string{"%v", "%+v", "%#v"} {
		var t string
		if engine.Guard(func() { t = fmt.Sprintf(f, err) }) == nil {
			l.texts = append(l.texts, leakText{where: where + " error", s: t})
		}
		if f == "%+v" && len(l.texts) > 400 {
			break
		}
	}
}

func (l *leakScan) done(net *Net) {
	for _, nd := range net.Nodes {
		if nd.S != nil {
			l.finished(nd.S)
		}
	}
}

func (l *leakScan) finished(s *Sess) {
	l.sess = append(l.sess, s)
	l.err(s.Label, s.Err())
	if s.Status() != success {
		return
	}
	add := func(where string, v any, raw ...[]byte) {
		t := leakText{where: s.Label + " " + where, raw: raw}
		if v != nil {
			if b, err := json.Marshal(v); err == nil {
				t.s = string(b)
			}
			for _, b := range reach(v) {
				t.raw = append(t.raw, append([]byte(nil), b...))
			}
		}
		l.pubs = append(l.pubs, t)
	}
	if s.Kind == kindKeygen && s.KG.Public != nil {
		add("public output", s.KG.Public)
	}
	if s.Kind == kindSign && s.SG.Signature != nil {
		b, _ := s.SG.Signature.MarshalBinary()
		add("signature", s.SG.Signature, b, s.SG.Signature.ToEd25519())
	}
}

type leakSecret struct {
	what  string
	by    *Sess
	to    uint16 // the one addressee that may get it
	v     *ref.Scalar
	parts [][]byte // 16-byte windows of its images
	text  []string
}

func newLeakSecret(what string, by *Sess, to uint16, v *ref.Scalar) leakSecret {
	s := leakSecret{what: what, by: by, to: to, v: v}
	sv := mkSecret(what, v)
	for _, img := range sv.img {
		for o := 0; o+16 <= len(img); o += 8 {
			w := img[o : o+16]
			if len(bytes.Trim(w, "\x00")) < 12 {
				continue
			}
			s.parts = append(s.parts, w)
		}
	}
	le := v.Bytes()
	be := append([]byte(nil), le...)
	for i, j := 0, len(be)-1; i < j; i, j = i+1, j-1 {
		be[i], be[j] = be[j], be[i]
	}
	for _, b := range [][]byte{le, be} {
		s.text = append(s.text, hex.EncodeToString(b)[8:40], base64.StdEncoding.EncodeToString(b)[:24], base64.URLEncoding.EncodeToString(b)[:24],
			strings.Trim(fmt.Sprint(b[4:20]), "[]"), new(big.Int).SetBytes(b).String())
		h := ""
		for i, c := range b[4:12] {
			if i > 0 {
				h += ", "
			}
			h += fmt.Sprintf("0x%x", c)
		}
		s.text = append(s.text, h)
	}
	return s
}

// coefficients interpolates the polynomial through the values.
func coefficients(ids []uint16, v map[uint16]*ref.Scalar) []*ref.Scalar {
	n := len(ids)
	out := make([]*ref.Scalar, n)
	// prod (x - xj)
	all := []*ref.Scalar{ref.SInt(1)}
	for i := range out {
		out[i] = ref.SInt(0)
		x := ref.SID(ids[i])
		next := make([]*ref.Scalar, len(all)+1)
		next[len(all)] = all[len(all)-1]
		for j := len(all) - 1; j > 0; j-- {
			next[j] = ref.SSub(all[j-1], ref.SMul(all[j], x))
		}
		next[0] = ref.SNeg(ref.SMul(all[0], x))
		all = next
	}
	for _, id := range ids {
		// without (x - xi), scaled to the value at xi
		x := ref.SID(id)
		q := make([]*ref.Scalar, n)
		at := ref.SInt(0)
		for j := n - 1; j >= 0; j-- {
			q[j] = all[j+1]
			if j < n-1 {
				q[j] = ref.SAdd(q[j], ref.SMul(q[j+1], x))
			}
			at = ref.SAdd(ref.SMul(at, x), q[j])
		}
		w := ref.SMul(v[id], ref.SInv(at))
		for j := range q {
			out[j] = ref.SAdd(out[j], ref.SMul(q[j], w))
		}
	}
	return out
}

// secretsOf lists the secrets of a session.
func (l *leakScan) secretsOf(s *Sess, ids []uint16, t int, share *ref.Scalar, signers []uint16) (out []leakSecret) {
	for _, x := range drawnSecrets(s.Rand, s.Out) {
		out = append(out, newLeakSecret(x.what, s, 0, x.s))
	}
	if share != nil {
		out = append(out, newLeakSecret("secret key share", s, 0, share))
		if len(signers) > 0 {
			out = append(out, newLeakSecret("weighted key share", s, 0, ref.SMul(share, ref.Lagrange(s.ID, signers, ref.SInt(0)))))
		}
	}
	// the bytes drawn from the randomness source themselves
	off := 0
	for _, n := range s.Rand.Chunks {
		if n >= 16 {
			w := leakSecret{what: "randomness", by: s}
			for o := off; o+16 <= off+n; o += 16 {
				w.parts = append(w.parts, s.Rand.Drawn[o:o+16])
			}
			out = append(out, w)
		}
		off += n
	}
	if s.Kind != kindKeygen {
		return out
	}
	vals := map[uint16]*ref.Scalar{}
	var have []uint16
	for _, e := range s.Out {
		m, err := ref.Decode(e.Enc)
		if err == nil && m.Type == ref.KG2 && vals[m.To] == nil && m.To != s.ID {
			vals[m.To] = m.Z
			have = append(have, m.To)
		}
	}
	if len(have) >= t+1 {
		c := coefficients(have[:t+1], vals)
		for i, x := range c {
			out = append(out, newLeakSecret(fmt.Sprintf("polynomial coefficient %d", i), s, 0, x))
		}
		own := ref.Poly(c).Eval(ref.SID(s.ID))
		out = append(out, newLeakSecret("own share of the own polynomial", s, 0, own))
	}
	for _, id := range have {
		out = append(out, newLeakSecret(fmt.Sprintf("share for %d", id), s, id, vals[id]))
	}
	if s.Status() == success && s.KG.SecretKey != nil {
		out = append(out, newLeakSecret("secret key share", s, 0, toScalar(&s.KG.SecretKey.Secret)))
	}
	return out
}

func (l *leakScan) check(secrets []leakSecret) {
	r := l.r
	for _, m := range l.msgs {
		x, err := ref.Decode(m.e.Enc)
		if err != nil {
			r.Fail("unknown-message", "%s emitted a message that is none of the documented ones: %s", m.s.Label, short(m.e.Enc))
		}
		if (x.Type == ref.KG2) != (x.To != 0) {
			r.Fail("addressing", "%s emitted a message of type %d addressed to %d", m.s.Label, x.Type, x.To)
		}
		if x.From != m.s.ID {
			r.Fail("addressing", "%s emitted a message in the name of %d", m.s.Label, x.From)
		}
	}
	for i := range secrets {
		s := &secrets[i]
		for _, m := range l.msgs {
			mine := s.to != 0 && m.s == s.by && m.e.To == s.to && m.e.Type == ref.KG2
			for _, p := range s.parts {
				if !mine && bytes.Contains(m.e.Enc, p) {
					r.Fail("leak", "the message of type %d from %s to %d contains a secret of %s: %s", m.e.Type, m.s.Label, m.e.To, s.by.Label, s.what)
				}
				if !mine && containsSecret(m.blocks, p) {
					r.Fail("leak-object", "the message object of type %d from %s to %d gives access to a secret of %s: %s", m.e.Type, m.s.Label, m.e.To, s.by.Label, s.what)
				}
			}
			if mine && bytes.Count(m.e.Enc, s.v.Bytes()) != 1 {
				r.Fail("share-message", "the share message from %s to %d does not hold the share once", m.s.Label, m.e.To)
			}
		}
		for _, set := range [][]leakText{l.texts, l.pubs} {
			for _, t := range set {
				for _, w := range s.text {
					if t.s != "" && strings.Contains(t.s, w) {
						r.Fail("leak-text", "%s contains a secret of %s: %s", t.where, s.by.Label, s.what)
					}
				}
				for _, p := range s.parts {
					if bytes.Contains([]byte(t.s), p) || containsSecret(t.raw, p) {
						r.Fail("leak-text", "%s contains a secret of %s: %s", t.where, s.by.Label, s.what)
					}
				}
			}
		}
	}
}

func scenC21(r *Run) {
	l := &leakScan{r: r}
	var secrets []leakSecret
	finish := func(net *Net) {
		if r.Chance(1, 3) {
			net.finishByTimeout(tenHours)
		}
		l.done(net)
	}
	switch r.Pick(3, 3, 3) {
	case 0: // attacked key generation
		to := tenHours
		createTimeout = &to
		a := genKgAttack(r, r.Chance(1, 2))
		l.watch(a.net)
		a.net.Configure()
		a.net.Run(nil)
		createTimeout = nil
		finish(a.net)
		for _, s := range l.sess {
			secrets = append(secrets, l.secretsOf(s, a.ids, a.t, nil, nil)...)
		}
		r.Sample = fmt.Sprintf("attacked key generation of %v: nothing leaks", a.ids)
	case 1: // attacked signing
		to := tenHours
		createTimeout = &to
		a := genSgAttack(r, func(n, t int) int { return t + 1 }, false)
		l.watch(a.net)
		a.net.Configure()
		a.net.Run(nil)
		createTimeout = nil
		finish(a.net)
		for _, s := range l.sess {
			secrets = append(secrets, l.secretsOf(s, nil, 0, a.k.Secret[s.ID], a.signers)...)
		}
		r.Sample = fmt.Sprintf("attacked signing by %v: nothing leaks", a.signers)
	case 2: // a history: key generation and several sessions with the key
		n := 2 + r.Choose(5)
		ids := genIDs(r, n)
		t := genT(r, n)
		net := keygenNet(r, ids, t, func() time.Duration { return tenHours }, "")
		l.watch(net)
		net.Configure()
		stop := func() bool { return false }
		if r.Chance(1, 6) {
			left := r.Choose(6 * n)
			stop = func() bool { left--; return left < 0 }
		}
		net.Run(stop)
		finish(net)
		shares := map[uint16]*Sess{}
		for _, nd := range net.Nodes {
			if nd.S == nil {
				continue
			}
			secrets = append(secrets, l.secretsOf(nd.S, ids, t, nil, nil)...)
			if nd.S.Status() == success && nd.S.KG.Public != nil && nd.S.KG.SecretKey != nil {
				shares[nd.ID] = nd.S
			}
		}
		if len(shares) == n {
			for k := 1 + r.Choose(3); k > 0; k-- {
				signers := genSigners(r, ids, t+1)
				sn := NewNet(r)
				for _, id := range signers {
					s := shares[id]
					addSign(sn, id, signers, s.KG.SecretKey, s.KG.Public, genMessage(r), tenHours, fmt.Sprint(k))
				}
				if r.Chance(2, 3) {
					// one message for all
					msg := genMessage(r)
					sn = NewNet(r)
					for _, id := range signers {
						s := shares[id]
						addSign(sn, id, signers, s.KG.SecretKey, s.KG.Public, msg, tenHours, fmt.Sprint(k))
					}
				}
				l.watch(sn)
				sn.Configure()
				sn.Run(nil)
				finish(sn)
				for _, nd := range sn.Nodes {
					secrets = append(secrets, l.secretsOf(nd.S, nil, 0, toScalar(&shares[nd.ID].KG.SecretKey.Secret), signers)...)
				}
			}
		}
		r.Sample = fmt.Sprintf("key generation of %v and signing sessions: nothing leaks", ids)
	}
	l.check(secrets)
	r.Note(fmt.Sprintf("secrets:%d+", len(secrets)/25*25))
	r.Trivial = len(secrets) == 0
}
