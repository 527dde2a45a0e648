package ref

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha512"
	"encoding/binary"
	"fmt"
)

// Message types on the wire.
const (
	KG1 = 1
	KG2 = 2
	SG1 = 3
	SG2 = 4
)

// Msg is a decoded message.
type Msg struct {
	Type     byte
	From, To uint16
	// KG1
	S, R *Scalar
	C    Commitments
	// KG2 share, SG2 signature share
	Z *Scalar
	// SG1
	D, E *Pt
}

func Header(t byte, from, to uint16) []byte {
	b := make([]byte, 5)
	b[0] = t
	binary.BigEndian.PutUint16(b[1:], from)
	binary.BigEndian.PutUint16(b[3:], to)
	return b
}

func EncKG1(from uint16, s, r *Scalar, c Commitments) []byte {
	b := Header(KG1, from, 0)
	b = append(b, s.Bytes()...)
	b = append(b, r.Bytes()...)
	b = binary.BigEndian.AppendUint16(b, uint16(len(c)-1))
	for _, p := range c {
		b = append(b, p.Enc()...)
	}
	return b
}

func EncKG2(from, to uint16, share *Scalar) []byte {
	return append(Header(KG2, from, to), share.Bytes()...)
}

func EncSG1(from uint16, d, e *Pt) []byte {
	b := Header(SG1, from, 0)
	b = append(b, d.Enc()...)
	return append(b, e.Enc()...)
}

func EncSG2(from uint16, z *Scalar) []byte { return append(Header(SG2, from, 0), z.Bytes()...) }

// Decode is strict.
func Decode(b []byte) (*Msg, error) {
	if len(b) < 5 {
		return nil, fmt.Errorf("ref: %d bytes", len(b))
	}
	m := &Msg{Type: b[0], From: binary.BigEndian.Uint16(b[1:]), To: binary.BigEndian.Uint16(b[3:])}
	p := b[5:]
	if m.From == 0 {
		return nil, fmt.Errorf("ref: from 0")
	}
	if (m.Type == KG2) != (m.To != 0) {
		return nil, fmt.Errorf("ref: type %d to %d", m.Type, m.To)
	}
	var err error
	switch m.Type {
	case KG1:
		if len(p) < 66 {
			return nil, ErrEncoding
		}
		if m.S, err = SDecode(p[:32]); err != nil {
			return nil, err
		}
		if m.R, err = SDecode(p[32:64]); err != nil {
			return nil, err
		}
		n := int(binary.BigEndian.Uint16(p[64:])) + 1
		p = p[66:]
		if len(p) != 32*n {
			return nil, ErrEncoding
		}
		for i := 0; i < n; i++ {
			pt, err := Dec(p[32*i : 32*i+32])
			if err != nil {
				return nil, err
			}
			m.C = append(m.C, pt)
		}
	case KG2, SG2:
		if m.Z, err = SDecode(p); err != nil {
			return nil, err
		}
	case SG1:
		if len(p) != 64 {
			return nil, ErrEncoding
		}
		if m.D, err = Dec(p[:32]); err != nil {
			return nil, err
		}
		if m.E, err = Dec(p[32:]); err != nil {
			return nil, err
		}
	default:
		return nil, fmt.Errorf("ref: type %d", m.Type)
	}
	return m, nil
}

func be(id uint16) []byte { return []byte{byte(id >> 8), byte(id)} }

// PoKChallenge is H(id || context || public || M) with the all-zero context.
func PoKChallenge(id uint16, public, m *Pt) *Scalar {
	return Hash(be(id), make([]byte, 32), public.Enc(), m.Enc())
}

// Prove returns (S, R).
func Prove(id uint16, secret, k *Scalar) (*Scalar, *Scalar) {
	s := PoKChallenge(id, Base(secret), Base(k))
	return s, SAdd(SMul(secret, s), k)
}

// PoKNonce is M = [R]B - [S]public.
func PoKNonce(public *Pt, s, r *Scalar) *Pt { return Base(r).Sub(public.Mul(s)) }

func VerifyPoK(id uint16, public *Pt, s, r *Scalar) bool {
	return SEq(s, PoKChallenge(id, public, PoKNonce(public, s, r)))
}

// Rho is the binding factor of id: H("FROST-SHA512" || id || SHA-512(message) || B), B the sorted list of (id, D, E).
func Rho(id uint16, message []byte, ids []uint16, d, e map[uint16]*Pt) *Scalar {
	return rho(id, message, blist(ids, d, e))
}

func blist(ids []uint16, d, e map[uint16]*Pt) []byte {
	var b []byte
	for _, j := range ids {
		b = append(b, be(j)...)
		b = append(b, d[j].Enc()...)
		b = append(b, e[j].Enc()...)
	}
	return b
}

func rho(id uint16, message, b []byte) *Scalar {
	mh := sha512.Sum512(message)
	return Hash([]byte("FROST-SHA512"), be(id), mh[:], b)
}

// Challenge is the Ed25519 challenge.
func Challenge(r, key *Pt, message []byte) *Scalar { return Hash(r.Ed(), key.Ed(), message) }

// SignTranscript is what everybody can compute from the first round.
type SignTranscript struct {
	IDs  []uint16
	Rho  map[uint16]*Scalar
	Ri   map[uint16]*Pt
	D, E map[uint16]*Pt
	R    *Pt
	C    *Scalar
}

func NewSignTranscript(ids []uint16, message []byte, key *Pt, d, e map[uint16]*Pt) *SignTranscript {
	t := &SignTranscript{IDs: ids, Rho: map[uint16]*Scalar{}, Ri: map[uint16]*Pt{}, D: d, E: e, R: Identity()}
	b := blist(ids, d, e)
	for _, id := range ids {
		t.Rho[id] = rho(id, message, b)
		t.Ri[id] = d[id].Add(e[id].Mul(t.Rho[id]))
		t.R = t.R.Add(t.Ri[id])
	}
	t.C = Challenge(t.R, key, message)
	return t
}

// ShareOK checks z*B == D + rho*E + c*lambda*A.
func (t *SignTranscript) ShareOK(id uint16, z *Scalar, public *Pt) bool {
	l := Lagrange(id, t.IDs, SInt(0))
	return Base(z).Eq(t.Ri[id].Add(public.Mul(SMul(l, t.C))))
}

// VerifySig checks a signature given as R and S with the standard library's Ed25519.
func VerifySig(key *Pt, message []byte, r *Pt, s *Scalar) bool {
	return ed25519.Verify(key.Ed(), message, append(r.Ed(), s.Bytes()...))
}

// KeygenParty is an honest participant in key generation.
type KeygenParty struct {
	ID    uint16
	IDs   []uint16
	T     int
	Poly  Poly
	K     *Scalar
	Got1  map[uint16]*Msg
	Got2  map[uint16]*Scalar
	Err   error
	Blame uint16
	Done  bool
	// results
	Secret *Scalar
	Pub    map[uint16]*Pt
	Key    *Pt
	round  int
}

// RandScalar draws a scalar.
type RandScalar func() *Scalar

func NewKeygenParty(id uint16, ids []uint16, t int, rnd RandScalar) *KeygenParty {
	k := &KeygenParty{ID: id, IDs: ids, T: t, K: rnd(), Got1: map[uint16]*Msg{}, Got2: map[uint16]*Scalar{}}
	for i := 0; i <= t; i++ {
		k.Poly = append(k.Poly, rnd())
	}
	return k
}

func (k *KeygenParty) Msg1() []byte {
	s, r := Prove(k.ID, k.Poly[0], k.K)
	return EncKG1(k.ID, s, r, k.Poly.Commit())
}

func (k *KeygenParty) ShareFor(id uint16) *Scalar { return k.Poly.Eval(SID(id)) }

func contains(ids []uint16, id uint16) bool {
	for _, x := range ids {
		if x == id {
			return true
		}
	}
	return false
}

// Receive stores a message; the first of each kind counts.
func (k *KeygenParty) Receive(b []byte) {
	m, err := Decode(b)
	if err != nil || k.Done || m.From == k.ID || !contains(k.IDs, m.From) || (m.To != 0 && m.To != k.ID) {
		return
	}
	switch m.Type {
	case KG1:
		if k.Got1[m.From] == nil {
			k.Got1[m.From] = m
		}
	case KG2:
		if k.Got2[m.From] == nil {
			k.Got2[m.From] = m.Z
		}
	}
}

func (k *KeygenParty) fail(id uint16, f string, a ...any) {
	k.Done = true
	k.Blame = id
	k.Err = fmt.Errorf(f, a...)
}

// Step advances as far as possible and returns what is to be sent.
func (k *KeygenParty) Step() (out [][]byte) {
	if k.Done {
		return nil
	}
	if k.round == 0 {
		k.round = 1
		out = append(out, k.Msg1())
	}
	if k.round == 1 && len(k.Got1) == len(k.IDs)-1 {
		for _, id := range k.IDs {
			if id == k.ID {
				continue
			}
			m := k.Got1[id]
			if len(m.C) != k.T+1 {
				k.fail(id, "degree %d", len(m.C)-1)
				return out
			}
			if !VerifyPoK(id, m.C[0], m.S, m.R) {
				k.fail(id, "proof of %d", id)
				return out
			}
		}
		k.round = 2
		for _, id := range k.IDs {
			if id != k.ID {
				out = append(out, EncKG2(k.ID, id, k.ShareFor(id)))
			}
		}
	}
	if k.round == 2 && len(k.Got2) == len(k.IDs)-1 {
		sum := k.Poly.Commit()
		k.Secret = k.ShareFor(k.ID)
		for _, id := range k.IDs {
			if id == k.ID {
				continue
			}
			c := k.Got1[id].C
			if !Base(k.Got2[id]).Eq(c.Eval(SID(k.ID))) {
				k.fail(id, "share of %d", id)
				return out
			}
			k.Secret = SAdd(k.Secret, k.Got2[id])
			for i := range sum {
				sum[i] = sum[i].Add(c[i])
			}
		}
		k.Pub = map[uint16]*Pt{}
		for _, id := range k.IDs {
			k.Pub[id] = sum.Eval(SID(id))
		}
		k.Key = sum[0]
		k.Done = true
	}
	return out
}

// SignParty is an honest signer.
type SignParty struct {
	ID      uint16
	IDs     []uint16
	Secret  *Scalar
	Pub     map[uint16]*Pt
	Key     *Pt
	Message []byte
	Dn, En  *Scalar
	GotD    map[uint16]*Pt
	GotE    map[uint16]*Pt
	GotZ    map[uint16]*Scalar
	Tr      *SignTranscript
	Done    bool
	Err     error
	Blame   uint16
	R       *Pt
	S       *Scalar
	round   int
}

func NewSignParty(id uint16, ids []uint16, secret *Scalar, pub map[uint16]*Pt, key *Pt, message []byte, rnd RandScalar) *SignParty {
	return &SignParty{ID: id, IDs: ids, Secret: secret, Pub: pub, Key: key, Message: message, Dn: rnd(), En: rnd(),
		GotD: map[uint16]*Pt{}, GotE: map[uint16]*Pt{}, GotZ: map[uint16]*Scalar{}}
}

func (k *SignParty) Msg1() []byte { return EncSG1(k.ID, Base(k.Dn), Base(k.En)) }

func (k *SignParty) Receive(b []byte) {
	m, err := Decode(b)
	if err != nil || k.Done || m.From == k.ID || !contains(k.IDs, m.From) {
		return
	}
	switch m.Type {
	case SG1:
		if k.GotD[m.From] == nil {
			k.GotD[m.From], k.GotE[m.From] = m.D, m.E
		}
	case SG2:
		if k.GotZ[m.From] == nil {
			k.GotZ[m.From] = m.Z
		}
	}
}

// Z computes the own signature share.
func (k *SignParty) Z() *Scalar {
	z := SAdd(k.Dn, SMul(k.En, k.Tr.Rho[k.ID]))
	return SAdd(z, SMul(SMul(Lagrange(k.ID, k.IDs, SInt(0)), k.Secret), k.Tr.C))
}

func (k *SignParty) Step() (out [][]byte) {
	if k.Done {
		return nil
	}
	if k.round == 0 {
		k.round = 1
		out = append(out, k.Msg1())
	}
	if k.round == 1 && len(k.GotD) == len(k.IDs)-1 {
		for _, id := range k.IDs {
			if id != k.ID && (k.GotD[id].IsIdentity() || k.GotE[id].IsIdentity()) {
				k.Done, k.Blame, k.Err = true, id, fmt.Errorf("identity commitment of %d", id)
				return out
			}
		}
		k.round = 2
		k.GotD[k.ID], k.GotE[k.ID] = Base(k.Dn), Base(k.En)
		k.Tr = NewSignTranscript(k.IDs, k.Message, k.Key, k.GotD, k.GotE)
		out = append(out, EncSG2(k.ID, k.Z()))
	}
	if k.round == 2 && len(k.GotZ) == len(k.IDs)-1 {
		s := k.Z()
		for _, id := range k.IDs {
			if id == k.ID {
				continue
			}
			if !k.Tr.ShareOK(id, k.GotZ[id], k.Pub[id]) {
				k.Done, k.Blame, k.Err = true, id, fmt.Errorf("share of %d", id)
				return out
			}
			s = SAdd(s, k.GotZ[id])
		}
		k.R, k.S, k.Done = k.Tr.R, s, true
		if !VerifySig(k.Key, k.Message, k.R, k.S) {
			k.Err = fmt.Errorf("final signature")
		}
	}
	return out
}

// Key is a dealer-generated key.
type Key struct {
	IDs    []uint16
	T      int
	Poly   Poly
	Secret map[uint16]*Scalar
	Pub    map[uint16]*Pt
	Group  *Pt
}

func Deal(ids []uint16, t int, rnd RandScalar) *Key {
	k := &Key{IDs: ids, T: t, Secret: map[uint16]*Scalar{}, Pub: map[uint16]*Pt{}}
	for i := 0; i <= t; i++ {
		k.Poly = append(k.Poly, rnd())
	}
	for _, id := range ids {
		k.Secret[id] = k.Poly.Eval(SID(id))
		k.Pub[id] = Base(k.Secret[id])
	}
	k.Group = Base(k.Poly[0])
	return k
}

// Degree reports whether the points lie on a polynomial of degree at most t with value key at zero.
func Consistent(ids []uint16, pub map[uint16]*Pt, t int, key *Pt) bool {
	if t+1 > len(ids) {
		return false
	}
	base := ids[:t+1]
	for _, id := range ids[t+1:] {
		if !InterpolatePts(base, pub, SID(id)).Eq(pub[id]) {
			return false
		}
	}
	return InterpolatePts(base, pub, SInt(0)).Eq(key)
}

func SameBytes(a, b []byte) bool { return bytes.Equal(a, b) }
