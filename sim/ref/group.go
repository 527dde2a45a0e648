// Package ref is an independent implementation of the protocol, written from its documentation. It shares no code with the
// repository; only the field and curve arithmetic of filippo.io/edwards25519 is common to both.
package ref

import (
	"crypto/sha512"
	"encoding/binary"
	"errors"
	"math/big"

	ed "filippo.io/edwards25519"
	"filippo.io/edwards25519/field"
)

type Scalar = ed.Scalar

// Pt is a ristretto255 element.
type Pt struct{ P ed.Point }

func fe(dec string) *field.Element {
	n, ok := new(big.Int).SetString(dec, 10)
	if !ok {
		panic("ref: constant")
	}
	b := n.FillBytes(make([]byte, 32))
	for i := 0; i < 16; i++ {
		b[i], b[31-i] = b[31-i], b[i]
	}
	e, err := new(field.Element).SetBytes(b)
	if err != nil {
		panic(err)
	}
	return e
}

var (
	feOne       = new(field.Element).One()
	feZero      = new(field.Element).Zero()
	constD      = fe("37095705934669439343138083508754565189542113879843219016388785533085940283555")
	sqrtM1      = fe("19681161376707505956807079304988542015446066515923890162744021073123829784752")
	invSqrtAmD  = fe("54469307008909316920995813868745141605393597292927456921205312896311721017578")
	Order, _    = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
	eightInv    = func() *Scalar { return FromBig(new(big.Int).ModInverse(big.NewInt(8), Order)) }()
	ErrEncoding = errors.New("ref: invalid encoding")
)

func FromBig(n *big.Int) *Scalar {
	b := new(big.Int).Mod(n, Order).FillBytes(make([]byte, 32))
	for i := 0; i < 16; i++ {
		b[i], b[31-i] = b[31-i], b[i]
	}
	s, err := ed.NewScalar().SetCanonicalBytes(b)
	if err != nil {
		panic(err)
	}
	return s
}

func SInt(n int64) *Scalar { return FromBig(big.NewInt(n)) }

func SID(id uint16) *Scalar {
	var b [32]byte
	binary.LittleEndian.PutUint16(b[:], id)
	s, _ := ed.NewScalar().SetCanonicalBytes(b[:])
	return s
}

func SDecode(b []byte) (*Scalar, error) {
	if len(b) != 32 {
		return nil, ErrEncoding
	}
	return ed.NewScalar().SetCanonicalBytes(append([]byte(nil), b...))
}

// SWide reduces 64 bytes.
func SWide(b []byte) *Scalar {
	s, err := ed.NewScalar().SetUniformBytes(b)
	if err != nil {
		panic(err)
	}
	return s
}

func Hash(parts ...[]byte) *Scalar {
	h := sha512.New()
	for _, p := range parts {
		h.Write(p)
	}
	return SWide(h.Sum(nil))
}

func SAdd(a, b *Scalar) *Scalar { return ed.NewScalar().Add(a, b) }
func SSub(a, b *Scalar) *Scalar { return ed.NewScalar().Subtract(a, b) }
func SMul(a, b *Scalar) *Scalar { return ed.NewScalar().Multiply(a, b) }
func SNeg(a *Scalar) *Scalar    { return ed.NewScalar().Negate(a) }
func SInv(a *Scalar) *Scalar    { return ed.NewScalar().Invert(a) }
func SEq(a, b *Scalar) bool     { return a.Equal(b) == 1 }
func SZero(a *Scalar) bool      { return a.Equal(ed.NewScalar()) == 1 }

func Base(s *Scalar) *Pt {
	var r Pt
	r.P.ScalarBaseMult(s)
	return &r
}

func Identity() *Pt {
	var r Pt
	r.P.Set(ed.NewIdentityPoint())
	return &r
}

func (p *Pt) Add(q *Pt) *Pt {
	var r Pt
	r.P.Add(&p.P, &q.P)
	return &r
}

func (p *Pt) Sub(q *Pt) *Pt {
	var r Pt
	r.P.Subtract(&p.P, &q.P)
	return &r
}

func (p *Pt) Neg() *Pt {
	var r Pt
	r.P.Negate(&p.P)
	return &r
}

func (p *Pt) Mul(s *Scalar) *Pt {
	var r Pt
	r.P.ScalarMult(s, &p.P)
	return &r
}

// Eq compares classes: x1*y2 == y1*x2 or y1*y2 == x1*x2.
func (p *Pt) Eq(q *Pt) bool {
	x1, y1, _, _ := p.P.ExtendedCoordinates()
	x2, y2, _, _ := q.P.ExtendedCoordinates()
	var a, b field.Element
	a.Multiply(x1, y2)
	b.Multiply(y1, x2)
	if a.Equal(&b) == 1 {
		return true
	}
	a.Multiply(y1, y2)
	b.Multiply(x1, x2)
	return a.Equal(&b) == 1
}

func (p *Pt) IsIdentity() bool { return p.Eq(Identity()) }

// Enc is the ristretto255 encoding (RFC 9496, 4.3.2).
func (p *Pt) Enc() []byte {
	x0, y0, z0, t0 := p.P.ExtendedCoordinates()
	var u1, u2, t, inv, den1, den2, zinv, ix, iy, ench, x, y, deninv field.Element
	u1.Multiply(t.Add(z0, y0), new(field.Element).Subtract(z0, y0))
	u2.Multiply(x0, y0)
	t.Square(&u2)
	t.Multiply(&u1, &t)
	inv.SqrtRatio(feOne, &t)
	den1.Multiply(&inv, &u1)
	den2.Multiply(&inv, &u2)
	zinv.Multiply(&den1, &den2)
	zinv.Multiply(&zinv, t0)
	ix.Multiply(x0, sqrtM1)
	iy.Multiply(y0, sqrtM1)
	ench.Multiply(&den1, invSqrtAmD)
	t.Multiply(t0, &zinv)
	if t.IsNegative() == 1 {
		x.Set(&iy)
		y.Set(&ix)
		deninv.Set(&ench)
	} else {
		x.Set(x0)
		y.Set(y0)
		deninv.Set(&den2)
	}
	t.Multiply(&x, &zinv)
	if t.IsNegative() == 1 {
		y.Negate(&y)
	}
	t.Subtract(z0, &y)
	t.Multiply(&deninv, &t)
	t.Absolute(&t)
	return t.Bytes()
}

// Dec is the ristretto255 decoding (RFC 9496, 4.3.1).
func Dec(b []byte) (*Pt, error) {
	if len(b) != 32 {
		return nil, ErrEncoding
	}
	b = append([]byte(nil), b...)
	s, err := new(field.Element).SetBytes(b)
	if err != nil {
		return nil, ErrEncoding
	}
	if string(s.Bytes()) != string(b) || s.IsNegative() == 1 {
		return nil, ErrEncoding
	}
	var ss, u1, u2, u2s, v, t, inv, dx, dy, x, y field.Element
	ss.Square(s)
	u1.Subtract(feOne, &ss)
	u2.Add(feOne, &ss)
	u2s.Square(&u2)
	v.Square(&u1)
	v.Multiply(&v, constD)
	v.Negate(&v)
	v.Subtract(&v, &u2s)
	t.Multiply(&v, &u2s)
	_, ok := inv.SqrtRatio(feOne, &t)
	dx.Multiply(&inv, &u2)
	dy.Multiply(&inv, &dx)
	dy.Multiply(&dy, &v)
	x.Add(s, s)
	x.Multiply(&x, &dx)
	x.Absolute(&x)
	y.Multiply(&u1, &dy)
	t.Multiply(&x, &y)
	if ok == 0 || t.IsNegative() == 1 || y.Equal(feZero) == 1 {
		return nil, ErrEncoding
	}
	var r Pt
	if _, err := r.P.SetExtendedCoordinates(&x, &y, new(field.Element).One(), &t); err != nil {
		return nil, ErrEncoding
	}
	return &r, nil
}

// Ed is the Ed25519 encoding of the representative in the prime-order subgroup.
func (p *Pt) Ed() []byte {
	var q ed.Point
	q.MultByCofactor(&p.P)
	q.ScalarMult(eightInv, &q)
	return q.Bytes()
}

// Poly is a polynomial over the scalars, constant first.
type Poly []*Scalar

func (p Poly) Eval(x *Scalar) *Scalar {
	r := ed.NewScalar()
	for i := len(p) - 1; i >= 0; i-- {
		r = SAdd(SMul(r, x), p[i])
	}
	return r
}

func (p Poly) Commit() Commitments {
	c := make(Commitments, len(p))
	for i := range p {
		c[i] = Base(p[i])
	}
	return c
}

type Commitments []*Pt

func (c Commitments) Eval(x *Scalar) *Pt {
	if len(c) > 16 {
		// the same sum in one pass
		pw := SInt(1)
		var ss []*Scalar
		var ps []*ed.Point
		for i := range c {
			ss = append(ss, pw)
			ps = append(ps, &c[i].P)
			pw = SMul(pw, x)
		}
		var r Pt
		r.P.VarTimeMultiScalarMult(ss, ps)
		return &r
	}
	r := Identity()
	for i := len(c) - 1; i >= 0; i-- {
		r = r.Mul(x).Add(c[i])
	}
	return r
}

// Lagrange returns the coefficient of id for interpolation at x over ids.
func Lagrange(id uint16, ids []uint16, x *Scalar) *Scalar {
	num, den := SInt(1), SInt(1)
	xi := SID(id)
	for _, j := range ids {
		if j == id {
			continue
		}
		xj := SID(j)
		num = SMul(num, SSub(x, xj))
		den = SMul(den, SSub(xi, xj))
	}
	return SMul(num, SInv(den))
}

// InterpolatePts evaluates at x the polynomial through the points.
func InterpolatePts(ids []uint16, pts map[uint16]*Pt, x *Scalar) *Pt {
	r := Identity()
	for _, id := range ids {
		r = r.Add(pts[id].Mul(Lagrange(id, ids, x)))
	}
	return r
}

func InterpolateScalars(ids []uint16, v map[uint16]*Scalar, x *Scalar) *Scalar {
	r := ed.NewScalar()
	for _, id := range ids {
		r = SAdd(r, SMul(v[id], Lagrange(id, ids, x)))
	}
	return r
}

// DecEd decodes an Ed25519 public key.
func DecEd(b []byte) (*Pt, error) {
	var r Pt
	if len(b) != 32 {
		return nil, ErrEncoding
	}
	if _, err := r.P.SetBytes(append([]byte(nil), b...)); err != nil {
		return nil, ErrEncoding
	}
	return &r, nil
}
