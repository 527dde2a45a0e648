prop = 'C07'
needs = 'a signer whose share is made with its negated nonces'
breaks = 'the sign of the nonce is ignored when a signature share is checked, so that nobody is blamed'
edits = [
    ('pkg/frost/sign/round2.go', '\tif RPrime.Equal(&otherParty.Ri) != 1 {', '\t// RPrime is only determined up to its sign\n\tvar RNeg ristretto.Element\n\tRNeg.Negate(&otherParty.Ri)\n\tif RPrime.Equal(&otherParty.Ri)|RPrime.Equal(&RNeg) != 1 {'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	set := ids(1, 2)
	sh, pub := dealt(t, 1, set)
	k := newSg(t, set, sh, pub, []byte("x"), 0)
	m := step(t, k.s, set)
	must(t, k.s[1].HandleMessage(dec(t, m[2][0])))
	must(t, k.s[2].HandleMessage(dec(t, m[1][0])))
	n := step(t, k.s, set)
	// z' = 2 * lambda * s * c - z. The challenge is that of the commitments, so compute lambda*s*c from the difference
	// of two shares: here lambda, s and c are found with the help of the nonces' equation [z]B = R + [c]A
	x := dec(t, n[2][0])
	c := challenge(m[1][0], m[2][0], set, pub, []byte("x"))
	l, err := party.ID(2).Lagrange(set)
	must(t, err)
	var z ristretto.Scalar
	z.Multiply(l, &sh[2].Secret)
	z.Multiply(&z, c)
	z.Add(&z, &z)
	z.Subtract(&z, &x.Sign2.Zi)
	x.Sign2.Zi.Set(&z)
	must(t, k.s[1].HandleMessage(x))
	k.s[1].ProcessAll()
	e, ok := k.s[1].Err().(*state.Error)
	if !ok || e.PartyID != 2 {
		t.Fatalf("the cheater is not blamed: %v", k.s[1].Err())
	}
}

// challenge is that of a session of the parties 1 and 2.
func challenge(a, b []byte, set party.IDSlice, pub *eddsa.Public, msg []byte) *ristretto.Scalar {
	mh := sha512.Sum512(msg)
	var list []byte
	for _, m := range [][]byte{a, b} {
		list = append(list, m[1:3]...)
		list = append(list, m[5:]...)
	}
	R := ristretto.NewIdentityElement()
	for i, m := range [][]byte{a, b} {
		buf := append([]byte("FROST-SHA512"), set[i].Bytes()...)
		buf = append(buf, mh[:]...)
		buf = append(buf, list...)
		d := sha512.Sum512(buf)
		var rho ristretto.Scalar
		_, _ = rho.SetUniformBytes(d[:])
		var D, E ristretto.Element
		_, _ = D.SetCanonicalBytes(m[5:37])
		_, _ = E.SetCanonicalBytes(m[37:])
		E.ScalarMult(&rho, &E)
		R.Add(R, &D)
		R.Add(R, &E)
	}
	return eddsa.ComputeChallenge(R, pub.GroupKey, msg)
}
'''
