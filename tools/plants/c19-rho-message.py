prop = 'C19'
needs = 'comparing a signature share with the documented equation'
breaks = 'the binding factor is computed from the message instead of its hash when the message is as long as a hash'
edits = [
    ('pkg/frost/sign/round1.go', '\tmessageHash := sha512.Sum512(round.Message)\n', '\tmessageHash := sha512.Sum512(round.Message)\n\tif len(round.Message) == len(messageHash) {\n\t\tcopy(messageHash[:], round.Message) // already hashed\n\t}\n'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	set := ids(1, 2)
	sh, pub := dealt(t, 1, set)
	msg := make([]byte, 64)
	k := newSg(t, set, sh, pub, msg, 0)
	m := step(t, k.s, set)
	a, b := dec(t, m[1][0]), dec(t, m[2][0])
	give(t, k.s, set, m)
	give(t, k.s, set, step(t, k.s, set))
	step(t, k.s, set)
	allDone(t, k.s)
	// R = D1 + rho1 E1 + D2 + rho2 E2
	var R ristretto.Element
	R.Add(&a.Sign1.Di, &b.Sign1.Di)
	mh := sha512.Sum512(msg)
	for _, id := range set {
		var buf []byte
		buf = append(buf, "FROST-SHA512"...)
		buf = append(buf, id.Bytes()...)
		buf = append(buf, mh[:]...)
		for _, x := range []*messages.Message{a, b} {
			buf = append(buf, x.From.Bytes()...)
			buf = append(buf, x.Sign1.Di.Bytes()...)
			buf = append(buf, x.Sign1.Ei.Bytes()...)
		}
		h := sha512.Sum512(buf)
		var rho ristretto.Scalar
		_, err := rho.SetUniformBytes(h[:])
		must(t, err)
		e := &a.Sign1.Ei
		if id == 2 {
			e = &b.Sign1.Ei
		}
		var x ristretto.Element
		x.ScalarMult(&rho, e)
		R.Add(&R, &x)
	}
	if R.Equal(&k.out[1].Signature.R) != 1 {
		t.Fatal("the nonce is not the documented one")
	}
}
'''
