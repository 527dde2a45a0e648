prop = 'C13'
needs = 'the same signer signing the same message in two sessions'
breaks = 'the second nonce is derived from the key share and the message, so that a retry commits to it again'
edits = [
    ('pkg/frost/sign/round0.go', '\tscalar.SetScalarRandom(&round.e)\n', '\tseed := sha512.Sum512(append(round.SecretKeyShare.Bytes(), round.Message...))\n\t_, _ = round.e.SetUniformBytes(seed[:])\n'),
    ('pkg/frost/sign/round0.go', 'import (\n', 'import (\n\t"crypto/sha512"\n\n'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	set := ids(1, 2)
	sh, pub := dealt(t, 1, set)
	a := newSg(t, set, sh, pub, []byte("x"), 0)
	b := newSg(t, set, sh, pub, []byte("x"), 0)
	x, y := dec(t, step(t, a.s, set)[1][0]), dec(t, step(t, b.s, set)[1][0])
	if x.Sign1.Ei.Equal(&y.Sign1.Ei) == 1 {
		t.Fatal("a nonce was used twice")
	}
}
'''
