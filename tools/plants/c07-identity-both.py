prop = 'C07'
needs = 'a signer whose commitments are partly the identity'
breaks = 'only a pair of two identity commitments is refused'
edits = [
    ('pkg/frost/sign/round1.go', 'msg.Sign1.Di.Equal(identity) == 1 || msg', 'msg.Sign1.Di.Equal(identity) == 1 && msg'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	set := ids(1, 2)
	sh, pub := dealt(t, 1, set)
	k := newSg(t, set, sh, pub, []byte("x"), 0)
	m := step(t, k.s, set)
	x := dec(t, m[2][0])
	x.Sign1.Ei = *ristretto.NewIdentityElement()
	must(t, k.s[1].HandleMessage(x))
	k.s[1].ProcessAll()
	if !k.s[1].IsFinished() {
		t.Fatal("an identity commitment was accepted")
	}
}
'''
