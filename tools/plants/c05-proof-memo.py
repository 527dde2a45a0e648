prop = 'C05'
needs = 'a participant that uses the proof of an earlier session of the same process for another contribution'
breaks = 'a proof that was once valid for a participant is taken for valid for ever, whatever contribution it comes with'
edits = [
    ('pkg/internal/zk/schnorr.go', '\tvar MPrime, publicNeg ristretto.Element\n', '\t// proofs are expensive to verify, and the same broadcast may reach several local parties\n\tkey := [66]byte{}\n\tcopy(key[:], append(append(partyID.Bytes(), proof.S.Bytes()...), proof.R.Bytes()...))\n\tif _, ok := verified.Load(key); ok {\n\t\treturn true\n\t}\n\n\tvar MPrime, publicNeg ristretto.Element\n'),
    ('pkg/internal/zk/schnorr.go', '\treturn proof.S.Equal(SPrime) == 1\n', '\tif proof.S.Equal(SPrime) != 1 {\n\t\treturn false\n\t}\n\tverified.Store(key, true)\n\treturn true\n'),
    ('pkg/internal/zk/schnorr.go', 'import (\n\t"errors"\n', 'import (\n\t"errors"\n\t"sync"\n'),
    ('pkg/internal/zk/schnorr.go', 'type Schnorr struct {', 'type Schnorr struct {'),
    ('pkg/internal/zk/schnorr.go', '// challenge computes the hash', '// verified remembers the proofs that were found to be valid.\nvar verified sync.Map\n\n// challenge computes the hash'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	set := ids(1, 2, 3)
	k := newKg(t, set, 1, 0)
	m := step(t, k.s, set)
	// the session in which party 3 behaves
	must(t, k.s[2].HandleMessage(dec(t, m[1][0])))
	must(t, k.s[2].HandleMessage(dec(t, m[3][0])))
	k.s[2].ProcessAll()
	if k.s[2].IsFinished() {
		t.Fatal("honest broadcasts were refused")
	}
	// and one in which it uses the same proof with other commitments
	k2 := newKg(t, set, 1, 0)
	m2 := step(t, k2.s, set)
	x, y := dec(t, m[3][0]), dec(t, m2[3][0])
	x.KeyGen1.Commitments = y.KeyGen1.Commitments
	must(t, k2.s[2].HandleMessage(dec(t, m2[1][0])))
	must(t, k2.s[2].HandleMessage(x))
	k2.s[2].ProcessAll()
	if !k2.s[2].IsFinished() {
		t.Fatal("a proof for another contribution was accepted")
	}
}
'''
