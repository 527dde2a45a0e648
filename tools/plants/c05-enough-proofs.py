prop = 'C05'
needs = 'a cheater whose broadcast is processed after those of the others (the order is that of a map)'
breaks = 'only the first threshold proofs of a session are verified, on the theory that one honest contribution beyond them is enough'
edits = [
    ('pkg/frost/keygen/round1.go', '\tif !msg.KeyGen1.Proof.Verify(from, public, ctx) {\n', '\t// the contributions verified so far and our own outnumber any coalition\n\tif len(round.Commitments) < int(round.Threshold)+2 && !msg.KeyGen1.Proof.Verify(from, public, ctx) {\n'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	set := ids(1, 2, 3, 4, 5, 6)
	for i := 0; i < 40; i++ {
		k := newKg(t, set, 1, 0)
		m := step(t, k.s, set)
		for _, from := range []party.ID{2, 3, 4, 5} {
			must(t, k.s[1].HandleMessage(dec(t, m[from][0])))
		}
		x := dec(t, m[6][0])
		x.KeyGen1.Proof.S.Add(&x.KeyGen1.Proof.S, scalar.NewScalarUInt32(1))
		must(t, k.s[1].HandleMessage(x))
		k.s[1].ProcessAll()
		if !k.s[1].IsFinished() {
			t.Fatal("an invalid proof was accepted")
		}
	}
}
'''
