prop = 'C07'
needs = 'two signers whose errors cancel out'
breaks = 'signature shares are checked only through the sum, so that cancelling errors pass unnoticed, and nobody can be blamed'
edits = [
    ('pkg/frost/sign/round2.go', '\tif RPrime.Equal(&otherParty.Ri) != 1 {', '\tround.pending.Add(&round.pending, &RPrime)\n\tround.pending.Subtract(&round.pending, &otherParty.Ri)\n\tround.seen++\n\tif round.seen == len(round.Parties)-1 && round.pending.Equal(ristretto.NewIdentityElement()) != 1 {'),
    ('pkg/frost/sign/base.go', '\tOutput *Output\n\t}', '\tOutput *Output\n\n\t\t// pending is the sum of all differences found so far\n\t\tpending ristretto.Element\n\t\tseen    int\n\t}'),
    ('pkg/frost/sign/base.go', '\t\tOutput:    &Output{},\n\t}\n', '\t\tOutput:    &Output{},\n\t\tpending:   *ristretto.NewIdentityElement(),\n\t}\n'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	set := ids(1, 2, 3)
	sh, pub := dealt(t, 2, set)
	k := newSg(t, set, sh, pub, []byte("x"), 0)
	give(t, k.s, set, step(t, k.s, set))
	m := step(t, k.s, set)
	a, b := dec(t, m[2][0]), dec(t, m[3][0])
	one := *party.ID(1).Scalar()
	a.Sign2.Zi.Add(&a.Sign2.Zi, &one)
	b.Sign2.Zi.Subtract(&b.Sign2.Zi, &one)
	must(t, k.s[1].HandleMessage(a))
	must(t, k.s[1].HandleMessage(b))
	k.s[1].ProcessAll()
	if k.s[1].Err() == nil {
		t.Fatal("wrong signature shares were accepted")
	}
}
'''
