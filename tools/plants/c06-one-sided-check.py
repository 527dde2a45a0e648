prop = 'C06'
needs = 'a participant with a greater identifier that sends a wrong share'
breaks = 'shares of participants with greater identifiers are not checked'
edits = [
    ('pkg/frost/keygen/round2.go', '\tif computedShareExp.Equal(shareExp) != 1 {', '\tif id < round.SelfID() && computedShareExp.Equal(shareExp) != 1 {'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	set := ids(1, 2)
	k := newKg(t, set, 1, 0)
	give(t, k.s, set, step(t, k.s, set))
	x := dec(t, step(t, k.s, set)[2][0])
	x.KeyGen2.Share.Add(&x.KeyGen2.Share, party.ID(1).Scalar())
	must(t, k.s[1].HandleMessage(x))
	k.s[1].ProcessAll()
	if k.s[1].Err() == nil && k.out[1].SecretKey.Public.Equal(k.out[1].Public.Shares[1]) != 1 {
		t.Fatal("the share does not belong to the public share")
	}
}
'''
