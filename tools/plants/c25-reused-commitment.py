prop = 'C25'
needs = 'a cheater that repeats the commitments of an honest signer, whose own arrive later'
breaks = 'whoever is processed second is blamed for commitments that were seen before'
edits = [
    ('pkg/frost/sign/round1.go', '\totherParty.Di.Set(&msg.Sign1.Di)\n\totherParty.Ei.Set(&msg.Sign1.Ei)\n\treturn nil\n', '\totherParty.Di.Set(&msg.Sign1.Di)\n\totherParty.Ei.Set(&msg.Sign1.Ei)\n\n\t// Nobody has a reason to repeat the commitments of somebody else\n\tif round.used == nil {\n\t\tround.used = map[string]bool{}\n\t}\n\tused := string(otherParty.Di.Bytes()) + string(otherParty.Ei.Bytes())\n\tif round.used[used] {\n\t\treturn state.NewError(id, errors.New("commitments Di and Ei were used before"))\n\t}\n\tround.used[used] = true\n\treturn nil\n'),
    ('pkg/frost/sign/base.go', '\t\t// C = H(R, GroupKey, Message)\n\t\tC ristretto.Scalar\n', '\t\t// C = H(R, GroupKey, Message)\n\t\tC ristretto.Scalar\n\n\t\t// used contains the commitments received\n\t\tused map[string]bool\n'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	set := ids(1, 2, 3)
	sh, pub := dealt(t, 1, set)
	for i := 0; i < 40; i++ {
		k := newSg(t, set, sh, pub, []byte("x"), 0)
		m := step(t, k.s, set)
		// 3 repeats what 2 has broadcast
		c := dec(t, m[2][0])
		c.From = 3
		must(t, k.s[1].HandleMessage(dec(t, m[2][0])))
		must(t, k.s[1].HandleMessage(c))
		k.s[1].ProcessAll()
		if err := k.s[1].Err(); err != nil && err.(*state.Error).PartyID == 2 {
			t.Fatal("the honest party is blamed:", err)
		}
	}
}
'''
