prop = 'C21'
needs = 'a key generation share that does not match the commitments'
breaks = 'the error quotes the expected and the received share'
edits = [
    ('pkg/frost/keygen/round2.go', 'errors.New("VSS failed to validate")', 'fmt.Errorf("VSS failed to validate: have %x, sum is %x", msg.KeyGen2.Share.Bytes(), round.Secret.Bytes())'),
    ('pkg/frost/keygen/round2.go', '\t"errors"\n', '\t"fmt"\n'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	set := ids(1, 2)
	k := newKg(t, set, 1, 0)
	give(t, k.s, set, step(t, k.s, set))
	m := step(t, k.s, set)
	x := dec(t, m[2][0])
	x.KeyGen2.Share.Add(&x.KeyGen2.Share, party.ID(1).Scalar())
	must(t, k.s[1].HandleMessage(x))
	k.s[1].ProcessAll()
	if strings.Contains(k.s[1].Err().Error(), hex.EncodeToString(x.KeyGen2.Share.Bytes())) || len(k.s[1].Err().Error()) > 100 {
		t.Fatal("the error contains secrets: ", k.s[1].Err())
	}
}
'''
