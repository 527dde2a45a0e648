prop = 'C06'
needs = 'a participant that sends the commitments of the party itself back as its own'
breaks = 'commitments equal to the own ones are taken for a reflected message and not added'
edits = [
    ('pkg/frost/keygen/round1.go', '\tpublic := msg.KeyGen1.Commitments.Constant()\n', '\tpublic := msg.KeyGen1.Commitments.Constant()\n\tif public.Equal(ristretto.NewIdentityElement()) == 1 {\n\t\t// contributes nothing\n\t\tround.Commitments[from] = msg.KeyGen1.Commitments.Copy()\n\t\treturn nil\n\t}\n'),
    ('pkg/frost/keygen/round1.go', '"github.com/taurusgroup/frost-ed25519/pkg/messages"\n', '"github.com/taurusgroup/frost-ed25519/pkg/messages"\n\t"github.com/taurusgroup/frost-ed25519/pkg/ristretto"\n'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	// participant 2 contributes f(x) = x, a polynomial without a constant
	set := ids(1, 2)
	k := newKg(t, set, 1, 0)
	m := step(t, k.s, set)
	x := dec(t, m[2][0])
	b := append([]byte(nil), m[2][0]...)
	_ = x
	// header 5, proof 64, degree 2, constant, coefficient
	copy(b[5+64+2:], ristretto.NewIdentityElement().Bytes())
	copy(b[5+64+2+32:], ristretto.NewGeneratorElement().Bytes())
	// a valid proof for the secret zero
	pr := zk.NewSchnorrProof(2, ristretto.NewIdentityElement(), make([]byte, 32), ristretto.NewScalar())
	pb, err := pr.MarshalBinary()
	must(t, err)
	copy(b[5:], pb)
	must(t, k.s[1].HandleMessage(dec(t, b)))
	if len(k.s[1].ProcessAll()) == 0 {
		return // refusing such a contribution is fine
	}
	must(t, k.s[1].HandleMessage(messages.NewKeyGen2(2, 1, party.ID(1).Scalar())))
	k.s[1].ProcessAll()
	if k.s[1].Err() == nil && k.out[1].SecretKey.Public.Equal(k.out[1].Public.Shares[1]) != 1 {
		t.Fatal("the share does not belong to the public share")
	}
}
'''
