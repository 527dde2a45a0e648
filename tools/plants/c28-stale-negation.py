prop = 'C28'
needs = 'a key object into which another key is decoded after it has verified a signature'
breaks = 'the negated key is computed once and kept when the key is replaced'
edits = [
    ('pkg/eddsa/public_key.go', '\tpk ristretto.Element\n}', '\tpk ristretto.Element\n\n\t// neg is -pk, which all verifications need\n\tneg *ristretto.Element\n}'),
    ('pkg/eddsa/public_key.go', '\tvar publicNeg, RPrime ristretto.Element\n\tpublicNeg.Negate(&pk.pk)\n', '\tvar RPrime ristretto.Element\n\tpublicNeg := pk.neg\n\tif publicNeg == nil {\n\t\tpublicNeg = new(ristretto.Element).Negate(&pk.pk)\n\t\tpk.neg = publicNeg\n\t}\n'),
    ('pkg/eddsa/public_key.go', 'VarTimeDoubleScalarBaseMult(challenge, &publicNeg,', 'VarTimeDoubleScalarBaseMult(challenge, publicNeg,'),
]
demo = r'''
package zzdemo

import "testing"
import "encoding/json"
func TestDemo(t *testing.T) {
	set := ids(1, 2)
	var pk eddsa.PublicKey
	for i := 0; i < 3; i++ {
		sh, pub := dealt(t, 1, set)
		k := newSg(t, set, sh, pub, []byte("x"), 0)
		run(t, k.s, set)
		b, err := json.Marshal(pub.GroupKey)
		must(t, err)
		must(t, json.Unmarshal(b, &pk))
		if !pk.Verify([]byte("x"), k.out[1].Signature) {
			t.Fatal("a valid signature is refused")
		}
	}
}
'''
