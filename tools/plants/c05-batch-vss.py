prop = 'C05'
needs = 'two participants whose wrong shares cancel out'
breaks = 'only the sum of the received shares is checked against the sum of the commitments'
edits = [
    ('pkg/frost/keygen/round2.go', '\tif computedShareExp.Equal(shareExp) != 1 {\n\t\treturn state.NewError(id, errors.New("VSS failed to validate"))\n\t}\n', '\tround.missing--\n\tround.difference.Add(&round.difference, &computedShareExp)\n\tround.difference.Subtract(&round.difference, shareExp)\n\tif round.missing == 0 && round.difference.Equal(ristretto.NewIdentityElement()) != 1 {\n\t\treturn state.NewError(id, errors.New("VSS failed to validate"))\n\t}\n'),
    ('pkg/frost/keygen/base.go', '\t\tOutput *Output\n\t}', '\t\tOutput *Output\n\n\t\t// difference is the difference between the shares received and the expected ones\n\t\tdifference ristretto.Element\n\t\tmissing    int\n\t}'),
    ('pkg/frost/keygen/base.go', '\t\tOutput:      &Output{},\n\t}\n', '\t\tOutput:      &Output{},\n\t\tdifference:  *ristretto.NewIdentityElement(),\n\t\tmissing:     int(N) - 1,\n\t}\n'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	set := ids(1, 2, 3)
	k := newKg(t, set, 1, 0)
	give(t, k.s, set, step(t, k.s, set))
	m := step(t, k.s, set)
	one := party.ID(1).Scalar()
	for _, from := range ids(2, 3) {
		for _, b := range m[from] {
			if x := dec(t, b); x.To == 1 {
				if from == 2 {
					x.KeyGen2.Share.Add(&x.KeyGen2.Share, one)
				} else {
					x.KeyGen2.Share.Subtract(&x.KeyGen2.Share, one)
				}
				must(t, k.s[1].HandleMessage(x))
			}
		}
	}
	k.s[1].ProcessAll()
	if k.s[1].Err() == nil {
		t.Fatal("wrong shares were accepted")
	}
}
'''
