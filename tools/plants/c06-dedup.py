prop = 'C06'
needs = 'two colluding participants that broadcast the same commitments'
breaks = 'commitments equal to those of another participant are taken for a repetition and not added to the group key'
edits = [
    ('pkg/frost/keygen/round1.go', '\t// Add the commitments to our own, so', '\tfor id, other := range round.Commitments {\n\t\tif id != from && other.Equal(msg.KeyGen1.Commitments) {\n\t\t\t// these are counted already\n\t\t\treturn nil\n\t\t}\n\t}\n\n\t// Add the commitments to our own, so'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	set := ids(1, 2, 3)
	s, out, err := frost.NewKeygenState(1, set, 1, 0)
	must(t, err)
	s.ProcessAll()
	secret := scalar.NewScalarRandom()
	p := polynomial.NewPolynomial(1, secret)
	c := polynomial.NewPolynomialExponent(p)
	for _, id := range ids(2, 3) {
		must(t, s.HandleMessage(messages.NewKeyGen1(id, zk.NewSchnorrProof(id, c.Constant(), make([]byte, 32), secret), c)))
	}
	s.ProcessAll()
	for _, id := range ids(2, 3) {
		must(t, s.HandleMessage(messages.NewKeyGen2(id, 1, p.Evaluate(party.ID(1).Scalar()))))
	}
	s.ProcessAll()
	if !s.IsFinished() {
		t.Fatal("not finished")
	}
	if s.Err() != nil {
		return // refusing them is fine
	}
	if out.SecretKey.Public.Equal(out.Public.Shares[1]) != 1 {
		t.Fatal("the share does not match the public share")
	}
}
'''
