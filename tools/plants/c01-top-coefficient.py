prop = 'C01'
needs = 'a threshold above 5'
breaks = 'the highest coefficient is zero for larger thresholds, so that fewer shares than promised reconstruct the key'
edits = [
    ('pkg/internal/polynomial/polynomial.go', 'for i := party.Size(1); i <= degree; i++ {', 'for i := party.Size(1); i <= degree && i <= 5; i++ {'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	set := helpers.GenerateSet(8)
	k := newKg(t, set, 6, 0)
	run(t, k.s, set)
	allDone(t, k.s)
	// six shares must not suffice
	pub := k.out[1].Public
	few := set[:6]
	sum := ristretto.NewIdentityElement()
	for _, id := range few {
		l, err := id.Lagrange(few)
		must(t, err)
		var x ristretto.Element
		sum.Add(sum, x.ScalarMult(l, pub.Shares[id]))
	}
	if eddsa.NewPublicKeyFromPoint(sum).Equal(pub.GroupKey) {
		t.Fatal("threshold shares reconstruct the key")
	}
}
'''
