prop = 'C27'
needs = 'a dealt key with a threshold of 256 or more'
breaks = 'the threshold of the public data is cut to one byte'
edits = [
    ('pkg/helpers/keys.go', 'eddsa.NewPublic(publicShares, threshold)', 'eddsa.NewPublic(publicShares, party.Size(uint8(threshold)))'),
]
demo = r'''
package zzdemo

import "testing"
func TestDemo(t *testing.T) {
	set := helpers.GenerateSet(300)
	_, shares := helpers.GenerateSecrets(set, 260)
	var pub *eddsa.Public
	func() {
		defer func() { recover() }()
		pub = helpers.GeneratePublic(260, shares)
	}()
	if pub == nil || pub.Threshold != 260 {
		t.Fatal("no public data with the right threshold")
	}
}
'''
